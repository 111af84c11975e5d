package main

import (
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"time"

	"github.com/gernest/rbf"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/bitmaps"
	"github.com/gernest/requiemdb/internal/rows"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/roaring"
)

// index scenario: repeats histories of IndexGen.tla on real batches and real shards.

type indexOp struct {
	O    string `json:"o"`
	B    int    `json:"b"`
	N    int    `json:"n"`
	T    int    `json:"t"`
	Ls   []int  `json:"ls"`
	F    int    `json:"f"`
	Fs   []int  `json:"fs"`
	W    int    `json:"w"`
	Own  bool   `json:"own"`
	Keep bool   `json:"keep"`
	K    int    `json:"k"`
}

type indexSample struct {
	id uint64
	t  time.Time
	ls []int
}

type indexWorld struct {
	e       *Emitter
	r       *rng
	dir     string
	db      *shards.Shards
	times   []time.Time
	cols    []uint64
	ids     map[int]uint64
	usedIDs map[uint64]bool
	samples map[int]indexSample
	batches []*batch.Batch
	frags   []batch.Fragments
	touched map[uint64]bool
	held    map[int]*rows.Row
	handles int
	queries int
	churned uint64
	cold    bool // shards are opened by concurrent operations
}

func pair(v uint64) []int64 { return []int64{int64(v >> 20), int64(v & (1<<20 - 1))} }

func pairs(vs []uint64) [][]int64 {
	o := [][]int64{}
	for _, v := range vs {
		o = append(o, pair(v))
	}
	return o
}

func newIndexWorld(e *Emitter, r *rng, dir string, batches, labels, buckets int) *indexWorld {
	w := &indexWorld{e: e, r: r, dir: dir, ids: map[int]uint64{}, usedIDs: map[uint64]bool{}, samples: map[int]indexSample{},
		touched: map[uint64]bool{}, held: map[int]*rows.Row{}}
	// times of the buckets: anywhere, or close to the first
	for len(w.times) < buckets {
		t := instant(r)
		if len(w.times) > 0 && r.chance(70) {
			t = w.times[0].Add(pick(r, []time.Duration{0, 1, -1, time.Hour, -time.Hour, 24 * time.Hour, -24 * time.Hour, 31 * 24 * time.Hour, 366 * 24 * time.Hour,
				time.Duration(r.Intn(24)) * time.Hour, time.Duration(r.Intn(30)) * 24 * time.Hour, time.Duration(r.Intn(360)) * 24 * time.Hour}))
		}
		if t.Unix() < calFirst || t.Unix() >= calLast {
			continue
		}
		w.times = append(w.times, t)
	}
	all := []uint64{0, 1, 2, 3, 9, 10, 11, 64, 1000, 1 << 12, 1<<16 + 1, 1 << 24, 1<<31 - 1}
	n := 1 + r.Intn(4)
	var sh []uint64
	for i := 0; i < n; i++ {
		sh = append(sh, pick(r, all))
	}
	used := map[uint64]bool{}
	// labels close together share containers, of which small ones are kept differently
	close := r.chance(40)
	for len(w.cols) < labels {
		s := pick(r, sh)
		if close {
			c := sh[0]*shardW + 3<<16 + uint64(r.Intn(100))
			if !used[c] {
				used[c] = true
				w.cols = append(w.cols, c)
			}
			continue
		}
		var lo uint64
		switch r.Intn(6) {
		case 0:
			lo = pick(r, []uint64{0, 1, shardW - 1, shardW - 2, 65535, 65536, 65537})
		case 1:
			lo = uint64(r.Intn(10))
		case 2:
			lo = uint64(r.Intn(int(shardW)))
		default:
			lo = uint64(r.Intn(16))<<16 + uint64(r.Intn(40))
		}
		c := s*shardW + lo
		if !used[c] {
			used[c] = true
			w.cols = append(w.cols, c)
		}
	}
	for i := 0; i < batches; i++ {
		w.batches = append(w.batches, batch.New())
	}
	w.db = shards.New(dir, nil)
	return w
}

// id of sample n. Ids come close together or far apart.
func (w *indexWorld) id(n int) uint64 {
	if v, ok := w.ids[n]; ok {
		return v
	}
	for {
		var v uint64
		switch w.r.Intn(5) {
		case 0:
			v = uint64(w.r.Int63n(1 << 44))
		case 1:
			v = uint64(1)<<uint(w.r.Intn(44)) - uint64(w.r.Intn(2))
		default:
			v = uint64(w.r.Intn(200))
		}
		if !w.usedIDs[v] {
			w.usedIDs[v] = true
			w.ids[n] = v
			return v
		}
	}
}

func (w *indexWorld) columns(ls []int) (o []uint64) {
	for _, k := range ls {
		o = append(o, w.cols[k-1])
	}
	return
}

func bitmapOf(cols []uint64) *bitmaps.Bitmap {
	b := bitmaps.New()
	for _, c := range cols {
		b.Add(c)
	}
	return b
}

func entries(f batch.Fragments) (out [][]any) {
	out = [][]any{}
	for shard, vs := range f {
		for view, bm := range vs {
			for _, p := range bm.Slice() {
				out = append(out, []any{int64(shard), view, int64(p >> 40), int64(p >> 20 & (1<<20 - 1)), int64(p & (1<<20 - 1))})
			}
		}
	}
	return
}

// sumOf is the fingerprint of a fragment
func sumOf(f batch.Fragments) string {
	var ls []string
	for _, e := range entries(f) {
		ls = append(ls, fmt.Sprint(e...))
	}
	sort.Strings(ls)
	return fmt.Sprintf("%x", sum([]byte(fmt.Sprint(ls))))
}

func (w *indexWorld) window(t time.Time, k int) (time.Time, time.Time) {
	r := w.r
	d := []time.Duration{1, time.Hour, 26 * time.Hour, 40 * 24 * time.Hour, 800 * 24 * time.Hour,
		24*time.Hour - 1, 30*24*time.Hour - 1, 360*24*time.Hour - 1}[k-1]
	a := time.Duration(r.Int63n(int64(d)))
	s, e := t.Add(-a), t.Add(d-a)
	switch r.Intn(6) {
	case 0: // the range ends at the sample
		s, e = t.Add(-d), t
	case 1: // it starts there
		s, e = t, t.Add(d)
	case 2: // it misses the sample
		s, e = t.Add(d), t.Add(2*d)
	}
	lo, hi := time.Unix(calFirst, 0).UTC(), time.Unix(calLast-1, 0).UTC()
	if s.Before(lo) {
		s = lo
	}
	if e.After(hi) {
		e = hi
	}
	return s, e
}

func (w *indexWorld) views(t time.Time) []string {
	return []string{"std_" + t.Format("2006"), "std_" + t.Format("200601"), "std_" + t.Format("20060102"), "std_" + t.Format("2006010215")}
}

func (w *indexWorld) write(f int) error {
	for shard, vs := range w.frags[f-1] {
		err := w.db.Update(shard, func(tx *rbf.Tx) error {
			for name, bm := range vs {
				if _, err := tx.AddRoaring(name, bm); err != nil {
					return err
				}
			}
			return nil
		})
		if err != nil {
			return err
		}
	}
	return nil
}

func (w *indexWorld) lookup(ls []int, s, e time.Time) (obj, error) {
	o := obj{"s": fromTime(s), "e": fromTime(e), "ls": pairs(w.columns(ls)), "out": [][]int64{}}
	err := guard(func() error {
		b := bitmapOf(w.columns(ls))
		defer b.Release()
		got, err := w.db.Rows(s, e, b)
		if err != nil {
			return err
		}
		if got != nil {
			o["out"] = pairs(got.ToArray())
		}
		return nil
	})
	o["err"] = errString(err)
	return o, err
}

func (w *indexWorld) checkHeld() {
	var hs []int
	for h := range w.held {
		hs = append(hs, h)
	}
	sort.Ints(hs)
	for _, h := range hs {
		w.e.Emit(obj{"ev": "held", "h": h, "out": pairs(w.held[h].Columns())})
	}
}

// dump reads what the shards hold, or some of it
func (w *indexWorld) dump(share int) {
	var sh []uint64
	for s := range w.touched {
		sh = append(sh, s)
	}
	sort.Slice(sh, func(i, j int) bool { return sh[i] < sh[j] })
	seen := map[string]bool{}
	for _, s := range sh {
		for _, t := range w.times {
			for _, v := range w.views(t) {
				if k := fmt.Sprint(s, v); seen[k] {
					continue
				} else {
					seen[k] = true
				}
				if !w.r.chance(share) {
					continue
				}
				var out [][]any
				err := guard(func() error {
					return w.db.View(s, func(tx *rbf.Tx) error {
						bm, err := tx.RoaringBitmap(v)
						if err == nil {
							out = entries(batch.Fragments{s: {v: bm}})
						}
						return err
					})
				})
				if out == nil {
					out = [][]any{}
				}
				w.e.Emit(obj{"ev": "view", "shard": s, "view": v, "out": out, "err": errString(err)})
			}
		}
	}
}

func (w *indexWorld) touch(s uint64) {
	w.touched[s] = true
	w.e.Emit(obj{"ev": "touch", "shard": s})
}

var errWanted = errors.New("wanted")

func (w *indexWorld) do(o indexOp) {
	e, r := w.e, w.r
	switch o.O {
	case "add", "skip":
		s := indexSample{w.id(o.N), w.times[o.T-1], o.Ls}
		w.samples[o.N] = s
		if o.O == "skip" {
			w.batches[o.B-1].Add(s.id, s.t, nil)
			s.ls = nil
			return
		}
		e.Emit(obj{"ev": "add", "b": o.B, "id": pair(s.id), "t": fromTime(s.t), "ls": pairs(w.columns(s.ls))})
		w.batches[o.B-1].Add(s.id, s.t, bitmapOf(w.columns(s.ls)))
	case "many":
		// some in an hour of their own
		spread, step := r.chance(40), pick(r, []time.Duration{time.Hour, 25 * time.Hour, 31 * 24 * time.Hour})
		for i := 0; i < o.K; i++ {
			s := indexSample{w.id(o.N + i), pick(r, w.times), o.Ls}
			if spread {
				s.t = w.times[0].Add(time.Duration(i) * step)
				if s.t.Unix() >= calLast {
					s.t = w.times[0].Add(-time.Duration(i) * step)
				}
			}
			if r.chance(60) {
				// all but one
				j := r.Intn(len(o.Ls))
				s.ls = append(append([]int{}, o.Ls[:j]...), o.Ls[j+1:]...)
			}
			w.samples[o.N+i] = s
			e.Emit(obj{"ev": "add", "b": o.B, "id": pair(s.id), "t": fromTime(s.t), "ls": pairs(w.columns(s.ls))})
			w.batches[o.B-1].Add(s.id, s.t, bitmapOf(w.columns(s.ls)))
		}
	case "reset":
		w.batches[o.B-1].Reset()
		e.Emit(obj{"ev": "reset", "b": o.B})
	case "build":
		var f batch.Fragments
		err := guard(func() (err error) { f, err = w.batches[o.B-1].Build(); return })
		w.frags = append(w.frags, f)
		e.Emit(obj{"ev": "build", "b": o.B, "f": len(w.frags), "err": errString(err), "out": entries(f), "sum": sumOf(f)})
	case "again":
		for i, f := range w.frags {
			e.Emit(obj{"ev": "again", "f": i + 1, "sum": sumOf(f)})
		}
	case "write":
		if w.cold {
			// with others, that may have been written before
			fs := []int{o.F}
			for i := r.Intn(3); i > 0; i-- {
				if f := 1 + r.Intn(len(w.frags)); f != o.F {
					fs = append(fs, f)
				}
			}
			w.par(fs)
			return
		}
		w.begin(o.F)
		err := guard(func() error { return w.write(o.F) })
		e.Emit(obj{"ev": "write", "f": o.F, "err": errString(err)})
	case "par":
		w.par(o.Fs)
	case "rows":
		s, t := w.window(w.times[o.T-1], o.W)
		got, _ := w.lookup(o.Ls, s, t)
		got["ev"] = "rows"
		e.Emit(got)
	case "row":
		id, view := w.id(o.N), pick(r, w.views(w.times[o.T-1]))
		if o.Own {
			if s, ok := w.samples[o.N]; ok {
				view = pick(r, w.views(s.t))
			}
		}
		ev := obj{"ev": "row", "id": pair(id), "view": view, "out": [][]int64{}, "n": 0, "h": 0}
		err := guard(func() error {
			row, err := w.db.Row(view, id)
			if err != nil {
				return err
			}
			ev["out"], ev["n"] = pairs(row.Columns()), row.Count()
			if o.Keep {
				w.handles++
				w.held[w.handles] = row
				ev["h"] = w.handles
			}
			return nil
		})
		ev["err"] = errString(err)
		e.Emit(ev)
	case "all":
		out, first := []uint64{}, 0
		err := guard(func() error {
			if err := w.db.AllShards(func(tx *rbf.Tx, shard uint64) error {
				out = append(out, shard)
				_, err := tx.BitmapNames()
				return err
			}); err != nil {
				return err
			}
			return w.db.AllShards(func(tx *rbf.Tx, shard uint64) error { first++; return io.EOF })
		})
		e.Emit(obj{"ev": "all", "out": out, "first": first, "err": errString(err)})
		w.dump(15)
	case "fail":
		// a failed update leaves nothing behind
		c := w.cols[o.K-1]
		w.touch(c / shardW)
		t := pick(r, w.times)
		err := guard(func() error {
			return w.db.Update(c/shardW, func(tx *rbf.Tx) error {
				for _, v := range w.views(t) {
					if _, err := tx.AddRoaring(v, roaring.NewBitmap(77<<20|c%shardW, 12345678)); err != nil {
						return err
					}
				}
				return errWanted
			})
		})
		e.Emit(obj{"ev": "fail", "passed": errors.Is(err, errWanted)})
		w.dump(15)
	case "churn":
		// enough to make the shard move its log into its data file, more than once
		c := w.cols[o.K-1]
		w.touch(c / shardW)
		for i := 0; i < 12; i++ {
			bm := roaring.NewBitmap()
			for j := 0; j < 24; j++ {
				w.churned++
				for k := 0; k < 3000; k++ {
					bm.DirectAdd(w.churned<<16 + uint64(r.Intn(65536)))
				}
			}
			err := guard(func() error {
				return w.db.Update(c/shardW, func(tx *rbf.Tx) error {
					_, err := tx.AddRoaring("churn", bm)
					return err
				})
			})
			if err != nil {
				e.Emit(obj{"ev": "write", "f": 0, "err": err.Error()})
				return
			}
		}
		w.checkHeld()
	case "reopen":
		err := guard(w.db.Close)
		e.Emit(obj{"ev": "close", "err": errString(err)})
		w.checkHeld()
		w.held = map[int]*rows.Row{}
		w.db = shards.New(w.dir, nil)
		e.Emit(obj{"ev": "open", "err": ""})
	case "parbuild":
		w.parBuild(o.N, o.K)
	default:
		check(fmt.Errorf("unknown operation %s", o.O))
	}
}

func (w *indexWorld) begin(f int) {
	for s := range w.frags[f-1] {
		w.touched[s] = true
	}
	w.e.Emit(obj{"ev": "wbegin", "f": f})
}

// par writes fragments while looking labels up
func (w *indexWorld) par(fs []int) {
	if w.r.chance(30) || w.cold && w.r.chance(70) {
		w.do(indexOp{O: "reopen"})
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	for _, f := range fs {
		w.begin(f)
		wg.Add(1)
		var late time.Duration
		if w.cold {
			late = time.Duration(w.r.Intn(80)) * time.Microsecond
		}
		go func() {
			defer wg.Done()
			<-start
			for t := time.Now(); time.Since(t) < late; {
			}
			err := guard(func() error { return w.write(f) })
			w.e.Emit(obj{"ev": "pwrite", "f": f, "err": errString(err)})
		}()
	}
	for i := 0; i < 4; i++ {
		type query struct {
			ls   []int
			s, e time.Time
			q    int
		}
		var qs []query
		for j := 0; j < 3; j++ {
			w.queries++
			q := query{q: w.queries}
			q.s, q.e = w.window(pick(w.r, w.times), 2+w.r.Intn(4))
			for len(q.ls) == 0 {
				for k := range w.cols {
					if w.r.Intn(6) == 0 {
						q.ls = append(q.ls, k+1)
					}
				}
			}
			qs = append(qs, q)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			for _, q := range qs {
				w.e.Emit(obj{"ev": "qbegin", "q": q.q})
				got, _ := w.lookup(q.ls, q.s, q.e)
				got["ev"], got["q"] = "prows", q.q
				w.e.Emit(got)
			}
		}()
	}
	close(start)
	wg.Wait()
}

// parBuild builds batches at the same time
func (w *indexWorld) parBuild(n, k int) {
	var wg sync.WaitGroup
	for i := 0; i < k; i++ {
		var ss []indexSample
		for j := 0; j < 1+w.r.Intn(10); j++ {
			s := indexSample{id: w.id(n + 10*i + j), t: pick(w.r, w.times)}
			for l := range w.cols {
				if w.r.Intn(3) == 0 {
					s.ls = append(s.ls, l+1)
				}
			}
			ss = append(ss, s)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			adds := []obj{}
			var f batch.Fragments
			err := guard(func() (err error) {
				b := batch.New()
				for round := 0; round < 3; round++ {
					for _, s := range ss {
						b.Add(s.id, s.t, bitmapOf(w.columns(s.ls)))
					}
					if f, err = b.Build(); err != nil {
						return
					}
				}
				return
			})
			for _, s := range ss {
				adds = append(adds, obj{"id": pair(s.id), "t": fromTime(s.t), "ls": pairs(w.columns(s.ls))})
			}
			w.e.Emit(obj{"ev": "pbuild", "adds": adds, "out": entries(f), "err": errString(err)})
		}()
	}
	wg.Wait()
}

func indexMain(args []string) {
	fs := flag.NewFlagSet("index", flag.ExitOnError)
	ops := fs.String("ops", "", "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	cold := fs.Bool("cold", false, "write while looking up, after opening again")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]indexOp
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	defer e.Close()
	for i, h := range hs {
		r := newRng(*seed*1000 + int64(i))
		d := filepath.Join(*dir, itoa(i))
		labels, buckets, batches := 1, 1, 1
		for _, o := range h {
			for _, k := range append(o.Ls, o.K) {
				labels = max(labels, k)
			}
			buckets, batches = max(buckets, o.T), max(batches, o.B)
		}
		w := newIndexWorld(e, r, d, batches, labels, buckets)
		w.cold = *cold
		e.Emit(obj{"ev": "new", "batches": batches})
		for _, o := range h {
			w.do(o)
		}
		w.do(indexOp{O: "all"})
		w.dump(40)
		err := guard(w.db.Close)
		e.Emit(obj{"ev": "close", "err": errString(err)})
		w.checkHeld()
		os.RemoveAll(d)
	}
}
