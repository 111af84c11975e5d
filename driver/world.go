package main

import (
	"context"
	"errors"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/dgraph-io/badger/v4"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/samples"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/store"
	"github.com/gernest/requiemdb/internal/translate"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

func openDB(dir string) (*badger.DB, error) {
	return badger.Open(badger.DefaultOptions(filepath.Join(dir, "db")).
		WithLogger(nil).
		WithMemTableSize(16 << 20).
		WithValueLogFileSize(64 << 20).
		WithNumVersionsToKeep(1))
}

// World is the storage of one data directory, wired as the server does.
type World struct {
	dir string
	db  *badger.DB
	tr  *translate.Translate
	seq *seq.Seq
	rdb *shards.Shards
	st  *store.Storage
}

func (w *World) tryOpen() (err error) {
	if err = os.MkdirAll(w.dir, 0755); err != nil {
		return
	}
	if w.db, err = openDB(w.dir); err != nil {
		return
	}
	if w.tr, err = translate.New(w.db, []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10))); err != nil {
		return
	}
	w.rdb = shards.New(filepath.Join(w.dir, "index"), nil)
	if w.seq, err = seq.New(w.db); err != nil {
		return
	}
	w.st, err = store.NewStore(w.db, w.rdb, w.tr, w.seq, func() time.Time { return time.Now().UTC() })
	return
}

// skipLabels makes the dictionary give label numbers near n from now on: most by
// processes that ended without giving back what they had leased, the rest by labels
// nobody looks for.
func (w *World) skipLabels(n uint64) error {
	prefix := []byte(strconv.FormatUint(uint64(v1.RESOURCE_TRANSLATE_ID), 10))
	began := time.Now()
	for i := 0; ; i++ {
		at, err := w.tr.TranslateKey([]byte("skip" + strconv.Itoa(i)))
		if err != nil {
			return err
		}
		if at >= n || time.Since(began) > 20*time.Second {
			// the store has to see the new dictionary
			return errors.Join(w.tryClose(), w.tryOpen())
		}
		if at+6000 < n {
			if w.tr, err = translate.New(w.db, prefix); err != nil {
				return err
			}
		}
	}
}

// tryClose in the order of the deferred calls of the server
func (w *World) tryClose() error {
	return errors.Join(w.st.Close(), w.seq.Release(), w.rdb.Close(), w.tr.Close(), w.db.Close())
}

func (w *World) save(ls []*v1.Sample) error {
	return guard(func() error {
		l := samples.Get()
		// the store owns what it is given, the caller keeps the original
		for _, s := range ls {
			l.Items = append(l.Items, proto.Clone(s).(*v1.Sample))
		}
		return w.st.SaveSamples(context.Background(), l)
	})
}

// ---- scans

// Filter is a filter of a scan, numbered as in the protocol
type Filter struct {
	Base bool   `json:"b"`
	P    int    `json:"p"`
	K    string `json:"k"`
	V    string `json:"v"`
}

// Query is a scan
type Query struct {
	Sig     int      `json:"sig"`
	F       []Filter `json:"f"`
	Range   bool     `json:"range"`
	Start   ts       `json:"start"`
	End     ts       `json:"end"`
	Now     ts       `json:"now"`
	Offset  int64    `json:"off"` // seconds
	Limit   int      `json:"limit"`
	Reverse bool     `json:"rev"`
	Clock   bool     `json:"-"` // the time is that of the clock on the wall
}

func (q *Query) proto() *v1.Scan {
	o := &v1.Scan{Scope: v1.Scan_SCOPE(q.Sig), Limit: uint64(q.Limit), Reverse: q.Reverse, Now: timestamppb.New(q.Now.Time())}
	if q.Clock {
		o.Now = nil
	}
	if q.Range {
		o.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(q.Start.Time()), End: timestamppb.New(q.End.Time())}
	}
	if q.Offset != 0 {
		o.Offset = durationpb.New(time.Duration(q.Offset) * time.Second)
	}
	for _, f := range q.F {
		o.Filters = append(o.Filters, f.proto())
	}
	return o
}

func (f Filter) proto() *v1.Scan_Filter {
	if f.Base {
		return &v1.Scan_Filter{Value: &v1.Scan_Filter_Base{Base: &v1.Scan_BaseFilter{Prop: v1.Scan_BaseProp(f.P), Value: f.V}}}
	}
	return &v1.Scan_Filter{Value: &v1.Scan_Filter_Attr{Attr: &v1.Scan_AttrFilter{Prop: v1.Scan_AttributeProp(f.P), Key: f.K, Value: f.V}}}
}

func (w *World) scan(q *Query) (d *v1.Data, err error) {
	err = guard(func() error {
		if q.Clock {
			before := time.Now()
			d, err = w.st.Scan(context.Background(), q.proto())
			q.Now = fromTime(before)
			if q.hours(before) == q.hours(time.Now()) {
				return err
			}
			// the hour ended in between
			q.Clock = false
		}
		d, err = w.st.Scan(context.Background(), q.proto())
		return err
	})
	return
}

// hours that an instant scan evaluated now starts and ends in
func (q *Query) hours(now time.Time) [2]int64 {
	end := now.Add(-time.Duration(q.Offset) * time.Second)
	return [2]int64{end.Add(-15*time.Minute).Unix() / 3600, end.Unix() / 3600}
}

func (q *Query) norm() Query {
	f := *q
	if f.F == nil {
		f.F = []Filter{}
	}
	return f
}

func scanEvent(q *Query, d *v1.Data, err error) obj {
	doc := Doc{R: []Res{}}
	if err == nil {
		doc = project(d)
	}
	return obj{"ev": "scan", "q": q.norm(), "err": errString(err), "res": doc}
}

// filtersOf lists a filter for everything a document carries
func filtersOf(d Doc) (o []Filter) {
	at := func(p int, a []kv) {
		for _, x := range a {
			o = append(o, Filter{P: p, K: x[0], V: x[1]})
		}
	}
	base := func(p int, v string) {
		o = append(o, Filter{Base: true, P: p, V: v})
	}
	for _, r := range d.R {
		base(13, r.Schema)
		at(1, r.A)
		for _, s := range r.S {
			base(2, s.Schema)
			base(3, s.Name)
			base(4, s.Ver)
			at(5, s.A)
			for _, g := range s.G {
				if d.Sig == 1 {
					base(6, g.Name)
				}
				for _, x := range g.Recs {
					at(7, x.A)
					switch d.Sig {
					case 2:
						base(6, x.Name)
						base(8, x.Tid)
						base(9, x.Sid)
						base(10, x.Pid)
					case 3:
						base(11, x.Lvl)
						base(8, x.Tid)
						base(9, x.Sid)
					}
				}
			}
		}
	}
	return
}

var baseProps = []int{13, 2, 3, 4, 6, 8, 9, 10, 11}
var attrProps = []int{1, 5, 7}

// filters of a scan: carried together by a sample, mixed from several, or near misses
func (g *Gen) filters(docs []Doc) (o []Filter) {
	n := []int{0, 1, 1, 1, 2, 2, 3, 4}[g.Intn(8)]
	if n == 0 {
		return
	}
	if g.chance(7) && len(docs) > 0 {
		// much of what a document carries, and what it may not carry
		ls := filtersOf(pick(g.rng, docs))
		g.Shuffle(len(ls), func(i, j int) { ls[i], ls[j] = ls[j], ls[i] })
		for n := 3 + g.Intn(30); n > 0 && len(ls) > 0; n-- {
			if f := ls[n%len(ls)]; f.V != "" {
				o = append(o, f)
			}
		}
		if ls := filtersOf(pick(g.rng, docs)); len(ls) > 0 && g.chance(60) {
			f := pick(g.rng, ls)
			if g.chance(30) {
				g.twist(&f)
			}
			o = append(o, f)
		}
		return
	}
	var from []Filter
	if len(docs) > 0 {
		from = filtersOf(pick(g.rng, docs))
	}
	for ; n > 0; n-- {
		if g.chance(12) && len(docs) > 0 {
			from = filtersOf(pick(g.rng, docs))
		}
		if len(from) > 0 && !g.chance(10) {
			f := pick(g.rng, from)
			if g.chance(10) {
				g.twist(&f)
			}
			o = append(o, f)
			continue
		}
		if g.chance(50) {
			o = append(o, Filter{Base: true, P: pick(g.rng, baseProps), V: pick(g.rng, []string{"x", "sc1", "m1", "INFO", "0102", "absent", "v1", "s1"})})
		} else {
			o = append(o, Filter{P: pick(g.rng, attrProps), K: pick(g.rng, keys), V: pick(g.rng, append(vals, "absent"))})
		}
	}
	return
}

// twist makes a filter that looks like another
func (g *Gen) twist(f *Filter) {
	if v := like(f.V); v != "" {
		f.V = v
		return
	}
	for i, v := range g.fav {
		if v == f.V && g.chance(70) {
			f.V = g.fav[i^1]
			return
		}
		if !f.Base && v == f.K && g.chance(70) {
			f.K = g.fav[i^1]
			return
		}
	}
	switch g.Intn(8) {
	case 5:
		f.V = pick(g.rng, []string{" " + f.V, f.V + " ", f.V + "\x00"})
	case 6:
		f.V = strings.TrimSpace(f.V)
	case 7:
		if u := strings.ToUpper(f.V); u != f.V {
			f.V = u
		} else {
			f.V = strings.ToLower(f.V)
		}
	case 0:
		if f.Base {
			f.P = pick(g.rng, baseProps)
		} else {
			f.P = pick(g.rng, attrProps)
		}
	case 1:
		f.V += "x"
	case 2:
		if len(f.V) > 1 {
			f.V = f.V[:len(f.V)-1]
		}
	case 3:
		if !f.Base {
			f.K, f.V = f.V, f.K
		}
	case 4:
		if !f.Base {
			// move the separator
			f.K, f.V = f.K+"="+f.V, ""
			for i := len(f.K) - 1; i > 0; i-- {
				if f.K[i] == '=' && g.chance(60) {
					f.K, f.V = f.K[:i], f.K[i+1:]
					break
				}
			}
		}
	}
}

// instants close to calendar boundaries, sorted
func (g *Gen) instants(n int) []ts {
	bases := []string{
		"2023-12-31T23:00:00Z", "2024-02-29T00:00:00Z", "2024-02-28T22:00:00Z", "2024-04-03T14:00:00Z",
		"2024-03-31T10:00:00Z", "2023-01-31T00:00:00Z", "2024-12-30T23:00:00Z", "2000-02-28T23:00:00Z", "2021-06-15T12:00:00Z",
	}
	b, err := time.Parse(time.RFC3339, pick(g.rng, bases))
	check(err)
	var o []ts
	for len(o) < n {
		t := b
		switch g.Intn(8) {
		case 0, 1:
		case 2, 3:
			t = t.Add(time.Duration(g.Intn(4)) * time.Hour)
		case 4:
			t = t.AddDate(0, 0, g.Intn(3))
		case 5:
			t = t.AddDate(0, g.Intn(4)-1, 0)
		case 6:
			t = t.AddDate(g.Intn(3)-1, 0, 0)
		case 7:
			t = t.Add(time.Duration(g.Intn(3600*30)) * time.Second)
		}
		switch g.Intn(5) {
		case 0:
			t = t.Add(-1)
		case 1:
			t = t.Add(1)
		case 2:
			t = t.Add(time.Duration(g.Intn(3600)) * time.Second)
		}
		o = append(o, fromTime(t))
	}
	sort.Slice(o, func(i, j int) bool { return o[i].Time().Before(o[j].Time()) })
	return o
}

// window picks a time range over instants
func (g *Gen) window(q *Query, in []ts) {
	q.Range = true
	a, b := pick(g.rng, in).Time(), pick(g.rng, in).Time()
	if b.Before(a) && !g.chance(3) {
		a, b = b, a
	}
	switch g.Intn(10) {
	case 0:
		// everything
		a, b = in[0].Time().AddDate(-2, 0, 0), in[len(in)-1].Time().AddDate(2, 0, 0)
	case 1:
		b = b.Add(1)
	case 2:
		a = a.Add(-1)
	case 3:
		b = a.Add(24*time.Hour + time.Duration(g.Intn(3)-1))
	case 4:
		b = a.Add(30*24*time.Hour + time.Duration(g.Intn(3)-1))
	case 5:
		b = a.Add(360*24*time.Hour + time.Duration(g.Intn(3)-1))
	case 6:
		b = a.Add(time.Duration(1+g.Intn(4)) * time.Hour)
	case 7:
		a, b = a.Add(-time.Duration(g.Intn(90))*time.Minute), b.Add(time.Duration(g.Intn(90))*time.Minute)
	}
	q.Start, q.End = fromTime(a), fromTime(b)
}

func (g *Gen) query(docs []Doc, in []ts, instant bool) *Query {
	q := &Query{Sig: 1 + g.Intn(3), Now: pick(g.rng, in)}
	same := docs[:0:0]
	for _, d := range docs {
		if d.Sig == q.Sig || g.chance(5) {
			same = append(same, d)
		}
	}
	q.F = g.filters(same)
	if g.chance(30) {
		q.Offset = int64(g.Intn(7200) - 1800)
		if g.chance(20) {
			q.Offset = int64(g.Intn(60*86400) - 30*86400)
		}
	}
	if instant {
		n := pick(g.rng, in).Time().Add(time.Duration(g.Intn(3000)) * time.Second)
		if g.chance(30) {
			n = pick(g.rng, in).Time().Add(15 * time.Minute).Add(time.Duration(g.Intn(3) - 1))
		}
		q.Now = fromTime(n.Add(time.Duration(q.Offset) * time.Second))
		return q
	}
	g.window(q, in)
	return q
}
