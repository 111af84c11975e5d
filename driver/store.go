package main

import (
	"context"
	"flag"
	"os"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
)

// store scenario: saves, scans, label listings and restarts
type storeOpts struct {
	seed                                          int64
	rounds, batch, scans, instants, labels, crowd int
	restart, limits                               int // percent
	bulk                                          int // percent of saves with many samples
	probes                                        int // scans for one label each, at the end
	leap                                          int // how far ids go ahead, once
	rich, gaps, wide, recent                      bool
	base, labelBase                               uint64
}

func storeMain(args []string) {
	fs := flag.NewFlagSet("store", flag.ExitOnError)
	var o storeOpts
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	fs.Int64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.rounds, "rounds", 5, "saves")
	fs.IntVar(&o.batch, "batch", 5, "samples per save, at most")
	fs.IntVar(&o.scans, "scans", 10, "range scans after each save")
	fs.IntVar(&o.instants, "instants", 3, "instant scans after each save")
	fs.IntVar(&o.labels, "labels", 3, "label listings after each save")
	fs.IntVar(&o.restart, "restart", 20, "")
	fs.IntVar(&o.limits, "limits", 20, "")
	fs.BoolVar(&o.rich, "rich", false, "")
	fs.BoolVar(&o.gaps, "gaps", false, "")
	fs.BoolVar(&o.wide, "wide", false, "texts that are hard to carry, lots of attributes")
	fs.BoolVar(&o.recent, "recent", false, "samples of today, scans evaluated now")
	fs.IntVar(&o.bulk, "bulk", 0, "")
	fs.IntVar(&o.crowd, "crowd", 0, "samples in a save, all of an hour or two, or of many")
	fs.IntVar(&o.probes, "probes", 0, "")
	fs.IntVar(&o.leap, "leap", 0, "")
	fs.Uint64Var(&o.base, "base", 0, "first sample id")
	fs.Uint64Var(&o.labelBase, "labelbase", 0, "first label number")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	d := *dir + "/r"
	randomStore(d, o, e)
	check(os.RemoveAll(d))
}

func randomStore(dir string, o storeOpts, e *Emitter) {
	g := &Gen{rng: newRng(o.seed), rich: o.rich, wide: o.wide, many: o.wide}
	in := g.instants(8)
	if o.recent {
		in = nil
		for _, h := range []float64{-1000, -25, -3.1, -1.2, -0.4, -0.1, 0.3, 30} {
			in = append(in, fromTime(time.Now().Add(time.Duration(h*float64(time.Hour)))))
		}
	}
	g.times = in
	if o.wide {
		g.favour()
	}
	if o.crowd > 0 {
		g.times = in[:1+g.Intn(2)]
		if g.chance(50) {
			// or each in one of many hours
			for len(in) < 80 {
				in = append(in, fromTime(in[0].Time().Add(time.Duration(len(in)*g.Intn(20))*time.Hour)))
			}
			g.times = in
		}
	}
	leap, main := g.Intn(o.rounds), 1+g.Intn(3)
	w := &World{dir: dir}
	err := guard(w.tryOpen)
	if err == nil && o.labelBase > 0 {
		err = guard(func() error { return w.skipLabels(o.labelBase) })
	}
	e.Emit(obj{"ev": "open", "src": "random", "err": errString(err)})
	if err != nil {
		return
	}
	var docs []Doc
	var ids []uint64
	id := o.base
	late := 0
	if o.labelBase > 0 {
		// nothing of this signal is known until some process begins with it
		late = 1 + g.Intn(3)
	}
	if o.gaps && o.base == 0 && g.chance(50) {
		id = uint64(g.Intn(50))
	}
	for r := 0; r < o.rounds; r++ {
		var ls []*v1.Sample
		n, sig, bulk := 1+g.Intn(o.batch), 0, g.chance(o.bulk)
		if bulk {
			// many samples, most of one signal and alike
			n, sig = 8+g.Intn(25), main
		}
		if o.crowd > 0 && r == o.rounds/2 {
			n, sig, bulk = o.crowd, main, true
		}
		g.small, g.plain = bulk, g.chance(30)
		if o.leap > 0 && r == leap {
			// an earlier process took the ids in between with it
			id += uint64(o.leap/2 + g.Intn(o.leap/2+1))
		}
		for ; n > 0; n-- {
			s := sig
			if s == 0 || g.chance(15) {
				s = 1 + g.Intn(3)
			}
			if s == late {
				s = 1 + s%3
			}
			ls = append(ls, &v1.Sample{Id: id, Data: g.Data(s)})
			ids = append(ids, id)
			id++
			if o.gaps && g.chance(25) {
				id += uint64(g.Intn(300))
			}
		}
		docs = append(docs, saveAndEmit(w, ls, e)...)
		if g.chance(o.restart) {
			// answers must be the same on both sides of a restart
			var qs []*Query
			for i := 0; i < o.scans; i++ {
				qs = append(qs, o.query(g, docs, in, g.chance(20)))
			}
			run := func() {
				for _, q := range qs {
					d, err := w.scan(q)
					e.Emit(scanEvent(q, d, err))
				}
			}
			if g.chance(70) {
				run()
			}
			err := guard(func() error {
				if err := w.tryClose(); err != nil {
					return err
				}
				return w.tryOpen()
			})
			e.Emit(obj{"ev": "restart", "err": errString(err)})
			if err != nil {
				return
			}
			if g.chance(40) {
				// what the new process does first is to save
				if o.labelBase > 0 {
					// labels of its own are in a shard of their own
					o.labelBase = (o.labelBase>>20+1)<<20 + 1
					check(w.skipLabels(o.labelBase))
				}
				if o.labelBase > 0 && late != 0 {
					sig, late = late, 0
				} else {
					sig = 1 + g.Intn(3)
				}
				g.small, g.plain = true, true
				docs = append(docs, saveAndEmit(w, []*v1.Sample{{Id: id, Data: g.Data(sig)}}, e)...)
				ids = append(ids, id)
				id++
			}
			run()
		} else {
			for i := 0; i < o.scans; i++ {
				q := o.query(g, docs, in, false)
				d, err := w.scan(q)
				e.Emit(scanEvent(q, d, err))
			}
		}
		for i := 0; i < o.instants; i++ {
			q := o.query(g, docs, in, true)
			d, err := w.scan(q)
			e.Emit(scanEvent(q, d, err))
		}
		for i := 0; i < o.labels; i++ {
			x := pick(g.rng, ids)
			if g.chance(5) {
				x += 1
			}
			t := pick(g.rng, in)
			if g.chance(60) {
				// a bucket the sample is in
				t = minTs(docs[indexOf(ids, x)])
			}
			emitLabels(w, x, viewOf(t, g.Intn(4)), e)
		}
	}
	for _, q := range g.probes(docs, o.probes) {
		d, err := w.scan(q)
		e.Emit(scanEvent(q, d, err))
	}
	err = guard(w.tryClose)
	if err != nil {
		e.Emit(obj{"ev": "restart", "err": errString(err)})
	}
}

// probes are scans for one label each, most for labels that few samples carry, some
// for labels that only look like one
func (g *Gen) probes(docs []Doc, n int) (o []*Query) {
	type label struct {
		sig int
		f   Filter
	}
	by := map[label][]int{}
	var all []label
	for i, d := range docs {
		seen := map[label]bool{}
		for _, f := range filtersOf(d) {
			l := label{d.Sig, f}
			if !f.Base && f.V == "" || seen[l] {
				continue
			}
			seen[l] = true
			if by[l] == nil {
				all = append(all, l)
			}
			by[l] = append(by[l], i)
		}
	}
	g.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, rare := range []bool{true, false} {
		for _, l := range all {
			if len(o) >= n || rare && len(o) >= n*2/3 {
				break
			}
			if (len(by[l]) == 1) != rare {
				continue
			}
			q := &Query{Sig: l.sig, F: []Filter{l.f}, Range: true}
			if g.chance(25) {
				g.twist(&q.F[0])
			}
			t := minTs(docs[pick(g.rng, by[l])]).Time()
			a, b := t.AddDate(-3, 0, 0), t.AddDate(3, 0, 0)
			switch g.Intn(5) {
			case 0:
				a, b = t, t.Add(1)
			case 1:
				a, b = t.Add(-time.Duration(g.Intn(3000))*time.Second), t.Add(time.Duration(1+g.Intn(3000))*time.Second)
			case 2:
				a, b = t, t.AddDate(0, 0, 1+g.Intn(40))
			}
			if a.Unix() < 0 {
				// nothing is known of the sample's time
				a = time.Unix(0, 0)
			}
			q.Start, q.End = fromTime(a), fromTime(b)
			q.Now = q.End
			o = append(o, q)
		}
	}
	return
}

func (o *storeOpts) query(g *Gen, docs []Doc, in []ts, instant bool) *Query {
	q := g.query(docs, in, instant)
	if o.recent && !q.Range && g.chance(50) {
		q.Clock, q.Offset = true, 0
		if g.chance(60) {
			// a moment some sample is of, or up to 15 minutes later
			t := pick(g.rng, in).Time().Add(time.Duration(g.Intn(900)) * time.Second)
			q.Offset = int64(time.Since(t) / time.Second)
		}
	}
	if o.bulk > 0 && g.chance(40) {
		q.F = q.F[:min(len(q.F), g.Intn(2))]
	}
	if g.chance(o.limits) {
		q.Limit = g.Intn(6)
		if g.chance(30) {
			q.Limit = pick(g.rng, []int{0, g.Intn(len(docs) + 2)})
		}
		q.Reverse = g.chance(60)
		if g.chance(40) {
			q.F = nil
			if q.Range && g.chance(40) {
				// as much as there is
				q.Start, q.End = fromTime(in[0].Time().AddDate(-2, 0, 0)), fromTime(in[len(in)-1].Time().AddDate(2, 0, 0))
			}
		}
	}
	return q
}

func saveAndEmit(w *World, ls []*v1.Sample, e *Emitter) (docs []Doc) {
	var ps []obj
	for _, s := range ls {
		d := project(s.Data)
		docs = append(docs, d)
		ps = append(ps, obj{"id": s.Id, "d": d})
	}
	err := w.save(ls)
	e.Emit(obj{"ev": "save", "samples": ps, "err": errString(err)})
	return
}

func emitLabels(w *World, id uint64, view string, e *Emitter) {
	var ls []string
	err := guard(func() (err error) {
		ls, err = w.st.Labels(view, id)
		return
	})
	if ls == nil {
		ls = []string{}
	}
	e.Emit(obj{"ev": "labels", "id": id, "view": view, "err": errString(err), "out": ls})
}

func indexOf(ids []uint64, x uint64) int {
	for i := range ids {
		if ids[i] == x {
			return i
		}
	}
	return 0
}

// minTs is only used to aim at interesting buckets
func minTs(d Doc) (o ts) {
	found := false
	for _, r := range d.R {
		for _, s := range r.S {
			for _, g := range s.G {
				for _, x := range g.Recs {
					if len(x.T) == 2 && (!found || x.T[0] < o[0] || x.T[0] == o[0] && x.T[1] < o[1]) {
						o, found = ts{x.T[0], x.T[1]}, true
					}
				}
			}
		}
	}
	if !found {
		return ts{-epoch, 0}
	}
	return
}

func viewOf(t ts, unit int) string {
	return "std_" + t.Time().Format([]string{"2006", "200601", "20060102", "2006010215"}[unit])
}

var _ = context.Background
