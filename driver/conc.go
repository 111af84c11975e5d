package main

import (
	"flag"
	"sort"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
)

// conc scenario: a saver and scanners that run freely. What they may see is judged by
// the same specification as the behaviours of hist.
func concMain(args []string) {
	fs := flag.NewFlagSet("conc", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	seed := fs.Int64("seed", 1, "")
	saves := fs.Int("saves", 12, "")
	scanners := fs.Int("scanners", 4, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	e.Emit(obj{"ev": "new", "src": "free"})
	h := newHist(*dir, *seed, nil, e)
	g := newRng(*seed)
	for session := 0; session < 2; session++ {
		if !h.openWorld(true) {
			return
		}
		var wg sync.WaitGroup
		stop := make(chan struct{})
		var mu sync.Mutex
		for k := 0; k < *scanners; k++ {
			wg.Add(1)
			r := newRng(*seed*100 + int64(session*10+k))
			go func() {
				defer wg.Done()
				for n := 0; n < 30; n++ {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(r.Intn(25)) * time.Millisecond):
					}
					mu.Lock()
					h.scanN++
					i := h.scanN
					mu.Unlock()
					// few queries, so that they come again
					q := h.query(r.Intn(6), concQuery(r))
					e.Emit(obj{"ev": "sbegin", "i": i, "q": q.norm()})
					d, err := h.w.scan(q)
					e.Emit(h.sendEvent(i, q, d, err))
				}
			}()
		}
		done := make(chan struct{})
		go func() {
			defer close(done)
			for n := 0; n < *saves; n++ {
				var ls []*v1.Sample
				for k := 1 + g.Intn(4); k > 0; k-- {
					o := modelOp{O: "export", S: 1 + g.Intn(3), B: 1 + g.Intn(3)}
					for _, l := range []string{"A", "B", "C"} {
						if g.chance(45) {
							o.Ls = append(o.Ls, l)
						}
					}
					h.ops = append(h.ops, o)
					at := len(h.ops) - 1
					ls = append(ls, &v1.Sample{Id: h.idAt(at), Data: h.payload(at)})
				}
				var ps []obj
				for _, s := range ls {
					ps = append(ps, obj{"id": s.Id, "d": project(s.Data)})
				}
				e.Emit(obj{"ev": "begin", "samples": ps})
				err := h.w.save(ls)
				e.Emit(obj{"ev": "end", "err": errString(err)})
			}
			close(stop)
			wg.Wait()
		}()
		if !h.await(done, "saves and scans") {
			return
		}
		h.extras(len(h.ops) + session)
		err := guard(h.w.tryClose)
		e.Emit(obj{"ev": "close", "err": errString(err)})
	}
}

func concQuery(r *rng) *modelQuery {
	b := 1 + r.Intn(3)
	m := &modelQuery{B1: b, B2: b + r.Intn(4-b), Inst: r.chance(15)}
	for _, l := range []string{"A", "B", "C"} {
		if r.chance(30) {
			m.Ls = append(m.Ls, l)
		}
	}
	sort.Strings(m.Ls)
	return m
}
