package main

import (
	"context"
	"encoding/json"
	"errors"
	"flag"
	"os"
	"path/filepath"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/service"
	"github.com/gernest/requiemdb/internal/shards"
	"github.com/gernest/requiemdb/internal/translate"
	collector_logs "go.opentelemetry.io/proto/otlp/collector/logs/v1"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
)

// svc scenario: repeats behaviours of Service.tla with real services. Periodic saves
// are waited for, saves are held at their commits while other things happen.

type svcOp struct {
	O   string `json:"o"`
	X   int    `json:"x"`
	Sig int    `json:"sig"`
	Par bool   `json:"par"`
	N   int    `json:"n"`
	S   string `json:"s"`
}

type svcRun struct {
	w       *World
	svc     *service.Service
	e       *Emitter
	cancel  context.CancelFunc
	started time.Time
	base    ts
	seed    int64
	next    int
	exports sync.WaitGroup
	closed  chan struct{}
	err     error
}

func svcMain(args []string) {
	fs := flag.NewFlagSet("svc", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]svcOp
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	defer e.Close()
	installGates()
	for i, h := range hs {
		e.Emit(obj{"ev": "new", "src": "model", "i": i})
		g := &Gen{rng: newRng(*seed + int64(i))}
		r := &svcRun{w: &World{dir: filepath.Join(*dir, "s"+itoa(i))}, e: e, seed: *seed + int64(i)*1000, base: pick(g.rng, g.instants(1))}
		if !r.run(h) {
			return
		}
		check(os.RemoveAll(r.w.dir))
	}
}

func (r *svcRun) open() bool {
	err := guard(func() (err error) {
		w := r.w
		if err = os.MkdirAll(w.dir, 0755); err != nil {
			return
		}
		if w.db, err = openDB(w.dir); err != nil {
			return
		}
		if w.tr, err = translate.New(w.db, []byte(itoa(int(v1.RESOURCE_TRANSLATE_ID)))); err != nil {
			return
		}
		w.rdb = shards.New(filepath.Join(w.dir, "index"), nil)
		if w.seq, err = seq.New(w.db); err != nil {
			return
		}
		ctx, cancel := context.WithCancel(context.Background())
		r.cancel = cancel
		r.svc, err = service.NewService(ctx, w.db, w.tr, w.seq, w.rdb, func() time.Time { return time.Now().UTC() }, "", 0)
		if err == nil {
			r.started = time.Now()
			go r.svc.Start(ctx)
		}
		return
	})
	r.e.Emit(obj{"ev": "open", "err": errString(err)})
	return err == nil
}

// all is a scan of everything
func (r *svcRun) scan(sig int, q *Query) (us []int, err error) {
	var d *v1.Data
	err = guard(func() error {
		d, err = r.svc.ScanSamples(context.Background(), q.proto())
		return err
	})
	us = []int{}
	if err == nil {
		doc := project(d)
		us = append(us, doc.uids()...)
		if doc.Sig != 0 && doc.Sig != sig {
			us = append(us, -1)
		}
	}
	return
}

func (d Doc) uids() (o []int) {
	for _, r := range d.R {
		for _, s := range r.S {
			for _, g := range s.G {
				for _, x := range g.Recs {
					o = append(o, x.U)
				}
			}
		}
	}
	return
}

func (r *svcRun) everything(sig int, quiet bool) {
	b := r.base.Time()
	q := &Query{Sig: sig, Range: true, Start: fromTime(b.AddDate(-3, 0, 0)), End: fromTime(b.AddDate(3, 0, 0)), Now: r.base}
	us, err := r.scan(sig, q)
	r.e.Emit(obj{"ev": "scan", "sig": sig, "us": us, "err": errString(err), "quiet": quiet})
}

func (r *svcRun) newest(sig int) {
	us, err := r.scan(sig, &Query{Sig: sig, Now: fromTime(r.base.Time().Add(5 * time.Minute))})
	r.e.Emit(obj{"ev": "newest", "sig": sig, "us": us, "err": errString(err)})
}

// twin exports the same twice
func (r *svcRun) twin(o svcOp) {
	g := &Gen{rng: newRng(r.seed*7919 + int64(r.next)), uid: (r.next + 1) * 1000, small: true}
	d := g.labelled(o.Sig, nil, nil, r.base)
	for i := 0; i < 2; i++ {
		r.next++
		r.send(r.next, o, d, i == 1)
	}
}

func (r *svcRun) export(o svcOp) {
	r.next++
	x := r.next
	g := &Gen{rng: newRng(r.seed*7919 + int64(x)), uid: x * 1000, small: true, rich: x%5 == 0}
	if o.O == "burst" {
		// tiny
		g.rich = false
		g.plain = o.N > 1000
	}
	r.send(x, o, g.labelled(o.Sig, nil, nil, r.base), false)
}

func (r *svcRun) send(x int, o svcOp, d *v1.Data, again bool) {
	r.e.Emit(obj{"ev": "call", "x": x, "sig": o.Sig, "us": project(d).uids(), "again": again})
	done := make(chan struct{})
	r.exports.Add(1)
	go func() {
		defer r.exports.Done()
		defer close(done)
		err := guard(func() (err error) {
			ctx := context.Background()
			switch o.Sig {
			case 1:
				_, err = r.svc.Metrics().Export(ctx, &collector_metrics.ExportMetricsServiceRequest{ResourceMetrics: d.GetMetrics().ResourceMetrics})
			case 2:
				_, err = r.svc.Trace().Export(ctx, &collector_trace.ExportTraceServiceRequest{ResourceSpans: d.GetTraces().ResourceSpans})
			default:
				_, err = r.svc.Logs().Export(ctx, &collector_logs.ExportLogsServiceRequest{ResourceLogs: d.GetLogs().ResourceLogs})
			}
			return
		})
		r.e.Emit(obj{"ev": "ack", "x": x, "err": errString(err)})
	}()
	if o.Par {
		return
	}
	t := 60 * time.Second
	if commits.isOn() {
		t = 300 * time.Millisecond
	}
	select {
	case <-done:
	case <-time.After(t):
	}
}

func (r *svcRun) await(c chan struct{}, what string) bool {
	select {
	case <-c:
		return true
	case <-time.After(90 * time.Second):
		r.e.Emit(obj{"ev": "hung", "what": what})
		return false
	}
}

func (r *svcRun) exporters() chan struct{} {
	c := make(chan struct{})
	go func() { r.exports.Wait(); close(c) }()
	return c
}

func (r *svcRun) close(hold bool) {
	r.e.Emit(obj{"ev": "closing"})
	if hold {
		commits.enable()
	}
	r.closed = make(chan struct{})
	done := r.closed
	go func() {
		r.err = guard(func() error { r.svc.Close(); return nil })
		close(done)
	}()
	if commits.isOn() {
		commits.settle(done)
	}
}

// down waits for the service and closes what is below it
func (r *svcRun) down() bool {
	if r.closed == nil {
		r.close(false)
	}
	ex := r.exporters()
	if commits.isOn() {
		// the close waits for a save that is held. If it does not, that save stays
		// held until everything is closed.
		select {
		case <-r.closed:
			select {
			case <-ex:
			case <-time.After(2 * time.Second):
				commits.open()
			}
		case <-time.After(700 * time.Millisecond):
			commits.open()
		}
	}
	if !r.await(r.closed, "close") || !r.await(ex, "export") {
		return false
	}
	r.closed = nil
	commits.bypass()
	r.cancel()
	w := r.w
	c := make(chan struct{})
	var err error
	go func() {
		err = guard(func() error { return errors.Join(w.seq.Release(), w.rdb.Close(), w.tr.Close(), w.db.Close()) })
		close(c)
	}()
	held := true
	select {
	case <-c:
	case <-time.After(5 * time.Second):
		// the databases wait for a transaction
		commits.release()
		held = false
	}
	if !r.await(c, "close of the databases") {
		return false
	}
	if held && commits.release() {
		time.Sleep(300 * time.Millisecond)
	}
	r.e.Emit(obj{"ev": "down", "err": errString(errors.Join(r.err, err))})
	return r.err == nil && err == nil
}

func (r *svcRun) run(ops []svcOp) bool {
	if !r.open() {
		return false
	}
	up := true
	g := newRng(r.seed)
	for _, o := range ops {
		switch o.O {
		case "export":
			for i := 0; i < o.N; i++ {
				r.export(o)
			}
		case "twin":
			r.twin(o)
		case "burst":
			for i := 0; i < o.N; i++ {
				r.export(svcOp{O: "burst", Sig: 1 + (i+o.Sig)%3, Par: true, N: o.N})
			}
			if !commits.isOn() && !r.await(r.exporters(), "export") {
				return false
			}
		case "tick":
			commits.open()
			commits.enable()
			since := time.Since(r.started)
			wait := since.Truncate(time.Minute) + time.Minute - since
			if wait > time.Second && r.seed%2 == 0 {
				// exports that wait for their numbers when the save begins
				time.Sleep(wait - 100*time.Millisecond)
				slowNumbers.Store(3)
				for i := 0; i < 3; i++ {
					r.export(svcOp{O: "export", Sig: 1 + g.Intn(3), Par: true})
				}
				wait = 100 * time.Millisecond
			}
			time.Sleep(wait)
			select {
			case <-commits.arrived:
			case <-time.After(1500 * time.Millisecond):
			}
		case "commit":
			if commits.isOn() {
				commits.permit <- struct{}{}
				commits.settle(nil)
			}
		case "cancel":
			r.cancel()
		case "scan":
			r.everything(1+g.Intn(3), false)
		case "close":
			r.close(true)
		case "down":
			if !r.down() {
				return false
			}
			up = false
		case "reopen":
			if !r.reopen() {
				return false
			}
			up = true
		}
	}
	if up && !r.down() {
		return false
	}
	return r.reopen() && r.down()
}

func (r *svcRun) reopen() bool {
	if !r.open() {
		return false
	}
	for s := 1; s <= 3; s++ {
		r.everything(s, true)
		r.newest(s)
	}
	return true
}
