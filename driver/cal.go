package main

import (
	"flag"
	"math/rand"
	"time"

	"github.com/gernest/rbf/quantum"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/batch"
	"github.com/gernest/requiemdb/internal/view"
	"github.com/gernest/requiemdb/internal/x"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"
)

// cal scenario: times and ranges around calendar boundaries

const (
	calFirst = 0          // 1970
	calLast  = 2051222400 // 2035
)

// instant returns a time near a calendar boundary more often than not
func instant(r *rng) time.Time {
	t := time.Unix(calFirst+r.Int63n(calLast-calFirst), 0).UTC()
	y, m, d := t.Date()
	switch r.Intn(6) {
	case 0:
		t = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
	case 1:
		t = time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
	case 2:
		t = time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
	case 3:
		t = t.Truncate(time.Hour)
	case 4:
		t = time.Date(y, 2, 28+r.Intn(3), r.Intn(24), 0, 0, 0, time.UTC)
	}
	switch r.Intn(6) {
	case 0:
		t = t.Add(-1)
	case 1:
		t = t.Add(1)
	case 2:
		t = t.Add(time.Duration(r.Int63n(int64(time.Hour))))
	case 3:
		t = t.Add(-time.Duration(r.Int63n(int64(24 * time.Hour))))
	}
	return t
}

type typeQuantum = quantum.TimeQuantum

func span(r *rng) time.Duration {
	day := 24 * time.Hour
	d := pick(r, []time.Duration{0, 1, time.Second, time.Minute, 15 * time.Minute, time.Hour, 12 * time.Hour, day, 2 * day, 7 * day, 28 * day, 29 * day, 30 * day,
		31 * day, 60 * day, 90 * day, 359 * day, 360 * day, 365 * day, 366 * day, 1000 * day, 3700 * day})
	switch r.Intn(5) {
	case 0:
		d--
	case 1:
		d++
	case 2:
		d = time.Duration(float64(d) * (0.5 + r.Float64()))
	case 3:
		if r.chance(30) {
			d = -d
		}
	}
	return d
}

// zones a caller may express a range in
func zoned(r *rng, t time.Time) time.Time {
	if r.chance(70) {
		return t
	}
	return t.In(time.FixedZone("z", pick(r, []int{-12 * 3600, -5*3600 - 1800, 3600, 19800, 20700, 14 * 3600})))
}

func calMain(args []string) {
	fs := flag.NewFlagSet("cal", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	n := fs.Int("n", 1000, "")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	r := &rng{rand.New(rand.NewSource(*seed))}
	names := func(ls []string) []string {
		if ls == nil {
			return []string{}
		}
		return ls
	}
	for i := 0; i < *n; i++ {
		t := instant(r)
		switch k := r.Intn(10); {
		case k < 5:
			u := t.Add(span(r))
			if r.chance(30) {
				u = instant(r)
			}
			if u.Unix() < calFirst || u.Unix() > calLast {
				continue
			}
			var ls []string
			err := guard(func() error { ls = view.Search(zoned(r, t), zoned(r, u)); return nil })
			e.Emit(obj{"ev": "search", "s": fromTime(t), "e": fromTime(u), "out": names(ls), "err": errString(err)})
		case k == 5:
			var ls []string
			err := guard(func() error { ls = view.Std(t); return nil })
			e.Emit(obj{"ev": "std", "t": fromTime(t), "out": names(ls), "err": errString(err)})
		case k == 6 || k == 7:
			// objects of the pool are used again and again, and copied
			q := batch.NeqQuantumTime()
			q.Set(t)
			c := q
			if r.chance(30) {
				c = q.Clone()
				q.Set(instant(r))
			}
			var ls []string
			var err error
			err = guard(func() (err error) { ls, err = c.Views(batch.Quantum); return })
			e.Emit(obj{"ev": "quant", "t": fromTime(t), "out": names(ls), "err": errString(err)})
			u := pick(r, []string{"Y", "M", "D", "H"})
			err = guard(func() (err error) {
				ls, err = c.Views(map[string]typeQuantum{"Y": view.QY, "M": view.QM, "D": view.QD, "H": view.QH}[u])
				return
			})
			e.Emit(obj{"ev": "partial", "t": fromTime(t), "u": u, "out": names(ls), "err": errString(err)})
			var h time.Time
			err = guard(func() (err error) { h, err = c.Time(); return })
			e.Emit(obj{"ev": "again", "t": fromTime(t), "out": fromTime(h), "err": errString(err)})
			if c != q {
				c.Release()
			}
			q.Release()
		case k == 8:
			d := span(r)
			if d < 0 {
				d = -d
			}
			e.Emit(obj{"ev": "choose", "d": []int64{int64(d / time.Second), int64(d % time.Second)}, "out": string(view.ChooseQuantum(d))})
		default:
			scan := &v1.Scan{}
			ev := obj{"ev": "bounds", "clock": fromTime(t), "now": []int64{}, "off": []int64{}, "range": []ts{}}
			if r.chance(50) {
				n := instant(r)
				scan.Now = timestamppb.New(n)
				ev["now"] = fromTime(n)
			}
			if r.chance(50) {
				d := span(r)
				if d < 0 {
					d = -d
				}
				scan.Offset = durationpb.New(d)
				ev["off"] = []int64{int64(d / time.Second), int64(d % time.Second)}
			}
			if r.chance(40) {
				a, b := instant(r), instant(r)
				scan.TimeRange = &v1.Scan_TimeRange{Start: timestamppb.New(a), End: timestamppb.New(b)}
				ev["range"] = []ts{fromTime(a), fromTime(b)}
			}
			var a, b time.Time
			err := guard(func() error { a, b = x.TimeBounds(func() time.Time { return t }, scan); return nil })
			ev["out"], ev["err"] = []ts{fromTime(a), fromTime(b)}, errString(err)
			e.Emit(ev)
		}
	}
}
