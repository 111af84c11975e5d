package main

import (
	"encoding/json"
	"errors"
	"flag"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"syscall"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	cv1 "go.opentelemetry.io/proto/otlp/common/v1"
	lv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	mv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	rv1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tv1 "go.opentelemetry.io/proto/otlp/trace/v1"
)

// hist scenario: repeats behaviours of RequiemDB.tla with the real storage, commit by
// commit. Each life of the process is a process, crashes are kills.

type modelQuery struct {
	Ls   []string `json:"ls"`
	B1   int      `json:"b1"`
	B2   int      `json:"b2"`
	Inst bool     `json:"inst"`
}

type modelOp struct {
	O  string      `json:"o"`
	Ls []string    `json:"ls,omitempty"`
	B  int         `json:"b,omitempty"`
	S  int         `json:"s,omitempty"`
	Q  *modelQuery `json:"q,omitempty"`
}

func histMain(args []string) {
	fs := flag.NewFlagSet("hist", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	child := fs.Int("child", -1, "")
	from := fs.Int("from", 0, "")
	plain := fs.Bool("plain", false, "only quiet scans")
	sweep := fs.Bool("sweep", false, "die at each commit in turn of the save that the first crash interrupts")
	crashAt := fs.Int("crashat", -1, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]modelOp
	check(json.Unmarshal(b, &hs))
	if *child >= 0 {
		e := appendEmitter(*out)
		h := newHist(*dir, *seed+int64(*child)*1000, hs[*child], e)
		h.plain = *plain
		h.sweep = *sweep
		h.crashAt = *crashAt
		h.run(*from)
		e.Close()
		return
	}
	check(os.WriteFile(*out, nil, 0644))
	for i, h := range hs {
		for at := 0; ; at++ {
			e := appendEmitter(*out)
			e.Emit(obj{"ev": "new", "src": "model", "i": i})
			e.Close()
			d := *dir + "/h" + itoa(i)
			args := []string{"hist", "-out", *out, "-dir", d, "-ops", *ops, "-seed", strconv.FormatInt(*seed, 10), "-child", itoa(i),
				"-plain=" + strconv.FormatBool(*plain), "-sweep=" + strconv.FormatBool(*sweep), "-crashat", itoa(at)}
			more := lives(args, h, *out)
			_, err := os.Stat(d + "/over")
			check(os.RemoveAll(d))
			if !*sweep || !more || err == nil {
				break
			}
		}
	}
}

// lives runs a history, in a new process after each crash, and tells if it ran to its end
func lives(args []string, h []modelOp, out string) bool {
	for at := 0; at < len(h); {
		cmd := exec.Command(os.Args[0], append(append([]string{}, args...), "-from", itoa(at))...)
		err := runChild(cmd, out)
		if err == nil {
			break
		}
		if !wasKilled(err) {
			return false // recorded
		}
		// the child recorded the crash and how far it came
		for at < len(h) && h[at].O != "crash" {
			at++
		}
		at++
		for at < len(h) && h[at].O != "open" {
			at++
		}
	}
	return true
}

// runChild runs a life of the process. When it ends other than by exiting or by
// killing itself, the death is recorded.
func runChild(cmd *exec.Cmd, out string) error {
	f, err := os.CreateTemp("", "verif-child-")
	check(err)
	defer os.Remove(f.Name())
	defer f.Close()
	cmd.Stderr = f
	check(cmd.Start())
	t := time.AfterFunc(5*time.Minute, func() { cmd.Process.Signal(syscall.SIGQUIT) })
	err = cmd.Wait()
	t.Stop()
	if err == nil || wasKilled(err) {
		return err
	}
	var x *exec.ExitError
	msg, _ := os.ReadFile(f.Name())
	if errors.As(err, &x) && x.ExitCode() == 3 {
		os.Stderr.Write(msg)
		os.Exit(3)
	}
	e := appendEmitter(out)
	e.Emit(obj{"ev": "died", "err": clip(string(msg), 600)})
	e.Close()
	return err
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func wasKilled(err error) bool {
	var x *exec.ExitError
	return errors.As(err, &x) && x.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL
}

type hist struct {
	w     *World
	e     *Emitter
	ops   []modelOp
	seed  int64
	slots []ts
	lab   map[string]Filter
	sigs  [4]int
	plain bool

	sweep   bool
	crashAt int // commits of the interrupted save that are made

	buf   []*v1.Sample
	saved []*v1.Sample

	saving  chan struct{}
	saveErr error

	scanning chan struct{}
	scanN    int
	scanQ    *Query
	scanRes  *v1.Data
	scanErr  error
}

var labelPool = []Filter{
	{P: 1, K: "a", V: "x"}, {P: 1, K: "b", V: "x"}, {P: 5, K: "a", V: "x"}, {P: 7, K: "a", V: "x"}, {P: 7, K: "a", V: "y"},
	{P: 7, K: "a=b", V: "x"}, {P: 7, K: "a", V: "b=x"}, {P: 1, K: "a=b", V: "y"}, {P: 5, K: `a\`, V: "=x"},
	{Base: true, P: 13, V: "s1"}, {Base: true, P: 2, V: "s1"}, {Base: true, P: 3, V: "x"}, {Base: true, P: 4, V: "x"},
	{Base: true, P: 3, V: "sc1"}, {Base: true, P: 6, V: "m1"}, {Base: true, P: 8, V: "0102"}, {Base: true, P: 9, V: "0102"},
}

func newHist(dir string, seed int64, ops []modelOp, e *Emitter) *hist {
	h := &hist{w: &World{dir: dir}, e: e, ops: ops, seed: seed, lab: map[string]Filter{}}
	g := &Gen{rng: newRng(seed)}
	base := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	unit := g.Intn(4)
	for i := 0; i < 3; i++ {
		n := i
		if g.chance(20) {
			n = i * 2
		}
		t := base
		switch unit {
		case 0:
			t = base.AddDate(n, 0, 0)
		case 1:
			t = base.AddDate(0, n, 0)
		case 2:
			t = base.AddDate(0, 0, n+58)
		case 3:
			t = base.Add(time.Duration(n) * time.Hour)
		}
		if g.chance(50) {
			t = t.Add(time.Duration(g.Intn(3000)) * time.Second)
		}
		h.slots = append(h.slots, fromTime(t))
	}
	a, b := 1+g.Intn(3), 1+g.Intn(3)
	h.sigs = [4]int{0, a, a, b}
	for _, l := range []string{"A", "B", "C"} {
		for {
			f := pick(g.rng, labelPool)
			used := false
			for _, o := range h.lab {
				used = used || o == f
			}
			ok := true
			for _, s := range []int{a, b} {
				switch f.P {
				case 6:
					ok = ok && s != 3 && f.Base
				case 8, 9:
					ok = ok && s != 1
				}
			}
			if ok && !used {
				h.lab[l] = f
				break
			}
		}
	}
	return h
}

// payload of the export at position at
func (h *hist) payload(at int) *v1.Data {
	o := h.ops[at]
	g := &Gen{rng: newRng(h.seed*7919 + int64(at)), uid: at * 100, small: true, rich: at%3 == 0}
	return g.labelled(h.sigs[o.S], o.Ls, h.lab, h.slots[o.B-1])
}

// labelled makes a payload that carries the labels and has t as earliest timestamp
func (g *Gen) labelled(sig int, ls []string, lab map[string]Filter, t ts) *v1.Data {
	later := fromTime(t.Time().Add(time.Duration(g.Intn(200)) * time.Second))
	g.times = []ts{t, later}
	type part struct {
		res  *rv1.Resource
		rsch string
		sc   *cv1.InstrumentationScope
		ssch string
		name string
		a    []*cv1.KeyValue
		tid  []byte
		sid  []byte
	}
	var parts []*part
	fresh := func() *part {
		p := &part{name: "n" + itoa(g.uid%7)}
		if g.chance(60) {
			p.res = &rv1.Resource{Attributes: []*cv1.KeyValue{str("noise", itoa(g.uid%5))}}
		}
		if g.chance(60) {
			p.sc = &cv1.InstrumentationScope{Name: "noise" + itoa(g.uid%5)}
		}
		parts = append(parts, p)
		return p
	}
	fresh()
	for _, l := range ls {
		f := lab[l]
		p := pick(g.rng, parts)
		if g.chance(40) || (f.Base && len(parts) == 1) {
			p = fresh()
		}
		if p.sc == nil {
			p.sc = &cv1.InstrumentationScope{Name: "noise"}
		}
		if p.res == nil {
			p.res = &rv1.Resource{}
		}
		clash := func(s string) {
			if s != "" {
				p = fresh()
				p.sc, p.res = &cv1.InstrumentationScope{Name: "noise"}, &rv1.Resource{}
			}
		}
		switch {
		case !f.Base && f.P == 1:
			p.res.Attributes = append(p.res.Attributes, str(f.K, f.V))
		case !f.Base && f.P == 5:
			p.sc.Attributes = append(p.sc.Attributes, str(f.K, f.V))
		case !f.Base:
			p.a = append(p.a, str(f.K, f.V))
		case f.P == 13:
			clash(p.rsch)
			p.rsch = f.V
		case f.P == 2:
			clash(p.ssch)
			p.ssch = f.V
		case f.P == 3:
			fresh()
			p = parts[len(parts)-1]
			p.sc = &cv1.InstrumentationScope{Name: f.V}
		case f.P == 4:
			clash(p.sc.Version)
			p.sc.Version = f.V
		case f.P == 6:
			p = fresh()
			p.name = f.V
		case f.P == 8:
			p.tid = []byte{1, 2}
		case f.P == 9:
			p.sid = []byte{1, 2}
		}
	}
	for i, p := range parts {
		// no resource twice in a sample
		if i > 0 && p.res == nil {
			p.res = &rv1.Resource{}
		}
		if p.res != nil {
			p.res.Attributes = append(p.res.Attributes, num("part", int64(i)))
		}
	}
	first := true
	when := func() uint64 {
		if first {
			first = false
			return t.Nano()
		}
		return pick(g.rng, g.times).Nano()
	}
	ra := func(p *part) []*cv1.KeyValue {
		return append(append([]*cv1.KeyValue{}, p.a...), g.recAttrs()...)
	}
	switch sig {
	case 1:
		d := &mv1.MetricsData{}
		for _, p := range parts {
			m := &mv1.Metric{Name: p.name}
			n := &mv1.NumberDataPoint{Attributes: ra(p), TimeUnixNano: when(), Value: &mv1.NumberDataPoint_AsInt{AsInt: int64(g.Intn(9))}}
			if g.chance(50) {
				m.Data = &mv1.Metric_Gauge{Gauge: &mv1.Gauge{DataPoints: []*mv1.NumberDataPoint{n}}}
			} else {
				m.Data = &mv1.Metric_Sum{Sum: &mv1.Sum{DataPoints: []*mv1.NumberDataPoint{n}}}
			}
			d.ResourceMetrics = append(d.ResourceMetrics, &mv1.ResourceMetrics{Resource: p.res, SchemaUrl: p.rsch,
				ScopeMetrics: []*mv1.ScopeMetrics{{Scope: p.sc, SchemaUrl: p.ssch, Metrics: []*mv1.Metric{m}}}})
		}
		return (&v1.Data{Data: &v1.Data_Metrics{Metrics: d}})
	case 2:
		d := &tv1.TracesData{}
		for _, p := range parts {
			s := &tv1.Span{Name: p.name, Attributes: ra(p), StartTimeUnixNano: when(), TraceId: p.tid, SpanId: p.sid}
			d.ResourceSpans = append(d.ResourceSpans, &tv1.ResourceSpans{Resource: p.res, SchemaUrl: p.rsch,
				ScopeSpans: []*tv1.ScopeSpans{{Scope: p.sc, SchemaUrl: p.ssch, Spans: []*tv1.Span{s}}}})
		}
		return (&v1.Data{Data: &v1.Data_Traces{Traces: d}})
	default:
		d := &lv1.LogsData{}
		for _, p := range parts {
			s := &lv1.LogRecord{SeverityText: p.name, Attributes: ra(p), TimeUnixNano: when(), TraceId: p.tid, SpanId: p.sid}
			d.ResourceLogs = append(d.ResourceLogs, &lv1.ResourceLogs{Resource: p.res, SchemaUrl: p.rsch,
				ScopeLogs: []*lv1.ScopeLogs{{Scope: p.sc, SchemaUrl: p.ssch, LogRecords: []*lv1.LogRecord{s}}}})
		}
		return (&v1.Data{Data: &v1.Data_Logs{Logs: d}})
	}
}

// id of the next export at position at
func (h *hist) idAt(at int) (id uint64) {
	for _, o := range h.ops[:at] {
		if o.O == "export" {
			id++
		}
	}
	return
}

func (h *hist) query(at int, m *modelQuery) *Query {
	r := newRng(h.seed*31 + int64(at))
	q := &Query{Sig: h.sigs[1+r.Intn(3)], Now: h.slots[2]}
	for _, l := range m.Ls {
		q.F = append(q.F, h.lab[l])
	}
	if r.chance(10) {
		q.F = nil
	}
	a, b := h.slots[m.B1-1], fromTime(h.slots[m.B2-1].Time().Add(1))
	if m.Inst {
		q.Now = fromTime(b.Time().Add(time.Duration(r.Intn(800)) * time.Second))
		return q
	}
	q.Range = true
	q.Start, q.End = a, b
	if r.chance(20) {
		q.Limit, q.Reverse = r.Intn(3), r.chance(50)
	}
	return q
}

func (h *hist) openWorld(emit bool) bool {
	err := guard(h.w.tryOpen)
	if emit || err != nil {
		h.e.Emit(obj{"ev": "hopen", "err": errString(err)})
	}
	return err == nil
}

func (h *hist) run(from int) {
	installGates()
	onCommit = nil
	if !h.openWorld(from > 0) {
		return
	}
	if from > 0 && h.sweep {
		h.probe()
	}
	up := true
	start := from
	if from > 0 {
		start = from + 1 // the open
	}
	for at := start; at < len(h.ops); at++ {
		o := h.ops[at]
		switch o.O {
		case "export":
			h.buf = append(h.buf, &v1.Sample{Id: h.idAt(at), Data: h.payload(at)})
		case "begin":
			h.begin()
		case "step":
			if h.sweep && from == 0 && h.crashes(at) {
				break // steps are counted
			}
			if h.saving != nil && commits.isOn() {
				commits.permit <- struct{}{}
				commits.settle(h.saving)
			}
		case "end":
			if !h.endSave() {
				return
			}
			h.extras(at)
		case "sbegin":
			if !h.endScan() {
				return
			}
			h.beginScan(h.query(at, o.Q))
		case "sstep":
			if h.scanning != nil && reads.isOn() {
				reads.permit <- struct{}{}
				reads.settle(h.scanning)
			}
		case "send":
			if !h.endScan() {
				return
			}
		case "close":
			if !h.endScan() || !h.endSave() {
				return
			}
			err := guard(h.w.tryClose)
			h.e.Emit(obj{"ev": "close", "err": errString(err)})
			up = false
			if err != nil {
				return
			}
		case "open":
			if !up && !h.openWorld(true) {
				return
			}
			up = true
			h.extras(at)
		case "crash":
			if h.sweep && from == 0 && h.saving != nil {
				for i := 0; i < h.crashAt && !h.isSaved(); i++ {
					commits.permit <- struct{}{}
					commits.settle(h.saving)
				}
				if h.isSaved() {
					// there are no more commits
					check(os.WriteFile(h.w.dir+"/over", nil, 0600))
				}
			}
			settle(h.w.dir + "/db")
			h.e.Emit(obj{"ev": "crash"})
			h.e.Flush()
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
	}
	if !up {
		return
	}
	if !h.endScan() || !h.endSave() {
		return
	}
	h.extras(len(h.ops))
	err := guard(h.w.tryClose)
	h.e.Emit(obj{"ev": "close", "err": errString(err)})
}

func (h *hist) isSaved() bool {
	select {
	case <-h.saving:
		return true
	default:
		return false
	}
}

// crashes tells if the save that is running is interrupted by a crash
func (h *hist) crashes(at int) bool {
	for _, o := range h.ops[at:] {
		switch o.O {
		case "end", "close":
			return false
		case "crash":
			return true
		}
	}
	return false
}

// probe looks in many ways for the samples that were sent before a crash
func (h *hist) probe() {
	for at, o := range h.ops {
		if o.O == "crash" {
			break
		}
		if o.O != "export" {
			continue
		}
		sets := [][]string{o.Ls}
		for i := range o.Ls {
			sets = append(sets, o.Ls[i:i+1])
		}
		for i, ls := range sets {
			for _, inst := range []bool{false, true} {
				q := h.query(at*16+i, &modelQuery{Ls: ls, B1: o.B, B2: o.B, Inst: inst})
				q.Sig, q.Limit, q.Reverse = h.sigs[o.S], 0, false
				h.scan(q)
			}
		}
		emitLabels(h.w, h.idAt(at), viewOf(h.slots[o.B-1], at%4), h.e)
	}
}

// scan with nothing else going on
func (h *hist) scan(q *Query) {
	h.scanN++
	h.e.Emit(obj{"ev": "sbegin", "i": h.scanN, "q": q.norm()})
	d, err := h.w.scan(q)
	h.e.Emit(h.sendEvent(h.scanN, q, d, err))
}

func (h *hist) begin() {
	ls := h.buf
	h.buf = nil
	if len(ls) == 0 || h.saving != nil {
		return
	}
	var ps []obj
	for _, s := range ls {
		ps = append(ps, obj{"id": s.Id, "d": project(s.Data)})
	}
	h.saved = append(h.saved, ls...)
	h.e.Emit(obj{"ev": "begin", "samples": ps})
	h.saving = make(chan struct{})
	commits.enable()
	done := h.saving
	go func() {
		h.saveErr = h.w.save(ls)
		close(done)
	}()
	commits.settle(done)
}

func (h *hist) await(c chan struct{}, what string) bool {
	select {
	case <-c:
		return true
	case <-time.After(60 * time.Second):
		h.e.Emit(obj{"ev": "hung", "what": what})
		return false
	}
}

func (h *hist) endSave() bool {
	if h.saving == nil {
		return true
	}
	commits.open()
	// a scan that is held at a gate must not hold the save for ever
	select {
	case <-h.saving:
	case <-time.After(2 * time.Second):
		reads.open()
	}
	if !h.await(h.saving, "save") {
		return false
	}
	h.saving = nil
	h.e.Emit(obj{"ev": "end", "err": errString(h.saveErr)})
	return true
}

func (h *hist) beginScan(q *Query) {
	h.scanN++
	h.scanQ = q
	h.e.Emit(obj{"ev": "sbegin", "i": h.scanN, "q": q.norm()})
	reads.enable()
	h.scanning = make(chan struct{})
	done := h.scanning
	go func() {
		h.scanRes, h.scanErr = h.w.scan(q)
		close(done)
	}()
	reads.settle(done)
}

func (h *hist) endScan() bool {
	if h.scanning == nil {
		return true
	}
	reads.open()
	select {
	case <-h.scanning:
	case <-time.After(2 * time.Second):
		commits.open()
	}
	if !h.await(h.scanning, "scan") {
		return false
	}
	h.scanning = nil
	h.e.Emit(h.sendEvent(h.scanN, h.scanQ, h.scanRes, h.scanErr))
	return true
}

func (h *hist) sendEvent(i int, q *Query, d *v1.Data, err error) obj {
	o := scanEvent(q, d, err)
	o["ev"] = "send"
	o["i"] = i
	return o
}

// extras are quiet scans and listings in addition to those of the behaviour
func (h *hist) extras(at int) {
	if h.scanning != nil || h.saving != nil {
		return
	}
	r := newRng(h.seed*13 + int64(at))
	for i := 0; i < 3; i++ {
		b1 := 1 + r.Intn(3)
		m := &modelQuery{B1: b1, B2: b1 + r.Intn(4-b1), Inst: r.chance(25)}
		for _, l := range []string{"A", "B", "C"} {
			if r.chance(35) {
				m.Ls = append(m.Ls, l)
			}
		}
		sort.Strings(m.Ls)
		h.scan(h.query(at*4+i, m))
	}
	if n := h.idAt(at); n > 0 {
		id := uint64(r.Intn(int(n)))
		emitLabels(h.w, id, viewOf(pick(r, h.slots), r.Intn(4)), h.e)
	}
}
