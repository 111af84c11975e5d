package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"strings"
	"sync"
	"time"
	"unicode"

	"github.com/dop251/goja"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/js"
	cv1 "go.opentelemetry.io/proto/otlp/common/v1"
	mv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	rv1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/encoding/protojson"
)

// render scenario: scripts that render documents, several at once. The documents are made
// twice, as messages for the real code and as terms for Render.tla.

type renderOpts struct {
	Resource bool `json:"resource"`
	Scope    bool `json:"scope"`
	Metrics  bool `json:"metrics"`
}

type dgen struct {
	*rng
	big int // at most this many of each part
}

// pieces make longer texts, which look like what surrounds them
var pieces = []string{", ", ": ", "{", "}", "[", "]", `"`, `\\`, " = ", "  ", "a", "b", "Z", "1", "null", `\n`, "\\u0020", "=== ", "--> ", "…", "<", "&"}

func (g *dgen) word() string {
	if g.chance(60) {
		return pick(g.rng, words)
	}
	s := ""
	n := 1 + g.Intn(6)
	if g.chance(8) {
		// long ones
		n = 10 + g.Intn(150)
	}
	for ; n > 0; n-- {
		s += pick(g.rng, pieces)
	}
	return s
}

func chars(s string) []string {
	o := []string{}
	for _, c := range s {
		o = append(o, string(c))
	}
	return o
}

// words have no tabs, newlines or control characters
var (
	words    = []string{"", "x", "a.b", "cpu time", "ключ", "日本", "=", "{", "}", ",", "-->", "===", `"`, `\`, "100%", "%s", "%d%%", "<nil>", "a|b", "TIMESTAMP", "&amp;", "e\u0301"}
	rquoted  = append([]string{"tab\there", "line\nbreak", `quote"d \ back`, " ", "  two  "}, words...)
	runits   = []string{"", "By", "s", "ms", "ns", "h", "1", "{faults}", "us", "min", "KiBy", "S"}
	rdescs   = []string{"", "x", "time in nanoseconds", "nanosecond", "nanoseconds", "Nanoseconds", "per cent %"}
	rnumbers = []int64{0, 1, 2, 3, 9, 10, 11, 99, 100, 999, 1000, 1001, 1023, 1024, 1025, 1047, 1048, 10188, 10189, 10239, 10240, 10751, 10752, 59999, 60000, 3599999, 3600000, 999999, 1000000, 1000001,
		1048575, 1048576, 1048577, 1500000, 1234567, 9999999, 10000000, 10485760, 104857600, 536870912, 1073741823}
)

func (g *dgen) n(max int64) int64 {
	var n int64
	switch g.Intn(4) {
	case 0:
		n = pick(g.rng, rnumbers)
	case 1:
		n = int64(g.Intn(40))
	case 2:
		n = 1 << g.Intn(31)
		n += int64(g.Intn(5)) - 2
	default:
		n = g.Int63n(1 << (1 + g.Intn(30)))
	}
	if n < 0 {
		n = -n
	}
	if n > max {
		n %= max + 1
	}
	return n
}

func (g *dgen) some() int {
	if g.chance(15) {
		return 0
	}
	return 1 + g.Intn(g.big)
}

// lot is some, and rarely many
func (g *dgen) lot() int {
	if g.chance(2) {
		return 10 + g.Intn(60)
	}
	return g.some()
}

func (g *dgen) few() int {
	if g.chance(1) {
		return 10 + g.Intn(60)
	}
	return g.Intn(4)
}

func (g *dgen) value(depth int) (*cv1.AnyValue, obj) {
	k := g.Intn(12)
	if depth == 0 && k >= 8 {
		k = g.Intn(8)
	}
	switch k {
	default:
		s := pick(g.rng, rquoted)
		if g.chance(40) {
			s = g.word()
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_StringValue{StringValue: s}}, obj{"k": "str", "s": chars(s)}
	case 2:
		b := g.chance(50)
		return &cv1.AnyValue{Value: &cv1.AnyValue_BoolValue{BoolValue: b}}, obj{"k": "bool", "b": b}
	case 3:
		n := g.n(1<<31 - 1)
		if g.chance(30) {
			n = -n
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_IntValue{IntValue: n}}, obj{"k": "int", "n": n}
	case 4:
		t, n := "9223372036854775807", int64(9223372036854775807)
		if g.chance(50) {
			t, n = "-9223372036854775808", -9223372036854775808
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_IntValue{IntValue: n}}, obj{"k": "big", "t": t}
	case 5:
		n, den := g.n(1<<31-1), int64(1)<<g.Intn(3)
		if n != 0 && g.chance(30) {
			n = -n
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_DoubleValue{DoubleValue: float64(n) / float64(den)}}, obj{"k": "dbl", "n": n, "den": den}
	case 6:
		n := g.Intn(6)
		if g.chance(8) {
			n = 10 + g.Intn(200)
		}
		x := make([]byte, n)
		g.Read(x)
		xs := []int{}
		for _, b := range x {
			xs = append(xs, int(b))
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_BytesValue{BytesValue: x}}, obj{"k": "bytes", "x": xs}
	case 7:
		switch g.Intn(3) {
		case 0:
			return nil, obj{"k": "none"}
		default:
			return &cv1.AnyValue{}, obj{"k": "none"}
		}
	case 8, 9:
		o, ls := &cv1.ArrayValue{}, []obj{}
		for n := g.few(); n > 0; n-- {
			m, t := g.value(depth - 1)
			if m == nil {
				m = &cv1.AnyValue{}
			}
			o.Values, ls = append(o.Values, m), append(ls, t)
		}
		return &cv1.AnyValue{Value: &cv1.AnyValue_ArrayValue{ArrayValue: o}}, obj{"k": "arr", "a": ls}
	case 10, 11:
		ms, ts := g.attrs(depth - 1)
		return &cv1.AnyValue{Value: &cv1.AnyValue_KvlistValue{KvlistValue: &cv1.KeyValueList{Values: ms}}}, obj{"k": "kv", "a": ts}
	}
}

func (g *dgen) attrs(depth int) (o []*cv1.KeyValue, ls []obj) {
	ls = []obj{}
	for n := g.few(); n > 0; n-- {
		k := g.word()
		m, t := g.value(depth)
		o, ls = append(o, &cv1.KeyValue{Key: k, Value: m}), append(ls, obj{"key": chars(k), "v": t})
	}
	return
}

func (g *dgen) instant() ts {
	y := 1970 + g.Intn(65)
	t := time.Date(y, time.Month(1+g.Intn(12)), 1+g.Intn(31), g.Intn(24), g.Intn(60), g.Intn(60), g.Intn(1e9), time.UTC)
	switch g.Intn(5) {
	case 0:
		t = time.Date(y, time.Month(1+g.Intn(12)), 1, 0, 0, 0, 0, time.UTC)
	case 1:
		t = time.Date(y+1, 1, 1, 0, 0, 0, -1, time.UTC)
	case 2:
		t = time.Unix(0, 0).UTC()
	}
	return fromTime(t)
}

func (g *dgen) metric() (*mv1.Metric, obj) {
	m := &mv1.Metric{Name: g.word(), Unit: pick(g.rng, runits), Description: pick(g.rng, rdescs)}
	if g.chance(40) {
		m.Description += g.word()
	}
	kind := pick(g.rng, []string{"gauge", "sum", "gauge", "sum", "hist", "none"})
	unit := m.Unit
	nanos := strings.Contains(m.Description, "nanoseconds")
	if unit == "" && nanos {
		unit = "ns"
	}
	var ps []*mv1.NumberDataPoint
	pts := []obj{}
	if kind == "gauge" || kind == "sum" {
		for i := g.lot(); i > 0; i-- {
			max, sign := int64(1<<31-1), g.chance(30)
			switch unit {
			case "h":
				max = 500000
			case "s", "ms":
				max = 2000000
			case "By":
				max, sign = 1<<30-1, false
			}
			n, den := g.n(max), int64(1)<<g.Intn(3)
			// larger numbers, that are exact all the same
			x, scale := 0, int64(1)
			if g.chance(25) {
				switch unit {
				case "ns":
					x = 6 + 3*g.Intn(2)
				case "ms":
					x = 3
				case "By":
					x = 1 + g.Intn(3)
				case "h", "s":
				default:
					x = 1 + g.Intn(9)
				}
				for i := 0; i < x; i++ {
					if unit == "By" {
						scale *= 1024
					} else {
						scale *= 10
					}
				}
				n %= min(max, (1<<53)/scale) + 1
				if unit == "ns" && x == 6 {
					n %= 2000000
				}
				den = 1
			}
			if sign {
				n = -n
			}
			d := &mv1.NumberDataPoint{}
			switch {
			case n == 0 && g.chance(50):
			case den == 1 && g.chance(60):
				d.Value = &mv1.NumberDataPoint_AsInt{AsInt: n * scale}
			default:
				d.Value = &mv1.NumberDataPoint_AsDouble{AsDouble: float64(n*scale) / float64(den)}
			}
			t := g.instant()
			d.TimeUnixNano = t.Nano()
			var as []obj
			d.Attributes, as = g.attrs(1)
			ps = append(ps, d)
			pts = append(pts, obj{"t": t, "n": n, "den": den, "x": x, "a": as})
		}
	}
	switch kind {
	case "gauge":
		m.Data = &mv1.Metric_Gauge{Gauge: &mv1.Gauge{DataPoints: ps}}
	case "sum":
		m.Data = &mv1.Metric_Sum{Sum: &mv1.Sum{DataPoints: ps}}
	case "hist":
		m.Data = &mv1.Metric_Histogram{Histogram: &mv1.Histogram{DataPoints: []*mv1.HistogramDataPoint{{Count: 1}}}}
	}
	return m, obj{"name": chars(m.Name), "desc": chars(m.Description), "unit": chars(m.Unit), "nanos": nanos, "kind": kind, "pts": pts}
}

func (g *dgen) doc() (*mv1.MetricsData, []obj) {
	o, rs := &mv1.MetricsData{}, []obj{}
	for i := g.some(); i > 0; i-- {
		rm := &mv1.ResourceMetrics{SchemaUrl: g.word()}
		ra := []obj{}
		if g.chance(80) {
			rm.Resource = &rv1.Resource{}
			rm.Resource.Attributes, ra = g.attrs(2)
		}
		ss := []obj{}
		for j := g.some(); j > 0; j-- {
			sm := &mv1.ScopeMetrics{SchemaUrl: g.word()}
			name, ver, sa := "", "", []obj{}
			if g.chance(80) {
				name, ver = g.word(), g.word()
				sm.Scope = &cv1.InstrumentationScope{Name: name, Version: ver}
				sm.Scope.Attributes, sa = g.attrs(2)
			}
			ms := []obj{}
			for k := g.lot(); k > 0; k-- {
				m, t := g.metric()
				sm.Metrics, ms = append(sm.Metrics, m), append(ms, t)
			}
			rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			ss = append(ss, obj{"name": chars(name), "schema": chars(sm.SchemaUrl), "ver": chars(ver), "a": sa, "ms": ms})
		}
		o.ResourceMetrics = append(o.ResourceMetrics, rm)
		rs = append(rs, obj{"schema": chars(rm.SchemaUrl), "a": ra, "ss": ss})
	}
	return o, rs
}

// linesOf are the lines of a text without blanks
func linesOf(s string) []string {
	o := []string{}
	for _, l := range strings.Split(strings.ReplaceAll(s, "µ", "u"), "\n") {
		l = strings.Map(func(r rune) rune {
			if unicode.IsSpace(r) {
				return -1
			}
			return r
		}, l)
		if l != "" {
			o = append(o, l)
		}
	}
	return o
}

const renderMark = "@@@ next @@@\n"

func renderMain(args []string) {
	fs := flag.NewFlagSet("render", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	n := fs.Int("n", 100, "")
	seed := fs.Int64("seed", 1, "")
	workers := fs.Int("workers", 6, "")
	check(fs.Parse(args))
	e := newEmitter(*out)

	compileProgram := func(src string) *goja.Program {
		code, err := compileScript("import { Metrics, println } from \"@requiemdb/rq\";\n"+src, "", "")
		check(err)
		p, err := goja.Compile("render.js", string(code), true)
		check(err)
		return p
	}
	// programs render the result of one scan twice and as json
	type program struct {
		p    *goja.Program
		a, b renderOpts
	}
	var programs []program
	seedr := newRng(*seed)
	arg := func(o renderOpts) string {
		if o == (renderOpts{}) && seedr.chance(70) {
			return pick(seedr, []string{"", ", undefined", ", {} as any"})
		}
		b, err := json.Marshal(o)
		check(err)
		return ", " + string(b) + " as any"
	}
	opt := func(i int) renderOpts { return renderOpts{i&1 != 0, i&2 != 0, i&4 != 0} }
	mark, _ := json.Marshal(strings.TrimSuffix(renderMark, "\n"))
	for i := 0; i < 8; i++ {
		a, b := opt(i), opt(seedr.Intn(8))
		json := pick(seedr, []string{"", ", {pretty: true}", ", {pretty: false}"})
		programs = append(programs, program{compileProgram("const d = new Metrics().query();\nMetrics.render(d" + arg(a) + ");\nprintln(" + string(mark) + ");\n" +
			"Metrics.renderJSON(d" + json + ");\nprintln(" + string(mark) + ");\nMetrics.render(d" + arg(b) + ");\n"), a, b})
	}
	jobs := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range jobs {
				r := newRng(*seed*1000003 + int64(i))
				var md *mv1.MetricsData
				var doc []obj
				// rich documents have everything, and are for json only
				rich := i%4 == 3
				if rich {
					g := &Gen{rng: r, rich: true, dups: true, wide: r.chance(30), times: []ts{{0, 0}, {1, 5}, {800000000, 999999999}}}
					md = g.Data(1).GetMetrics()
				} else {
					md, doc = (&dgen{r, 1 + r.Intn(3)}).doc()
				}
				p := programs[r.Intn(len(programs))]
				data := &v1.Data{Data: &v1.Data_Metrics{Metrics: md}}
				switch {
				case i%50 == 7:
					// a scan that matched nothing
					data, doc = &v1.Data{}, []obj{}
					md = &mv1.MetricsData{}
				case i%50 == 8:
					data, doc = &v1.Data{Data: &v1.Data_Metrics{}}, []obj{}
					md = &mv1.MetricsData{}
				}
				want := digest(md)
				var b bytes.Buffer
				err := guard(func() error {
					vm := js.New().WithNow(time.Now).WithOutput(&b).WithData(data)
					defer vm.Release()
					return vm.Run(p.p)
				})
				parts := strings.Split(b.String(), renderMark)
				if err == nil && len(parts) != 3 {
					e.Emit(obj{"ev": "text", "err": "the output has " + itoa(len(parts)) + " parts", "opts": p.a, "doc": []obj{}, "lines": []string{}})
					continue
				}
				for len(parts) < 3 {
					parts = append(parts, "")
				}
				if !rich {
					e.Emit(obj{"ev": "text", "err": errString(err), "opts": p.a, "doc": doc, "lines": linesOf(parts[0])})
					e.Emit(obj{"ev": "text", "err": errString(err), "opts": p.b, "doc": doc, "lines": linesOf(parts[2])})
				}
				got := &mv1.MetricsData{}
				if err == nil {
					err = protojson.Unmarshal([]byte(parts[1]), got)
				}
				e.Emit(obj{"ev": "json", "err": errString(err), "want": want, "got": digest(got)})
			}
		}()
	}
	for i := 0; i < *n; i++ {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	e.Close()
}
