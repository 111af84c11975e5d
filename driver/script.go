package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/dop251/goja"
	"github.com/evanw/esbuild/pkg/api"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/compile"
	"github.com/gernest/requiemdb/internal/js"
)

// script scenario: turns behaviours of ScriptGen.tla into scripts, runs them and records
// the requests they issue.

type stmt struct {
	S   string `json:"s"`
	I   int    `json:"i"`
	Sig int    `json:"sig"`
	V   string `json:"v"`
	C   struct {
		M string `json:"m"`
		N int64  `json:"n"`
	} `json:"c"`
}

var scriptValues = []string{"", "x", "service.name", "a=b", `back\slash`, `quote"d`, "'", "`", "ключ", "line\nbreak", "0102030405060708", "INFO", "\u2028", "${x}", "</script>", " space "}

var scriptDurations = []struct {
	s string
	d time.Duration
}{
	{"15m", 15 * time.Minute}, {"1h30m", 90 * time.Minute}, {"90s", 90 * time.Second}, {"1.5h", 90 * time.Minute},
	{"250ms", 250 * time.Millisecond}, {"36h", 36 * time.Hour}, {"720h", 720 * time.Hour}, {"0s", 0}, {"1ns", 1},
	{"8784h", 8784 * time.Hour}, {"999999µs", 999999 * time.Microsecond}, {"-10m", -10 * time.Minute}, {"2h45m10.5s", 2*time.Hour + 45*time.Minute + 10500*time.Millisecond},
}

func scriptMain(args []string) {
	fs := flag.NewFlagSet("script", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	src := fs.String("src", "", "source of the package, instead of the bundle")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]stmt
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	r := newRng(*seed)
	for i, h := range hs {
		runScript(r, h, e, *src, filepath.Join(*dir, itoa(i)))
		if i%3 == 0 {
			runUnclocked(r, e, *src, filepath.Join(*dir, itoa(i)))
		}
	}
	e.Close()
}

// ms are instants with whole milliseconds, at and around calendar boundaries
func (r *rng) ms() time.Time {
	y := 1971 + r.Intn(62)
	t := time.Date(y, time.Month(1+r.Intn(12)), 1+r.Intn(31), r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000)*1e6, time.UTC)
	switch r.Intn(6) {
	case 0:
		t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	case 1:
		t = time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC).Add(-time.Millisecond)
	case 2:
		t = time.Date(t.Year(), t.Month(), 1, 0, 0, 0, 0, time.UTC)
	case 3:
		t = time.Date(t.Year(), 1, 1, 0, 0, 0, 0, time.UTC).Add(-time.Millisecond)
	case 4:
		// a Sunday
		t = time.Date(t.Year(), t.Month(), t.Day()-int(t.Weekday()), 0, 0, r.Intn(2), 0, time.UTC).Add(-time.Duration(r.Intn(2)) * time.Second)
	}
	return t
}

func quote(s string) string {
	b, err := json.Marshal(s)
	check(err)
	return string(b)
}

func durPair(d time.Duration) []int64 {
	s, n := int64(d/time.Second), int64(d%time.Second)
	if n < 0 {
		s, n = s-1, n+1e9
	}
	return []int64{s, n}
}

func runScript(r *rng, h []stmt, e *Emitter, src, dir string) {
	clock := r.ms().Add(time.Duration(r.Intn(1000000)))
	offs := r.Intn(len(scriptValues))
	val := func(s string) string {
		if s == "" {
			return ""
		}
		if r.chance(10) {
			return strings.Repeat("long", 50)
		}
		return scriptValues[(int(s[len(s)-1]-'0')+offs)%len(scriptValues)]
	}
	var w strings.Builder
	w.WriteString("import { Metrics, Logs, Trace, Config, RESOURCE, println } from \"@requiemdb/rq\";\n")
	w.WriteString("const o: any = {};\n")
	var stmts []obj
	chain := 0 // object of the chain being written
	flush := func() {
		if chain != 0 {
			w.WriteString(";\n")
			chain = 0
		}
	}
	call := func(i int, s string) {
		if r.chance(40) {
			flush()
		}
		if chain != i {
			flush()
			fmt.Fprintf(&w, "o[%d]", i)
			chain = i
		}
		w.WriteString("." + s)
	}
	for _, s := range h {
		switch s.S {
		case "create":
			flush()
			name := val(s.V)
			var x string
			switch {
			case s.Sig == 1 && name != "":
				x = "new Metrics(" + quote(name) + ")"
			case s.Sig == 1:
				x = pick(r, []string{"new Metrics()", "new Config(RESOURCE.METRICS)"})
			case s.Sig == 2:
				x = pick(r, []string{"new Trace()", "new Config(RESOURCE.TRACES)"})
			default:
				x = pick(r, []string{"new Logs()", "new Config(RESOURCE.LOGS)"})
			}
			fmt.Fprintf(&w, "o[%d] = %s;\n", s.I, x)
			stmts = append(stmts, obj{"s": "create", "i": s.I, "sig": s.Sig, "v": name})
		case "query":
			flush()
			fmt.Fprintf(&w, "o[%d].scan();\n", s.I)
			stmts = append(stmts, obj{"s": "query", "i": s.I})
		case "bad":
			flush()
			fmt.Fprintf(&w, "o[%d].%s;\n", s.I, pick(r, []string{`ago("soon")`, `offset("1 day")`, `ago("")`}))
			stmts = append(stmts, obj{"s": "bad", "i": s.I})
		case "call":
			c := obj{"m": s.C.M}
			switch s.C.M {
			case "limit":
				n := pick(r, []uint64{0, 1, 2, 10, 1000, 1 << 16, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1 << 40, 1<<53 - 1})
				call(s.I, fmt.Sprintf("limit(%d)", n))
				c["n"] = limitCode(n)
			case "reverse", "today", "thisWeek", "thisMonth", "thisYear", "latest":
				call(s.I, s.C.M+"()")
			case "now":
				t := r.ms()
				call(s.I, fmt.Sprintf("now(new Date(%d))", t.UnixMilli()))
				c["t"] = fromTime(t)
			case "timeRange":
				flush()
				a, b := r.ms(), r.ms()
				fmt.Fprintf(&w, "o[%d].ptr.TimeRange(%d, %d);\n", s.I, a.UnixMilli(), b.UnixMilli())
				c["t"], c["t2"] = fromTime(a), fromTime(b)
			case "offset", "ago":
				d := pick(r, scriptDurations)
				call(s.I, s.C.M+"("+quote(d.s)+")")
				c["d"] = durPair(d.d)
			case "resourceAttr", "scopeAttr", "attr":
				k, v := pick(r, scriptValues), pick(r, scriptValues)
				call(s.I, s.C.M+"("+quote(k)+", "+quote(v)+")")
				c["k"], c["v"] = k, v
			default:
				v := pick(r, scriptValues)
				call(s.I, s.C.M+"("+quote(v)+")")
				c["v"] = v
			}
			stmts = append(stmts, obj{"s": "call", "i": s.I, "c": c})
		}
	}
	flush()
	issued := []obj{}
	var sigs []v1.Scan_SCOPE
	err := guard(func() error {
		code, err := compileScript(w.String(), src, dir)
		if err != nil {
			return err
		}
		p, err := goja.Compile("scan.js", string(code), true)
		if err != nil {
			return err
		}
		vm := js.New().WithNow(func() time.Time { return clock }).WithOutput(io.Discard).
			WithScan(func(s *v1.Scan) (*v1.Data, error) {
				issued = append(issued, projectRequest(s))
				sigs = append(sigs, s.Scope)
				return emptyData(s.Scope), nil
			})
		defer vm.Release()
		return vm.Run(p)
	})
	e.Emit(obj{"ev": "script", "clock": fromTime(clock), "stmts": append([]obj{}, stmts...), "issued": issued, "err": errString(err)})
}

// runUnclocked runs a script that relies on the clock of the process. Its relative range
// has to end while it runs.
func runUnclocked(r *rng, e *Emitter, src, dir string) {
	m := pick(r, []string{"latest", "today", "thisWeek", "thisMonth", "thisYear", "ago"})
	c := obj{"m": m}
	arg := ""
	if m == "ago" {
		d := pick(r, scriptDurations)
		arg, c["d"] = quote(d.s), durPair(d.d)
	}
	code := "import { Logs } from \"@requiemdb/rq\";\nnew Logs()." + m + "(" + arg + ").scan();\n"
	issued := []obj{}
	a, b := time.Now(), time.Now()
	clock := a
	err := guard(func() error {
		code, err := compileScript(code, src, dir)
		if err != nil {
			return err
		}
		p, err := goja.Compile("scan.js", string(code), true)
		if err != nil {
			return err
		}
		vm := js.New().WithOutput(io.Discard).WithScan(func(s *v1.Scan) (*v1.Data, error) {
			b = time.Now()
			if s.TimeRange != nil && s.TimeRange.End != nil {
				if t := s.TimeRange.End.AsTime(); !t.Before(a.Truncate(time.Millisecond)) && !t.After(b) {
					clock = t
				}
			}
			issued = append(issued, projectRequest(s))
			return emptyData(s.Scope), nil
		})
		defer vm.Release()
		a = time.Now()
		clock = a
		return vm.Run(p)
	})
	e.Emit(obj{"ev": "script", "clock": fromTime(clock.UTC()), "err": errString(err), "issued": issued,
		"stmts": []obj{{"s": "create", "i": 1, "sig": 3, "v": ""}, {"s": "call", "i": 1, "c": c}, {"s": "query", "i": 1}}})
}

func emptyData(s v1.Scan_SCOPE) *v1.Data {
	g := &Gen{rng: newRng(1), small: true}
	g.times = []ts{{0, 0}}
	return g.Data(int(s))
}

func compileScript(code, src, dir string) ([]byte, error) {
	if src == "" {
		return compile.Compile([]byte(code))
	}
	check(os.MkdirAll(dir, 0755))
	defer os.RemoveAll(dir)
	check(os.WriteFile(filepath.Join(dir, "index.ts"), []byte(code), 0600))
	r := api.Build(api.BuildOptions{Bundle: true, Alias: map[string]string{"@requiemdb/rq": src}, AbsWorkingDir: dir, EntryPoints: []string{"index.ts"}})
	if len(r.Errors) > 0 {
		return nil, fmt.Errorf("%s", r.Errors[0].Text)
	}
	return r.OutputFiles[0].Contents, nil
}

func projectRequest(s *v1.Scan) obj {
	f := []Filter{}
	for _, x := range s.Filters {
		switch v := x.Value.(type) {
		case *v1.Scan_Filter_Base:
			f = append(f, Filter{Base: true, P: int(v.Base.Prop), V: v.Base.Value})
		case *v1.Scan_Filter_Attr:
			f = append(f, Filter{P: int(v.Attr.Prop), K: v.Attr.Key, V: v.Attr.Value})
		}
	}
	now, off, rng := []int64{}, []int64{}, []ts{}
	if s.Now != nil {
		t := fromTime(s.Now.AsTime())
		now = t[:]
	}
	if s.Offset != nil {
		off = durPair(s.Offset.AsDuration())
	}
	if s.TimeRange != nil {
		rng = []ts{fromTime(s.TimeRange.Start.AsTime()), fromTime(s.TimeRange.End.AsTime())}
	}
	return obj{"sig": int(s.Scope), "f": f, "limit": limitCode(s.Limit), "rev": s.Reverse, "now": now, "off": off, "range": rng}
}

// limitCode tells limits apart with numbers that fit in 31 bits: those that do not are
// represented by negative numbers
func limitCode(n uint64) int64 {
	if n < 1<<31 {
		return int64(n)
	}
	for i, b := 0, 31; b < 64; i, b = i+3, b+1 {
		for d := -1; d <= 1; d++ {
			if n == 1<<b+uint64(d) {
				return -int64(i + d + 2)
			}
		}
	}
	return -1000 - int64(n%1000003)
}
