package main

import (
	"encoding/hex"
	"flag"
	"slices"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/data"
	"github.com/gernest/requiemdb/internal/js"
	cv1 "go.opentelemetry.io/proto/otlp/common/v1"
	rv1 "go.opentelemetry.io/proto/otlp/resource/v1"
	"google.golang.org/protobuf/proto"
)

// merge scenario: the merging of samples, in several goroutines as concurrent scans do
func mergeMain(args []string) {
	fs := flag.NewFlagSet("merge", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := &Gen{rng: newRng(*seed*100 + int64(w))}
			g.times = g.instants(3)
			for i := 0; i < *n/4; i++ {
				g.rich = g.chance(20)
				g.long = !g.rich && g.chance(40)
				g.dups = g.chance(15)
				g.fav = nil
				if g.chance(25) {
					g.favour()
				}
				sig := 1 + g.Intn(3)
				g.ident, g.streams = nil, nil
				g.one = g.chance(25)
				var in []*v1.Data
				var ps []Doc
				for k := 2 + g.Intn(4); k > 0; k-- {
					g.near = g.chance(60)
					d := g.Data(sig)
					in = append(in, d)
					ps = append(ps, project(d))
				}
				g.near, g.one = false, false
				var got *v1.Data
				err := guard(func() error {
					got = data.Collapse(clones(in))
					return nil
				})
				e.Emit(obj{"ev": "merge", "in": ps, "out": project(got), "err": errString(err), "tidy": !g.dups})
			}
		}(w)
	}
	wg.Wait()
}

func clones(ls []*v1.Data) (o []*v1.Data) {
	for _, d := range ls {
		o = append(o, proto.Clone(d).(*v1.Data))
	}
	return
}

// ---- identities that are nearly the same

type ident struct {
	schema, name, ver string
	attrs             []*cv1.KeyValue
}

// variant changes as little as possible of an identity
func (g *Gen) variant(i ident) ident {
	o := i
	o.attrs = nil
	for _, a := range i.attrs {
		o.attrs = append(o.attrs, proto.Clone(a).(*cv1.KeyValue))
	}
	if len(g.fav) > 0 && g.chance(40) {
		// one text is another one that looks alike
		at := []*string{&o.schema, &o.name, &o.ver}
		for _, a := range o.attrs {
			at = append(at, &a.Key)
			if v, ok := a.GetValue().GetValue().(*cv1.AnyValue_StringValue); ok {
				at = append(at, &v.StringValue)
			}
		}
		g.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
		for _, t := range at {
			if k := slices.Index(g.fav, *t); k >= 0 {
				*t = g.fav[k^1]
				return o
			}
		}
	}
	switch g.Intn(12) {
	case 11:
		// an attribute without a value is one too; nothing else starts with its key
		at := g.Intn(len(o.attrs) + 1)
		o.attrs = slices.Insert(o.attrs, at, &cv1.KeyValue{Key: "none"})
	case 10:
		// the last of them
		if n := len(o.attrs); n > 0 {
			o.attrs[n-1].Value = str("", g.val()).Value
		}
	case 9:
		o.schema = pick(g.rng, likeSchemas)
	case 0:
		return o
	case 1:
		o.schema, o.name = o.name, o.schema
	case 2:
		o.name, o.ver = o.ver, o.name
	case 3:
		// move a character over a field boundary
		if c := len(o.schema); c > 0 && o.schema[c-1] < 128 {
			o.name, o.schema = o.schema[len(o.schema)-1:]+o.name, o.schema[:len(o.schema)-1]
		}
	case 4:
		if c := len(o.name); c > 0 && o.name[c-1] < 128 {
			o.ver, o.name = o.name[len(o.name)-1:]+o.ver, o.name[:len(o.name)-1]
		}
	case 5:
		if len(o.attrs) > 0 {
			a := o.attrs[g.Intn(len(o.attrs))]
			v := a.GetValue().GetStringValue()
			if c := len(a.Key); c > 0 && a.Key[c-1] < 128 {
				a.Value = &cv1.AnyValue{Value: &cv1.AnyValue_StringValue{StringValue: a.Key[len(a.Key)-1:] + v}}
				a.Key = a.Key[:len(a.Key)-1]
			}
		}
	case 6:
		if len(o.attrs) > 0 {
			// same text, other type
			a := o.attrs[g.Intn(len(o.attrs))]
			a.Value = pick(g.rng, []*cv1.AnyValue{
				{Value: &cv1.AnyValue_StringValue{StringValue: "1"}}, {Value: &cv1.AnyValue_IntValue{IntValue: 1}},
				{Value: &cv1.AnyValue_DoubleValue{DoubleValue: 1}}, {Value: &cv1.AnyValue_BoolValue{BoolValue: true}},
				{Value: &cv1.AnyValue_BytesValue{BytesValue: []byte("1")}}, {Value: &cv1.AnyValue_StringValue{StringValue: "true"}},
				{Value: &cv1.AnyValue_BoolValue{BoolValue: false}}, {Value: &cv1.AnyValue_IntValue{IntValue: 0}},
				{Value: &cv1.AnyValue_ArrayValue{ArrayValue: &cv1.ArrayValue{Values: []*cv1.AnyValue{{Value: &cv1.AnyValue_IntValue{IntValue: 1}}}}}},
				{Value: &cv1.AnyValue_ArrayValue{ArrayValue: &cv1.ArrayValue{Values: []*cv1.AnyValue{{Value: &cv1.AnyValue_StringValue{StringValue: "1"}}}}}},
				{Value: &cv1.AnyValue_KvlistValue{KvlistValue: &cv1.KeyValueList{Values: []*cv1.KeyValue{str("1", "1")}}}},
			})
		}
	case 7:
		if len(o.attrs) > 1 {
			// two attributes as one
			o.attrs[0].Key += o.attrs[1].Key
			o.attrs = append(o.attrs[:1], o.attrs[2:]...)
		} else {
			o.attrs = append(o.attrs, str("a", "x"))
		}
	case 8:
		if len(o.attrs) > 0 {
			o.attrs = o.attrs[:len(o.attrs)-1]
		}
	}
	return o
}

func (g *Gen) nearIdent(fresh func() ident) ident {
	if !g.near || len(g.ident) == 0 || !g.one && g.chance(20) {
		i := fresh()
		if g.chance(8) {
			for k := 5 + g.Intn(40); k > 0; k-- {
				i.attrs = append(i.attrs, str("k"+itoa(k), g.val()))
			}
		}
		g.ident = append(g.ident, i)
		return i
	}
	i := pick(g.rng, g.ident)
	if g.one {
		// everything has one owner
		return g.ident[0]
	}
	if !g.chance(20) {
		i = g.variant(i)
	}
	g.ident = append(g.ident, i)
	return i
}

func (i ident) resource() (string, *rv1.Resource) {
	if len(i.attrs) == 0 {
		return i.schema, nil
	}
	return i.schema, &rv1.Resource{Attributes: i.attrs, DroppedAttributesCount: uint32(len(i.attrs))}
}

func (i ident) scope() (string, *cv1.InstrumentationScope) {
	if len(i.attrs) == 0 && i.name == "" && i.ver == "" {
		return i.schema, nil
	}
	return i.schema, &cv1.InstrumentationScope{Name: i.name, Version: i.ver, Attributes: i.attrs, DroppedAttributesCount: uint32(len(i.attrs))}
}

// trim scenario: what a script gets to see of the data a scan returned
func trimMain(args []string) {
	fs := flag.NewFlagSet("trim", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 200, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := &Gen{rng: newRng(*seed*100 + int64(w))}
			for i := 0; i < *n/4; i++ {
				g.times = g.instants(4)
				g.rich = g.chance(20)
				g.long = !g.rich && g.chance(40)
				g.fav = nil
				if g.chance(25) {
					g.favour()
				}
				q := &Query{Sig: 1 + g.Intn(3), Now: pick(g.rng, g.times)}
				d := g.Data(q.Sig)
				if g.chance(60) && q.Sig == 1 {
					// every kind of metric
					for k := 0; k < 3; k++ {
						d = data.Collapse([]*v1.Data{d, g.Data(1)})
					}
				}
				in := project(d)
				g.trimQuery(q, in)
				req := q.proto()
				if g.chance(30) {
					// these are about samples, not about what is in them
					req.Limit, req.Reverse = uint64(1+g.Intn(3)), g.chance(50)
				}
				if g.chance(20) {
					// evaluated at the time of the runtime
					req.Now = nil
				}
				var got *v1.Data
				err := guard(func() (err error) {
					o := js.New().WithNow(func() time.Time { return q.Now.Time() }).WithData(d)
					got, err = o.Scan(req)
					o.Release()
					return
				})
				doc := Doc{R: []Res{}}
				if err == nil {
					doc = project(got)
				}
				e.Emit(obj{"ev": "trim", "q": q.norm(), "in": in, "after": project(d), "out": doc, "err": errString(err)})
			}
		}(w)
	}
	wg.Wait()
}

// filters that apply to the signal, with well-formed ids
func (g *Gen) trimQuery(q *Query, in Doc) {
	from := filtersOf(in)
	ok := func(f Filter) bool {
		switch f.P {
		case 8, 9:
			return q.Sig != 1
		case 10:
			return q.Sig == 2
		case 11:
			return q.Sig == 3
		case 6:
			return q.Sig != 3
		}
		return true
	}
	if len(from) > 0 && g.chance(12) {
		// one of many values, all but few absent
		f := pick(g.rng, from)
		if f.Base && f.P != 0 && ok(f) {
			for n := 3 + g.Intn(40); n > 0; n-- {
				x := f
				if x.V = "absent " + itoa(n); f.P >= 8 && f.P <= 10 {
					x.V = hex.EncodeToString([]byte(x.V))
				}
				q.F = append(q.F, x)
			}
			q.F = slices.Insert(q.F, g.Intn(len(q.F)+1), f)
		}
	}
	n := []int{0, 0, 1, 1, 1, 2, 2, 3, 5}[g.Intn(9)]
	if g.chance(8) {
		n = 6 + g.Intn(40)
	}
	for len(q.F) < n {
		var f Filter
		if len(from) > 0 && g.chance(80) {
			f = pick(g.rng, from)
			if (g.chance(15) || (like(f.V) != "" || slices.Contains(g.fav, f.V)) && g.chance(50)) && (f.P < 8 || f.P > 10) {
				g.twist(&f)
			}
		} else {
			f = Filter{Base: true, P: pick(g.rng, baseProps), V: pick(g.rng, []string{"x", "sc1", "m1", "INFO", "0102", "v1", "s1", ""})}
			if g.chance(50) {
				f = Filter{P: pick(g.rng, attrProps), K: pick(g.rng, keys), V: pick(g.rng, vals)}
			}
		}
		if f.Base && (f.P < 2 || f.P == 5 || f.P == 7) || !f.Base && f.P != 1 && f.P != 5 && f.P != 7 {
			continue
		}
		if f.Base && f.P >= 8 && f.P <= 10 && !isHex(f.V) {
			continue
		}
		if ok(f) {
			q.F = append(q.F, f)
		}
	}
	if g.chance(30) {
		q.Offset = int64(g.Intn(7200) - 1800)
	}
	if g.chance(75) {
		g.window(q, g.times)
		return
	}
	n2 := pick(g.rng, g.times).Time().Add(time.Duration(g.Intn(3000)) * time.Second)
	if g.chance(30) {
		n2 = pick(g.rng, g.times).Time().Add(15 * time.Minute).Add(time.Duration(g.Intn(3) - 1))
	}
	q.Now = fromTime(n2.Add(time.Duration(q.Offset) * time.Second))
}

func isHex(s string) bool {
	for _, c := range s {
		if (c < '0' || c > '9') && (c < 'a' || c > 'f') {
			return false
		}
	}
	return len(s)%2 == 0
}
