package main

import (
	"encoding/hex"
	"math"
	"slices"
	"strings"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	cv1 "go.opentelemetry.io/proto/otlp/common/v1"
	lv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	mv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	rv1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tv1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// ---- projection: what the specification sees of a payload

type kv [2]string

// Rec is one data point, span or log record
type Rec struct {
	U    int     `json:"u"` // unique number carried as attribute "uid"
	T    []int64 `json:"t"` // timestamp, empty when unknown
	A    []kv    `json:"a"` // attributes with string values
	Name string  `json:"name"`
	Lvl  string  `json:"lvl"`
	Tid  string  `json:"tid"`
	Sid  string  `json:"sid"`
	Pid  string  `json:"pid"`
	Dig  string  `json:"dig"`
}

// Group is a metric. Spans and logs of a scope form a single group
type Group struct {
	K    string `json:"k"` // identity
	Name string `json:"name"`
	Recs []Rec  `json:"recs"`
}

type Scope struct {
	K      string  `json:"k"`
	Schema string  `json:"schema"`
	Name   string  `json:"name"`
	Ver    string  `json:"ver"`
	A      []kv    `json:"a"`
	Dig    string  `json:"dig"`
	G      []Group `json:"g"`
}

type Res struct {
	K      string  `json:"k"`
	Schema string  `json:"schema"`
	A      []kv    `json:"a"`
	Dig    string  `json:"dig"`
	S      []Scope `json:"s"`
}

type Doc struct {
	Sig int   `json:"sig"` // 1 metrics, 2 traces, 3 logs, 0 none
	R   []Res `json:"r"`
}

const uidKey = "uid"

func attrs(ls []*cv1.KeyValue) []kv {
	o := []kv{}
	for _, a := range ls {
		if e, ok := a.GetValue().GetValue().(*cv1.AnyValue_StringValue); ok {
			o = append(o, kv{a.Key, e.StringValue})
		}
	}
	return o
}

func uidOf(ls []*cv1.KeyValue) int {
	for _, a := range ls {
		if a.Key == uidKey {
			return int(a.GetValue().GetIntValue())
		}
	}
	return -1
}

// identity is a digest over everything that tells two resources (scopes, metrics) apart
func resKey(schema string, r *rv1.Resource) string {
	return digest(&rv1.Resource{Attributes: append([]*cv1.KeyValue{str("", schema)}, r.GetAttributes()...)})
}

func scopeKey(schema string, s *cv1.InstrumentationScope) string {
	return digest(&cv1.InstrumentationScope{Name: s.GetName(), Version: s.GetVersion(),
		Attributes: append([]*cv1.KeyValue{str("", schema)}, s.GetAttributes()...)})
}

func str(k, v string) *cv1.KeyValue {
	return &cv1.KeyValue{Key: k, Value: &cv1.AnyValue{Value: &cv1.AnyValue_StringValue{StringValue: v}}}
}

func num(k string, v int64) *cv1.KeyValue {
	return &cv1.KeyValue{Key: k, Value: &cv1.AnyValue{Value: &cv1.AnyValue_IntValue{IntValue: v}}}
}

func headOf(m *mv1.Metric) *mv1.Metric {
	h := &mv1.Metric{Name: m.Name, Description: m.Description, Unit: m.Unit, Metadata: m.Metadata}
	switch e := m.Data.(type) {
	case *mv1.Metric_Gauge:
		h.Data = &mv1.Metric_Gauge{Gauge: &mv1.Gauge{}}
	case *mv1.Metric_Sum:
		h.Data = &mv1.Metric_Sum{Sum: &mv1.Sum{AggregationTemporality: e.Sum.AggregationTemporality, IsMonotonic: e.Sum.IsMonotonic}}
	case *mv1.Metric_Histogram:
		h.Data = &mv1.Metric_Histogram{Histogram: &mv1.Histogram{AggregationTemporality: e.Histogram.AggregationTemporality}}
	case *mv1.Metric_ExponentialHistogram:
		h.Data = &mv1.Metric_ExponentialHistogram{ExponentialHistogram: &mv1.ExponentialHistogram{AggregationTemporality: e.ExponentialHistogram.AggregationTemporality}}
	case *mv1.Metric_Summary:
		h.Data = &mv1.Metric_Summary{Summary: &mv1.Summary{}}
	}
	return h
}

func rawDigest(m proto.Message) string {
	// the kind of a metric without points must count, so this one is not normalised
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	check(err)
	return hex.EncodeToString(sum(b))
}

type point interface {
	proto.Message
	GetTimeUnixNano() uint64
	GetAttributes() []*cv1.KeyValue
}

func points(m *mv1.Metric) (o []point) {
	switch e := m.Data.(type) {
	case *mv1.Metric_Gauge:
		for _, p := range e.Gauge.DataPoints {
			o = append(o, p)
		}
	case *mv1.Metric_Sum:
		for _, p := range e.Sum.DataPoints {
			o = append(o, p)
		}
	case *mv1.Metric_Histogram:
		for _, p := range e.Histogram.DataPoints {
			o = append(o, p)
		}
	case *mv1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.DataPoints {
			o = append(o, p)
		}
	case *mv1.Metric_Summary:
		for _, p := range e.Summary.DataPoints {
			o = append(o, p)
		}
	}
	return
}

func project(d *v1.Data) Doc {
	o := Doc{R: []Res{}}
	if d == nil {
		return o
	}
	scopeOf := func(schema string, s *cv1.InstrumentationScope) Scope {
		return Scope{K: scopeKey(schema, s), Schema: schema, Name: s.GetName(), Ver: s.GetVersion(),
			A: attrs(s.GetAttributes()), Dig: digest(s), G: []Group{}}
	}
	resOf := func(schema string, r *rv1.Resource) Res {
		return Res{K: resKey(schema, r), Schema: schema, A: attrs(r.GetAttributes()), Dig: digest(r), S: []Scope{}}
	}
	switch e := d.Data.(type) {
	case *v1.Data_Metrics:
		o.Sig = 1
		for _, rm := range e.Metrics.GetResourceMetrics() {
			r := resOf(rm.SchemaUrl, rm.Resource)
			for _, sm := range rm.ScopeMetrics {
				s := scopeOf(sm.SchemaUrl, sm.Scope)
				for _, m := range sm.Metrics {
					g := Group{K: rawDigest(headOf(m)), Name: m.Name, Recs: []Rec{}}
					for _, p := range points(m) {
						g.Recs = append(g.Recs, Rec{U: uidOf(p.GetAttributes()), T: fromNano(p.GetTimeUnixNano()),
							A: attrs(p.GetAttributes()), Dig: digest(p)})
					}
					s.G = append(s.G, g)
				}
				r.S = append(r.S, s)
			}
			o.R = append(o.R, r)
		}
	case *v1.Data_Traces:
		o.Sig = 2
		for _, rm := range e.Traces.GetResourceSpans() {
			r := resOf(rm.SchemaUrl, rm.Resource)
			for _, sm := range rm.ScopeSpans {
				s := scopeOf(sm.SchemaUrl, sm.Scope)
				g := Group{Recs: []Rec{}}
				for _, p := range sm.Spans {
					g.Recs = append(g.Recs, Rec{U: uidOf(p.Attributes), T: fromNano(p.StartTimeUnixNano),
						A: attrs(p.Attributes), Name: p.Name, Tid: hex.EncodeToString(p.TraceId),
						Sid: hex.EncodeToString(p.SpanId), Pid: hex.EncodeToString(p.ParentSpanId), Dig: digest(p)})
				}
				s.G = append(s.G, g)
				r.S = append(r.S, s)
			}
			o.R = append(o.R, r)
		}
	case *v1.Data_Logs:
		o.Sig = 3
		for _, rm := range e.Logs.GetResourceLogs() {
			r := resOf(rm.SchemaUrl, rm.Resource)
			for _, sm := range rm.ScopeLogs {
				s := scopeOf(sm.SchemaUrl, sm.Scope)
				g := Group{Recs: []Rec{}}
				for _, p := range sm.LogRecords {
					g.Recs = append(g.Recs, Rec{U: uidOf(p.Attributes), T: fromNano(p.TimeUnixNano),
						A: attrs(p.Attributes), Lvl: p.SeverityText, Tid: hex.EncodeToString(p.TraceId),
						Sid: hex.EncodeToString(p.SpanId), Dig: digest(p)})
				}
				s.G = append(s.G, g)
				r.S = append(r.S, s)
			}
			o.R = append(o.R, r)
		}
	}
	return o
}

// ---- generation

// vocabulary is small, so that samples share labels, and spiteful, so that labels
// which are spelled alike meet.
var (
	keys    = []string{"a", "b", "a=b", `a\`, "service.name", "k é", "", "A", " a"}
	vals    = []string{"x", "y", "X", "x ", "x=y", "=x", "1", "true", "", "b=x", `\=x`}
	schemas = []string{"", "s1", "s2", "x", "S1"}
	scNames = []string{"", "sc1", "sc2", "x", "SC1"}
	scVers  = []string{"", "v1", "x", "V1"}
	mNames  = []string{"m1", "m2", "x", "m1=x", "", "m1d", "M1"}
	levels  = []string{"", "INFO", "ERROR", "x", "info"}
	units   = []string{"", "ns", "By"}
	descs   = []string{"", "d1", "1", "d1ns"}
	idBytes = [][]byte{nil, {1, 2}, {0xab, 0xcd, 0xef}, {0x0a}, {1, 2, 3, 4, 5, 6, 7, 8}}
)

// wideVals are texts that are hard to carry: long ones, some of which only differ at
// their end, and ones that look like something else.
var (
	wideVals = append([]string{"1:2:x", "3:7:a=x", "%s%d%!", "line\nbreak\ttab\"quote'", "\x00", "a\x00b", "日本語", "ünïcödé", "\u2028", "0", "-1", "null", "[]", "<nil>",
		"=", `\`, `\\`, `a\`, "std_2024", "a,b;c d", " ", " x", "x "}, longVals...)
	wideKeys = append([]string{"1", "7:a", "%d", "日本", "\x00", "\n", " ", "a ", "A", "x", strings.Repeat("key", 30)}, longVals[:4]...)
	longVals = []string{
		strings.Repeat("m", 300) + "P", strings.Repeat("m", 300) + "Q",
		strings.Repeat("n", 4100) + "P", strings.Repeat("n", 4100) + "Q",
		strings.Repeat("o", 64980) + "P", strings.Repeat("o", 64990) + "Q",
		strings.Repeat("q", 70000) + "P", strings.Repeat("q", 70000) + "Q", strings.Repeat("q", 69999) + "PP",
	}
	longNames = []string{"<m300P>", "<m300Q>", "<n4100P>", "<n4100Q>", "<o64980P>", "<o64990Q>", "<q70000P>", "<q70000Q>", "<q69999PP>"}
)

// pairs of texts that are taken for each other by code which compares them carelessly
var (
	longPairs = [][2]string{{longVals[0], longVals[1]}, {longVals[0], longVals[1]}, {longVals[2], longVals[3]}, {longVals[2], longVals[3]},
		{longVals[4], longVals[5]}, {longVals[6], longVals[7]}, {longVals[7], longVals[8]}}
	likePairs = [][2]string{{"x", " x"}, {"x", "x "}, {"x", "X"}, {"x", "x\n"}, {"info", "INFO"}, {"Get", "GET"}, {"1", "01"}, {"1", "1.0"}, {"é", "e\u0301"},
		{"a/b", "a//b"}, {"x", "x/"}, {"a.b", "a_b"}, {"x", "\"x\""}, {"x", "x\x00"}, {"x,y", "x"}, {"ſ", "s"}, {"a b", "a  b"}, {"-", "_"}, {"%20", " "}, {"", " "}, {"*", "x"}, {"ß", "ss"}}
)

const shortest = 300

// Gen makes payloads
type Gen struct {
	*rng
	uid     int
	times   []ts     // candidate timestamps
	rich    bool     // fill every field
	noNil   bool     // attributes always have a value message
	dups    bool     // allow one payload to repeat an identity
	small   bool     // few records
	near    bool     // identities resemble earlier ones
	wide    bool     // texts that are hard to carry
	many    bool     // now and then a lot of attributes
	fav     []string // texts that are met often
	ident   []ident
	one     bool // near: all records have one owner
	plain   bool // little around the records
	long    bool // now and then many records in one place
	streams []stream
	sig     int // of the payload being made
}

func (g *Gen) time() uint64 {
	if g.chance(6) {
		return 0
	}
	return pick(g.rng, g.times).Nano()
}

// favour makes two pairs of alike texts common
func (g *Gen) favour() {
	a, b := pick(g.rng, longPairs), pick(g.rng, likePairs)
	g.fav = []string{a[0], a[1], b[0], b[1]}
}

func (g *Gen) val() string {
	if g.fav != nil && g.chance(12) {
		return pick(g.rng, g.fav)
	}
	if g.wide && g.chance(12) {
		return pick(g.rng, wideVals)
	}
	return pick(g.rng, vals)
}

func (g *Gen) key() string {
	if g.fav != nil && g.chance(6) {
		return pick(g.rng, g.fav)
	}
	if g.wide && g.chance(12) {
		return pick(g.rng, wideKeys)
	}
	return pick(g.rng, keys)
}

// text of a property that has a small vocabulary otherwise
func (g *Gen) text(ls []string) string {
	if g.fav != nil && g.chance(15) {
		return pick(g.rng, g.fav)
	}
	if g.wide && g.chance(5) {
		return pick(g.rng, wideVals)
	}
	return pick(g.rng, ls)
}

func (g *Gen) any(depth int) *cv1.AnyValue {
	switch g.Intn(9) {
	case 0:
		return &cv1.AnyValue{Value: &cv1.AnyValue_BoolValue{BoolValue: g.chance(50)}}
	case 1:
		return &cv1.AnyValue{Value: &cv1.AnyValue_IntValue{IntValue: g.Int63() - g.Int63()}}
	case 2:
		return &cv1.AnyValue{Value: &cv1.AnyValue_DoubleValue{DoubleValue: pick(g.rng, floats)}}
	case 3:
		return &cv1.AnyValue{Value: &cv1.AnyValue_BytesValue{BytesValue: g.bytes()}}
	case 4:
		if depth > 0 {
			a := &cv1.ArrayValue{}
			for i := g.Intn(3); i >= 0; i-- {
				a.Values = append(a.Values, g.any(depth-1))
			}
			return &cv1.AnyValue{Value: &cv1.AnyValue_ArrayValue{ArrayValue: a}}
		}
	case 5:
		if depth > 0 {
			a := &cv1.KeyValueList{}
			for i := g.Intn(3); i >= 0; i-- {
				a.Values = append(a.Values, &cv1.KeyValue{Key: g.key(), Value: g.any(depth - 1)})
			}
			return &cv1.AnyValue{Value: &cv1.AnyValue_KvlistValue{KvlistValue: a}}
		}
	case 6:
		return &cv1.AnyValue{}
	case 7:
		if !g.noNil {
			return nil
		}
	}
	return &cv1.AnyValue{Value: &cv1.AnyValue_StringValue{StringValue: g.val()}}
}

var floats = []float64{0, 1, -1.5, math.Inf(1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.NaN(), 1e-9, 3.14159}

func (g *Gen) bytes() []byte {
	b := make([]byte, 1+g.Intn(20))
	g.Read(b)
	return b
}

func (g *Gen) attrs(max int) (o []*cv1.KeyValue) {
	n := g.Intn(max + 1)
	if g.plain && g.chance(80) {
		return
	}
	if g.many && max == 2 && g.chance(3) {
		for i := 10 + g.Intn(150); i > 0; i-- {
			o = append(o, str("k"+itoa(g.Intn(400)), g.val()))
		}
	}
	for i := n; i > 0; i-- {
		k := g.key()
		if g.chance(70) {
			o = append(o, str(k, g.val()))
		} else {
			o = append(o, &cv1.KeyValue{Key: k, Value: g.any(2)})
		}
	}
	return
}

// identAttrs are part of an identity, there is only one way to spell them
func (g *Gen) identAttrs(max int) []*cv1.KeyValue {
	g.noNil = true
	defer func() { g.noNil = false }()
	return g.attrs(max)
}

// recAttrs carry the unique number of the record
func (g *Gen) recAttrs() []*cv1.KeyValue {
	o := g.attrs(2)
	if g.sig != 0 && g.chance(6) {
		o = append(o, str("kk", pick(g.rng, likeVals[g.sig])))
	}
	g.uid++
	i := g.Intn(len(o) + 1)
	return append(o[:i:i], append([]*cv1.KeyValue{num(uidKey, int64(g.uid))}, o[i:]...)...)
}

func (g *Gen) name() string {
	if g.chance(5) {
		return pick(g.rng, likeNames)
	}
	return g.text(mNames)
}

func (g *Gen) resource() (string, *rv1.Resource) {
	if g.near {
		i := g.nearIdent(func() ident { return ident{schema: g.text(schemas), attrs: g.identAttrs(2)} })
		return i.resource()
	}
	if g.plain && g.chance(80) {
		return "", nil
	}
	if g.chance(10) {
		return g.text(schemas), nil
	}
	r := &rv1.Resource{Attributes: g.identAttrs(2)}
	// not part of the identity, so it has to be a function of it
	r.DroppedAttributesCount = uint32(len(r.Attributes))
	return g.text(schemas), r
}

func (g *Gen) scope() (string, *cv1.InstrumentationScope) {
	if g.near {
		i := g.nearIdent(func() ident {
			return ident{schema: g.text(schemas), name: g.text(scNames), ver: g.text(scVers), attrs: g.identAttrs(2)}
		})
		return i.scope()
	}
	if g.plain && g.chance(80) {
		return "", nil
	}
	if g.chance(10) {
		return g.text(schemas), nil
	}
	s := &cv1.InstrumentationScope{Name: g.text(scNames), Version: g.text(scVers)}
	if g.chance(40) {
		s.Attributes = g.identAttrs(2)
	}
	if s.Name == "" && s.Version == "" && len(s.Attributes) == 0 {
		// an empty scope is the same as none
		return g.text(schemas), nil
	}
	s.DroppedAttributesCount = uint32(len(s.Attributes))
	return g.text(schemas), s
}

func (g *Gen) count() int {
	if g.plain {
		return 1
	}
	if g.small {
		return 1 + g.Intn(2)
	}
	return g.Intn(4)
}

// often is n, or rarely a larger number
func (g *Gen) often(n int) int {
	if g.long && g.chance(10) {
		return 4 + g.Intn(9)
	}
	return n
}

func (g *Gen) u32() uint32 {
	if g.chance(50) {
		return 0
	}
	return g.Uint32()
}

func (g *Gen) u64() uint64 {
	switch g.Intn(4) {
	case 0:
		return 0
	case 1:
		return g.Uint64()
	}
	return uint64(g.Intn(100))
}

func (g *Gen) exemplars() (o []*mv1.Exemplar) {
	if !g.rich {
		return
	}
	for i := g.Intn(3); i > 0; i-- {
		e := &mv1.Exemplar{TimeUnixNano: g.u64(), SpanId: pick(g.rng, idBytes), TraceId: pick(g.rng, idBytes), FilteredAttributes: g.attrs(2)}
		switch g.Intn(3) {
		case 0:
			e.Value = &mv1.Exemplar_AsDouble{AsDouble: pick(g.rng, floats)}
		case 1:
			e.Value = &mv1.Exemplar_AsInt{AsInt: int64(g.u64())}
		}
		o = append(o, e)
	}
	return
}

func (g *Gen) number() *mv1.NumberDataPoint {
	p := &mv1.NumberDataPoint{Attributes: g.recAttrs(), TimeUnixNano: g.time(), Exemplars: g.exemplars()}
	if g.rich {
		p.StartTimeUnixNano, p.Flags = g.u64(), g.u32()
	}
	switch g.Intn(5) {
	case 0:
	case 1, 2:
		p.Value = &mv1.NumberDataPoint_AsDouble{AsDouble: pick(g.rng, floats)}
	default:
		p.Value = &mv1.NumberDataPoint_AsInt{AsInt: int64(g.Intn(5) - 2)}
	}
	return p
}

func (g *Gen) optFloat() *float64 {
	if g.chance(30) {
		return nil
	}
	f := pick(g.rng, floats)
	return &f
}

func (g *Gen) u64s() (o []uint64) {
	for i := g.Intn(4); i > 0; i-- {
		o = append(o, g.u64())
	}
	return
}

func (g *Gen) f64s() (o []float64) {
	for i := g.Intn(4); i > 0; i-- {
		o = append(o, pick(g.rng, floats))
	}
	return
}

func (g *Gen) buckets() *mv1.ExponentialHistogramDataPoint_Buckets {
	if g.chance(30) {
		return nil
	}
	return &mv1.ExponentialHistogramDataPoint_Buckets{Offset: int32(g.Intn(9) - 4), BucketCounts: g.u64s()}
}

// stream is the identity of a metric
type stream struct {
	name, desc, unit string
	kind             int
	temp             mv1.AggregationTemporality
	mono             bool
}

func (g *Gen) stream() stream {
	s := stream{g.name(), g.text(descs), g.text(units), g.Intn(11), mv1.AggregationTemporality(g.Intn(3)), g.chance(50)}
	if !g.near {
		return s
	}
	if len(g.streams) > 0 && g.chance(70) {
		// differs in one thing from another
		o := pick(g.rng, g.streams)
		switch g.Intn(9) {
		case 8:
			for _, t := range []*string{&o.name, &o.desc, &o.unit} {
				if k := slices.Index(g.fav, *t); k >= 0 {
					*t = g.fav[k^1]
				}
			}
		case 0:
			o.name = s.name
		case 1:
			o.desc = s.desc
		case 2:
			o.unit = s.unit
		case 3:
			o.kind = s.kind
		case 4:
			o.temp = s.temp
		case 5:
			o.mono = s.mono
		case 6:
			o.name, o.desc = o.desc, o.name
		case 7:
			if n := len(o.desc); n > 0 && o.desc[n-1] < 128 {
				o.desc, o.unit = o.desc[:n-1], o.desc[n-1:]+o.unit
			}
		}
		s = o
	}
	g.streams = append(g.streams, s)
	return s
}

func (g *Gen) metric() *mv1.Metric {
	s := g.stream()
	m := &mv1.Metric{Name: s.name, Description: s.desc, Unit: s.unit}
	tmp, kind := s.temp, s.kind
	n := g.often(1 + g.Intn(2))
	if g.chance(5) {
		n = 0
	}
	switch {
	case kind < 3:
		e := &mv1.Gauge{}
		for ; n > 0; n-- {
			e.DataPoints = append(e.DataPoints, g.number())
		}
		m.Data = &mv1.Metric_Gauge{Gauge: e}
	case kind < 6:
		e := &mv1.Sum{AggregationTemporality: tmp, IsMonotonic: s.mono}
		for ; n > 0; n-- {
			e.DataPoints = append(e.DataPoints, g.number())
		}
		m.Data = &mv1.Metric_Sum{Sum: e}
	case kind < 8:
		e := &mv1.Histogram{AggregationTemporality: tmp}
		for ; n > 0; n-- {
			p := &mv1.HistogramDataPoint{Attributes: g.recAttrs(), TimeUnixNano: g.time(), Count: g.u64(), Sum: g.optFloat()}
			if g.rich {
				p.StartTimeUnixNano, p.Flags, p.Exemplars = g.u64(), g.u32(), g.exemplars()
				p.BucketCounts, p.ExplicitBounds, p.Min, p.Max = g.u64s(), g.f64s(), g.optFloat(), g.optFloat()
			}
			e.DataPoints = append(e.DataPoints, p)
		}
		m.Data = &mv1.Metric_Histogram{Histogram: e}
	case kind < 9:
		e := &mv1.ExponentialHistogram{AggregationTemporality: tmp}
		for ; n > 0; n-- {
			p := &mv1.ExponentialHistogramDataPoint{Attributes: g.recAttrs(), TimeUnixNano: g.time(), Count: g.u64(), Sum: g.optFloat()}
			if g.rich {
				p.StartTimeUnixNano, p.Flags, p.Exemplars = g.u64(), g.u32(), g.exemplars()
				p.Scale, p.ZeroCount, p.ZeroThreshold = int32(g.Intn(9)-4), g.u64(), pick(g.rng, floats)
				p.Positive, p.Negative, p.Min, p.Max = g.buckets(), g.buckets(), g.optFloat(), g.optFloat()
			}
			e.DataPoints = append(e.DataPoints, p)
		}
		m.Data = &mv1.Metric_ExponentialHistogram{ExponentialHistogram: e}
	case kind < 10:
		e := &mv1.Summary{}
		for ; n > 0; n-- {
			p := &mv1.SummaryDataPoint{Attributes: g.recAttrs(), TimeUnixNano: g.time(), Count: g.u64(), Sum: pick(g.rng, floats)}
			if g.rich {
				p.StartTimeUnixNano, p.Flags = g.u64(), g.u32()
				for i := g.Intn(3); i > 0; i-- {
					p.QuantileValues = append(p.QuantileValues, &mv1.SummaryDataPoint_ValueAtQuantile{
						Quantile: pick(g.rng, floats), Value: pick(g.rng, floats)})
				}
			}
			e.DataPoints = append(e.DataPoints, p)
		}
		m.Data = &mv1.Metric_Summary{Summary: e}
	default:
		// no data at all
		if !g.chance(30) {
			m.Data = &mv1.Metric_Gauge{Gauge: &mv1.Gauge{DataPoints: []*mv1.NumberDataPoint{g.number()}}}
		}
	}
	// not part of the identity, so it has to be a function of it
	if g.rich && m.Name == "m2" {
		m.Metadata = []*cv1.KeyValue{str("meta", m.Unit)}
	}
	return m
}

func (g *Gen) span() *tv1.Span {
	p := &tv1.Span{Name: g.name(), TraceId: pick(g.rng, idBytes), SpanId: pick(g.rng, idBytes),
		ParentSpanId: pick(g.rng, idBytes), Attributes: g.recAttrs(), StartTimeUnixNano: g.time()}
	if g.chance(80) {
		p.EndTimeUnixNano = p.StartTimeUnixNano + uint64(g.Intn(3))*1e9
	}
	if g.rich {
		p.TraceState, p.Flags, p.Kind = g.val(), g.u32(), tv1.Span_SpanKind(g.Intn(6))
		p.DroppedAttributesCount, p.DroppedEventsCount, p.DroppedLinksCount = g.u32(), g.u32(), g.u32()
		for i := g.Intn(3); i > 0; i-- {
			p.Events = append(p.Events, &tv1.Span_Event{TimeUnixNano: g.u64(), Name: g.name(),
				Attributes: g.attrs(2), DroppedAttributesCount: g.u32()})
		}
		for i := g.Intn(3); i > 0; i-- {
			p.Links = append(p.Links, &tv1.Span_Link{TraceId: pick(g.rng, idBytes), SpanId: pick(g.rng, idBytes),
				TraceState: g.val(), Attributes: g.attrs(2), DroppedAttributesCount: g.u32(), Flags: g.u32()})
		}
		if g.chance(60) {
			p.Status = &tv1.Status{Message: g.val(), Code: tv1.Status_StatusCode(g.Intn(3))}
		}
	}
	return p
}

func (g *Gen) log() *lv1.LogRecord {
	p := &lv1.LogRecord{SeverityText: g.text(levels), TraceId: pick(g.rng, idBytes), SpanId: pick(g.rng, idBytes),
		Attributes: g.recAttrs(), TimeUnixNano: g.time()}
	if g.chance(70) {
		p.Body = g.any(2)
	}
	if g.rich {
		p.ObservedTimeUnixNano, p.Flags, p.DroppedAttributesCount = g.u64(), g.u32(), g.u32()
		p.SeverityNumber = lv1.SeverityNumber(g.Intn(25))
	}
	return p
}

func (g *Gen) Data(sig int) *v1.Data {
	nr := g.count()
	g.sig = sig
	switch sig {
	case 1:
		o := &mv1.MetricsData{}
		seen := map[string]bool{}
		for ; nr > 0; nr-- {
			rm := &mv1.ResourceMetrics{}
			rm.SchemaUrl, rm.Resource = g.resource()
			if !g.fresh(seen, resKey(rm.SchemaUrl, rm.Resource)) {
				continue
			}
			seenS := map[string]bool{}
			for ns := g.often(g.count()); ns > 0; ns-- {
				sm := &mv1.ScopeMetrics{}
				sm.SchemaUrl, sm.Scope = g.scope()
				if !g.fresh(seenS, scopeKey(sm.SchemaUrl, sm.Scope)) {
					continue
				}
				seenM := map[string]bool{}
				for nm := g.often(g.count()); nm > 0; nm-- {
					m := g.metric()
					if g.fresh(seenM, rawDigest(headOf(m))) {
						sm.Metrics = append(sm.Metrics, m)
					}
				}
				rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
			}
			o.ResourceMetrics = append(o.ResourceMetrics, rm)
		}
		return &v1.Data{Data: &v1.Data_Metrics{Metrics: o}}
	case 2:
		o := &tv1.TracesData{}
		seen := map[string]bool{}
		for ; nr > 0; nr-- {
			rm := &tv1.ResourceSpans{}
			rm.SchemaUrl, rm.Resource = g.resource()
			if !g.fresh(seen, resKey(rm.SchemaUrl, rm.Resource)) {
				continue
			}
			seenS := map[string]bool{}
			for ns := g.often(g.count()); ns > 0; ns-- {
				sm := &tv1.ScopeSpans{}
				sm.SchemaUrl, sm.Scope = g.scope()
				if !g.fresh(seenS, scopeKey(sm.SchemaUrl, sm.Scope)) {
					continue
				}
				for nm := g.often(g.count()); nm > 0; nm-- {
					sm.Spans = append(sm.Spans, g.span())
				}
				rm.ScopeSpans = append(rm.ScopeSpans, sm)
			}
			o.ResourceSpans = append(o.ResourceSpans, rm)
		}
		return &v1.Data{Data: &v1.Data_Traces{Traces: o}}
	default:
		o := &lv1.LogsData{}
		seen := map[string]bool{}
		for ; nr > 0; nr-- {
			rm := &lv1.ResourceLogs{}
			rm.SchemaUrl, rm.Resource = g.resource()
			if !g.fresh(seen, resKey(rm.SchemaUrl, rm.Resource)) {
				continue
			}
			seenS := map[string]bool{}
			for ns := g.often(g.count()); ns > 0; ns-- {
				sm := &lv1.ScopeLogs{}
				sm.SchemaUrl, sm.Scope = g.scope()
				if !g.fresh(seenS, scopeKey(sm.SchemaUrl, sm.Scope)) {
					continue
				}
				for nm := g.often(g.count()); nm > 0; nm-- {
					sm.LogRecords = append(sm.LogRecords, g.log())
				}
				rm.ScopeLogs = append(rm.ScopeLogs, sm)
			}
			o.ResourceLogs = append(o.ResourceLogs, rm)
		}
		return &v1.Data{Data: &v1.Data_Logs{Logs: o}}
	}
}

func (g *Gen) fresh(seen map[string]bool, k string) bool {
	if g.dups {
		return true
	}
	if seen[k] {
		return false
	}
	seen[k] = true
	return true
}
