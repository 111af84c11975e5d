package main

import (
	"context"
	"encoding/hex"
	"errors"
	"flag"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/self"
	"go.opentelemetry.io/otel"
	"go.opentelemetry.io/otel/attribute"
	"go.opentelemetry.io/otel/codes"
	"go.opentelemetry.io/otel/sdk/instrumentation"
	"go.opentelemetry.io/otel/sdk/metric/metricdata"
	"go.opentelemetry.io/otel/sdk/resource"
	tracesdk "go.opentelemetry.io/otel/sdk/trace"
	"go.opentelemetry.io/otel/sdk/trace/tracetest"
	"go.opentelemetry.io/otel/trace"
	collector_metrics "go.opentelemetry.io/proto/otlp/collector/metrics/v1"
	collector_trace "go.opentelemetry.io/proto/otlp/collector/trace/v1"
	cv1 "go.opentelemetry.io/proto/otlp/common/v1"
	mv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	tv1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
)

// self scenario: what the SDK hands to the exporters of the server, and what these hand to
// its collectors.

// ---- what goes in, as terms

func fl(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func sdkTime(t time.Time) []int64 {
	if t.IsZero() {
		return []int64{}
	}
	x := fromTime(t)
	return x[:]
}

func sdkAttrs(ls []attribute.KeyValue) []obj {
	o := []obj{}
	for _, kv := range ls {
		vs := []string{}
		switch kv.Value.Type() {
		case attribute.BOOL:
			vs = append(vs, fmt.Sprint(kv.Value.AsBool()))
		case attribute.INT64:
			vs = append(vs, fmt.Sprint(kv.Value.AsInt64()))
		case attribute.FLOAT64:
			vs = append(vs, fl(kv.Value.AsFloat64()))
		case attribute.STRING:
			vs = append(vs, kv.Value.AsString())
		case attribute.BOOLSLICE:
			for _, x := range kv.Value.AsBoolSlice() {
				vs = append(vs, fmt.Sprint(x))
			}
		case attribute.INT64SLICE:
			for _, x := range kv.Value.AsInt64Slice() {
				vs = append(vs, fmt.Sprint(x))
			}
		case attribute.FLOAT64SLICE:
			for _, x := range kv.Value.AsFloat64Slice() {
				vs = append(vs, fl(x))
			}
		case attribute.STRINGSLICE:
			vs = append(vs, kv.Value.AsStringSlice()...)
		}
		o = append(o, obj{"k": string(kv.Key), "t": kv.Value.Type().String(), "v": vs})
	}
	return o
}

func sdkNumber[N int64 | float64](n N) (string, string) {
	switch x := any(n).(type) {
	case int64:
		return "int", fmt.Sprint(x)
	default:
		return "dbl", fl(any(n).(float64))
	}
}

func sdkExemplars[N int64 | float64](ls []metricdata.Exemplar[N]) []obj {
	o := []obj{}
	for _, x := range ls {
		k, v := sdkNumber(x.Value)
		o = append(o, obj{"a": sdkAttrs(x.FilteredAttributes), "t": sdkTime(x.Time), "k": k, "v": v, "tid": hex.EncodeToString(x.TraceID), "sid": hex.EncodeToString(x.SpanID)})
	}
	return o
}

func sdkExtreme[N int64 | float64](x metricdata.Extrema[N]) []string {
	if v, ok := x.Value(); ok {
		return []string{fl(float64(v))}
	}
	return []string{}
}

func texts[T any](ls []T) []string {
	o := []string{}
	for _, x := range ls {
		switch v := any(x).(type) {
		case float64:
			o = append(o, fl(v))
		default:
			o = append(o, fmt.Sprint(v))
		}
	}
	return o
}

func sdkPoints[N int64 | float64](ls []metricdata.DataPoint[N]) []obj {
	o := []obj{}
	for _, p := range ls {
		k, v := sdkNumber(p.Value)
		o = append(o, obj{"a": sdkAttrs(p.Attributes.ToSlice()), "st": sdkTime(p.StartTime), "t": sdkTime(p.Time), "k": k, "v": v, "ex": sdkExemplars(p.Exemplars)})
	}
	return o
}

func sdkHist[N int64 | float64](ls []metricdata.HistogramDataPoint[N]) []obj {
	o := []obj{}
	for _, p := range ls {
		o = append(o, obj{"a": sdkAttrs(p.Attributes.ToSlice()), "st": sdkTime(p.StartTime), "t": sdkTime(p.Time), "ex": sdkExemplars(p.Exemplars),
			"count": fmt.Sprint(p.Count), "sum": fl(float64(p.Sum)), "min": sdkExtreme(p.Min), "max": sdkExtreme(p.Max), "bounds": texts(p.Bounds), "counts": texts(p.BucketCounts)})
	}
	return o
}

func sdkExp[N int64 | float64](ls []metricdata.ExponentialHistogramDataPoint[N]) []obj {
	o := []obj{}
	for _, p := range ls {
		o = append(o, obj{"a": sdkAttrs(p.Attributes.ToSlice()), "st": sdkTime(p.StartTime), "t": sdkTime(p.Time), "ex": sdkExemplars(p.Exemplars),
			"count": fmt.Sprint(p.Count), "sum": fl(float64(p.Sum)), "min": sdkExtreme(p.Min), "max": sdkExtreme(p.Max),
			"scale": p.Scale, "zero": fmt.Sprint(p.ZeroCount), "pos": obj{"off": p.PositiveBucket.Offset, "counts": texts(p.PositiveBucket.Counts)},
			"neg": obj{"off": p.NegativeBucket.Offset, "counts": texts(p.NegativeBucket.Counts)}})
	}
	return o
}

func sdkMetric(m metricdata.Metrics) obj {
	o := obj{"name": m.Name, "desc": m.Description, "unit": m.Unit}
	set := func(kind string, temp metricdata.Temporality, mono bool, pts []obj) {
		o["kind"], o["temp"], o["mono"], o["pts"] = kind, temp.String(), mono, pts
	}
	switch a := m.Data.(type) {
	case metricdata.Gauge[int64]:
		set("gauge", 0, false, sdkPoints(a.DataPoints))
	case metricdata.Gauge[float64]:
		set("gauge", 0, false, sdkPoints(a.DataPoints))
	case metricdata.Sum[int64]:
		set("sum", a.Temporality, a.IsMonotonic, sdkPoints(a.DataPoints))
	case metricdata.Sum[float64]:
		set("sum", a.Temporality, a.IsMonotonic, sdkPoints(a.DataPoints))
	case metricdata.Histogram[int64]:
		set("hist", a.Temporality, false, sdkHist(a.DataPoints))
	case metricdata.Histogram[float64]:
		set("hist", a.Temporality, false, sdkHist(a.DataPoints))
	case metricdata.ExponentialHistogram[int64]:
		set("exp", a.Temporality, false, sdkExp(a.DataPoints))
	case metricdata.ExponentialHistogram[float64]:
		set("exp", a.Temporality, false, sdkExp(a.DataPoints))
	case metricdata.Summary:
		pts := []obj{}
		for _, p := range a.DataPoints {
			qs := []obj{}
			for _, q := range p.QuantileValues {
				qs = append(qs, obj{"q": fl(q.Quantile), "v": fl(q.Value)})
			}
			pts = append(pts, obj{"a": sdkAttrs(p.Attributes.ToSlice()), "st": sdkTime(p.StartTime), "t": sdkTime(p.Time), "count": fmt.Sprint(p.Count), "sum": fl(p.Sum), "qs": qs})
		}
		set("summary", 0, false, pts)
	}
	return o
}

func sdkSpan(s tracesdk.ReadOnlySpan) obj {
	ev, ln := []obj{}, []obj{}
	for _, e := range s.Events() {
		ev = append(ev, obj{"name": e.Name, "t": sdkTime(e.Time), "a": sdkAttrs(e.Attributes), "drop": e.DroppedAttributeCount})
	}
	for _, l := range s.Links() {
		ln = append(ln, obj{"tid": l.SpanContext.TraceID().String(), "sid": l.SpanContext.SpanID().String(), "a": sdkAttrs(l.Attributes), "drop": l.DroppedAttributeCount})
	}
	return obj{"name": s.Name(), "tid": s.SpanContext().TraceID().String(), "sid": s.SpanContext().SpanID().String(), "state": s.SpanContext().TraceState().String(),
		"pid": s.Parent().SpanID().String(), "kind": s.SpanKind().String(), "st": sdkTime(s.StartTime()), "et": sdkTime(s.EndTime()), "a": sdkAttrs(s.Attributes()),
		"code": s.Status().Code.String(), "msg": s.Status().Description, "ev": ev, "ln": ln, "da": s.DroppedAttributes(), "de": s.DroppedEvents(), "dl": s.DroppedLinks(),
		"res": sdkAttrs(s.Resource().Attributes()), "rs": s.Resource().SchemaURL(), "sc": s.InstrumentationScope().Name, "sv": s.InstrumentationScope().Version, "ss": s.InstrumentationScope().SchemaURL}
}

// ---- what comes out

// always a list of scalars, so that any two values can be compared
func otlpAny(v *cv1.AnyValue) obj {
	if e, ok := v.GetValue().(*cv1.AnyValue_ArrayValue); ok {
		ls := []obj{}
		for _, x := range e.ArrayValue.GetValues() {
			ls = append(ls, otlpScalar(x))
		}
		return obj{"k": "arr", "v": ls}
	}
	return obj{"k": "one", "v": []obj{otlpScalar(v)}}
}

func otlpScalar(v *cv1.AnyValue) obj {
	switch e := v.GetValue().(type) {
	case *cv1.AnyValue_StringValue:
		return obj{"k": "str", "v": e.StringValue}
	case *cv1.AnyValue_BoolValue:
		return obj{"k": "bool", "v": fmt.Sprint(e.BoolValue)}
	case *cv1.AnyValue_IntValue:
		return obj{"k": "int", "v": fmt.Sprint(e.IntValue)}
	case *cv1.AnyValue_DoubleValue:
		return obj{"k": "dbl", "v": fl(e.DoubleValue)}
	}
	return obj{"k": "?", "v": fmt.Sprint(v)}
}

func otlpAttrs(ls []*cv1.KeyValue) []obj {
	o := []obj{}
	for _, kv := range ls {
		o = append(o, obj{"k": kv.Key, "v": otlpAny(kv.Value)})
	}
	return o
}

func otlpExemplars(ls []*mv1.Exemplar) []obj {
	o := []obj{}
	for _, x := range ls {
		k, v := "?", ""
		switch e := x.Value.(type) {
		case *mv1.Exemplar_AsInt:
			k, v = "int", fmt.Sprint(e.AsInt)
		case *mv1.Exemplar_AsDouble:
			k, v = "dbl", fl(e.AsDouble)
		}
		o = append(o, obj{"a": otlpAttrs(x.FilteredAttributes), "t": fromNano(x.TimeUnixNano), "k": k, "v": v, "tid": hex.EncodeToString(x.TraceId), "sid": hex.EncodeToString(x.SpanId)})
	}
	return o
}

func opt(f *float64) []string {
	if f == nil {
		return []string{}
	}
	return []string{fl(*f)}
}

func otlpMetric(m *mv1.Metric) obj {
	o := obj{"name": m.Name, "desc": m.Description, "unit": m.Unit}
	set := func(kind, temp string, mono bool, pts []obj) {
		o["kind"], o["temp"], o["mono"], o["pts"] = kind, temp, mono, pts
	}
	numbers := func(ls []*mv1.NumberDataPoint) []obj {
		pts := []obj{}
		for _, p := range ls {
			k, v := "?", ""
			switch e := p.Value.(type) {
			case *mv1.NumberDataPoint_AsInt:
				k, v = "int", fmt.Sprint(e.AsInt)
			case *mv1.NumberDataPoint_AsDouble:
				k, v = "dbl", fl(e.AsDouble)
			}
			pts = append(pts, obj{"a": otlpAttrs(p.Attributes), "st": fromNano(p.StartTimeUnixNano), "t": fromNano(p.TimeUnixNano), "k": k, "v": v, "ex": otlpExemplars(p.Exemplars)})
		}
		return pts
	}
	pts := []obj{}
	switch e := m.Data.(type) {
	case *mv1.Metric_Gauge:
		set("gauge", "", false, numbers(e.Gauge.DataPoints))
	case *mv1.Metric_Sum:
		set("sum", e.Sum.AggregationTemporality.String(), e.Sum.IsMonotonic, numbers(e.Sum.DataPoints))
	case *mv1.Metric_Histogram:
		for _, p := range e.Histogram.DataPoints {
			pts = append(pts, obj{"a": otlpAttrs(p.Attributes), "st": fromNano(p.StartTimeUnixNano), "t": fromNano(p.TimeUnixNano), "ex": otlpExemplars(p.Exemplars),
				"count": fmt.Sprint(p.Count), "sum": opt(p.Sum), "min": opt(p.Min), "max": opt(p.Max), "bounds": texts(p.ExplicitBounds), "counts": texts(p.BucketCounts)})
		}
		set("hist", e.Histogram.AggregationTemporality.String(), false, pts)
	case *mv1.Metric_ExponentialHistogram:
		for _, p := range e.ExponentialHistogram.DataPoints {
			pts = append(pts, obj{"a": otlpAttrs(p.Attributes), "st": fromNano(p.StartTimeUnixNano), "t": fromNano(p.TimeUnixNano), "ex": otlpExemplars(p.Exemplars),
				"count": fmt.Sprint(p.Count), "sum": opt(p.Sum), "min": opt(p.Min), "max": opt(p.Max), "scale": p.Scale, "zero": fmt.Sprint(p.ZeroCount),
				"pos": obj{"off": p.GetPositive().GetOffset(), "counts": texts(p.GetPositive().GetBucketCounts())},
				"neg": obj{"off": p.GetNegative().GetOffset(), "counts": texts(p.GetNegative().GetBucketCounts())}})
		}
		set("exp", e.ExponentialHistogram.AggregationTemporality.String(), false, pts)
	case *mv1.Metric_Summary:
		for _, p := range e.Summary.DataPoints {
			qs := []obj{}
			for _, q := range p.QuantileValues {
				qs = append(qs, obj{"q": fl(q.Quantile), "v": fl(q.Value)})
			}
			pts = append(pts, obj{"a": otlpAttrs(p.Attributes), "st": fromNano(p.StartTimeUnixNano), "t": fromNano(p.TimeUnixNano), "count": fmt.Sprint(p.Count), "sum": fl(p.Sum), "qs": qs})
		}
		set("summary", "", false, pts)
	default:
		set("none", "", false, pts)
	}
	return o
}

func otlpSpan(s *tv1.Span) obj {
	ev, ln := []obj{}, []obj{}
	for _, e := range s.Events {
		ev = append(ev, obj{"name": e.Name, "t": fromNano(e.TimeUnixNano), "a": otlpAttrs(e.Attributes), "drop": e.DroppedAttributesCount})
	}
	for _, l := range s.Links {
		ln = append(ln, obj{"tid": hex.EncodeToString(l.TraceId), "sid": hex.EncodeToString(l.SpanId), "a": otlpAttrs(l.Attributes), "drop": l.DroppedAttributesCount})
	}
	return obj{"name": s.Name, "tid": hex.EncodeToString(s.TraceId), "sid": hex.EncodeToString(s.SpanId), "state": s.TraceState, "pid": hex.EncodeToString(s.ParentSpanId),
		"kind": s.Kind.String(), "st": fromNano(s.StartTimeUnixNano), "et": fromNano(s.EndTimeUnixNano), "a": otlpAttrs(s.Attributes), "code": s.GetStatus().GetCode().String(),
		"msg": s.GetStatus().GetMessage(), "ev": ev, "ln": ln, "da": s.DroppedAttributesCount, "de": s.DroppedEventsCount, "dl": s.DroppedLinksCount}
}

// ---- making it

type sdkGen struct{ *rng }

var sdkKeys = []string{"a", "b", "c", "service.name", "ключ", "A", " a", "a ", "service_name"}

func (g *sdkGen) float() float64 {
	return pick(g.rng, []float64{0, 1, -1, 0.1, 1e-9, 1e300, math.MaxFloat64, math.SmallestNonzeroFloat64, 1 << 53, float64(g.Intn(1000)) / 8, g.NormFloat64(), math.NaN(), math.Inf(1), math.Inf(-1)})
}

func (g *sdkGen) int() int64 {
	return pick(g.rng, []int64{0, 1, -1, 1 << 40, math.MaxInt64, math.MinInt64, int64(g.Intn(1000)), 1<<53 + 1})
}

// few is less than n, and now and then a lot
func (g *sdkGen) few(n int) int {
	if g.chance(1) {
		return 10 + g.Intn(100)
	}
	return g.Intn(n)
}

func (g *sdkGen) text() string {
	if g.chance(3) {
		// of some length, all different at their end
		return strings.Repeat("m", 1<<(5+g.Intn(9))) + itoa(g.Intn(9))
	}
	return pick(g.rng, []string{"", "x", "X", " x", "x ", "x.", "x\n", "a  b", "<x>", "%d", " ", "y", "INVALID", "true", "1", "日本", `a"b`, "[x]"})
}

func (g *sdkGen) attr() attribute.KeyValue {
	k := attribute.Key(pick(g.rng, sdkKeys))
	n := g.few(4)
	switch g.Intn(9) {
	case 0:
		return k.Bool(g.chance(50))
	case 1:
		return k.Int64(g.int())
	case 2:
		return k.Float64(g.float())
	case 3:
		ls := make([]bool, n)
		for i := range ls {
			ls[i] = g.chance(50)
		}
		return k.BoolSlice(ls)
	case 4:
		ls := make([]int64, n)
		for i := range ls {
			ls[i] = g.int()
		}
		return k.Int64Slice(ls)
	case 5:
		ls := make([]float64, n)
		for i := range ls {
			ls[i] = g.float()
		}
		return k.Float64Slice(ls)
	case 6:
		ls := make([]string, n)
		for i := range ls {
			ls[i] = g.text()
		}
		return k.StringSlice(ls)
	}
	return k.String(g.text())
}

func (g *sdkGen) attrs() (o []attribute.KeyValue) {
	if g.chance(1) {
		for n := 10 + g.Intn(100); n > 0; n-- {
			a := g.attr()
			a.Key += attribute.Key(itoa(n))
			o = append(o, a)
		}
		return
	}
	for n := g.Intn(5); n > 0; n-- {
		o = append(o, g.attr())
	}
	return
}

func (g *sdkGen) set() attribute.Set { return attribute.NewSet(g.attrs()...) }

func (g *sdkGen) time() time.Time {
	if g.chance(10) {
		return time.Time{}
	}
	t := time.Unix(epoch+int64(g.Intn(1<<29)), int64(g.Intn(1e9)))
	if g.chance(50) {
		return t.In(time.FixedZone("x", 3600*(g.Intn(20)-10)))
	}
	return t.UTC()
}

func (g *sdkGen) resource() *resource.Resource {
	as := g.attrs()
	for strings.Contains(fmt.Sprint(sdkAttrs(as)), "NaN") { // equal to nothing: two resources with one are not one
		as = g.attrs()
	}
	// resources differ by their attributes
	return resource.NewWithAttributes(fmt.Sprintf("schema-%d", len(as)%2), as...)
}

func (g *sdkGen) scope() instrumentation.Scope {
	return instrumentation.Scope{Name: pick(g.rng, []string{"", "s1", "s2"}), Version: pick(g.rng, []string{"", "v1"}), SchemaURL: pick(g.rng, []string{"", "u"})}
}

func (g *sdkGen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

func numberOf[N int64 | float64](g *sdkGen) N {
	var n N
	switch p := any(&n).(type) {
	case *int64:
		*p = g.int()
	case *float64:
		*p = g.float()
	}
	return n
}

func exemplarsOf[N int64 | float64](g *sdkGen) (o []metricdata.Exemplar[N]) {
	for n := g.few(3); n > 0; n-- {
		x := metricdata.Exemplar[N]{FilteredAttributes: g.attrs(), Time: g.time(), Value: numberOf[N](g)}
		if g.chance(60) {
			x.TraceID, x.SpanID = g.bytes(16), g.bytes(8)
		}
		o = append(o, x)
	}
	return
}

func pointsOf[N int64 | float64](g *sdkGen) (o []metricdata.DataPoint[N]) {
	for n := g.few(4); n > 0; n-- {
		o = append(o, metricdata.DataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Value: numberOf[N](g), Exemplars: exemplarsOf[N](g)})
	}
	return
}

func extremeOf[N int64 | float64](g *sdkGen) (o metricdata.Extrema[N]) {
	if g.chance(60) {
		o = metricdata.NewExtrema(numberOf[N](g))
	}
	return
}

func (g *sdkGen) counts() (o []uint64) {
	for n := g.few(4); n > 0; n-- {
		o = append(o, uint64(g.Intn(5)))
	}
	return
}

func histOf[N int64 | float64](g *sdkGen) (o []metricdata.HistogramDataPoint[N]) {
	for n := g.few(3); n > 0; n-- {
		p := metricdata.HistogramDataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.Intn(9)), BucketCounts: g.counts(),
			Min: extremeOf[N](g), Max: extremeOf[N](g), Sum: numberOf[N](g), Exemplars: exemplarsOf[N](g)}
		for n := g.few(4); n > 0; n-- {
			p.Bounds = append(p.Bounds, g.float())
		}
		o = append(o, p)
	}
	return
}

func expOf[N int64 | float64](g *sdkGen) (o []metricdata.ExponentialHistogramDataPoint[N]) {
	for n := g.few(3); n > 0; n-- {
		o = append(o, metricdata.ExponentialHistogramDataPoint[N]{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.Intn(9)),
			Min: extremeOf[N](g), Max: extremeOf[N](g), Sum: numberOf[N](g), Exemplars: exemplarsOf[N](g), Scale: int32(g.Intn(9) - 4), ZeroCount: uint64(g.Intn(4)),
			PositiveBucket: metricdata.ExponentialBucket{Offset: int32(g.Intn(9) - 4), Counts: g.counts()}, NegativeBucket: metricdata.ExponentialBucket{Offset: int32(g.Intn(9) - 4), Counts: g.counts()}})
	}
	return
}

func (g *sdkGen) metric() metricdata.Metrics {
	m := metricdata.Metrics{Name: pick(g.rng, []string{"", "m1", "m2"}), Description: pick(g.rng, []string{"", "d"}), Unit: pick(g.rng, []string{"", "By", "1"})}
	temp := pick(g.rng, []metricdata.Temporality{metricdata.DeltaTemporality, metricdata.CumulativeTemporality})
	switch g.Intn(9) {
	case 0:
		m.Data = metricdata.Gauge[int64]{DataPoints: pointsOf[int64](g)}
	case 1:
		m.Data = metricdata.Gauge[float64]{DataPoints: pointsOf[float64](g)}
	case 2:
		m.Data = metricdata.Sum[int64]{DataPoints: pointsOf[int64](g), Temporality: temp, IsMonotonic: g.chance(50)}
	case 3:
		m.Data = metricdata.Sum[float64]{DataPoints: pointsOf[float64](g), Temporality: temp, IsMonotonic: g.chance(50)}
	case 4:
		m.Data = metricdata.Histogram[int64]{DataPoints: histOf[int64](g), Temporality: temp}
	case 5:
		m.Data = metricdata.Histogram[float64]{DataPoints: histOf[float64](g), Temporality: temp}
	case 6:
		m.Data = metricdata.ExponentialHistogram[int64]{DataPoints: expOf[int64](g), Temporality: temp}
	case 7:
		m.Data = metricdata.ExponentialHistogram[float64]{DataPoints: expOf[float64](g), Temporality: temp}
	default:
		s := metricdata.Summary{}
		for n := g.few(3); n > 0; n-- {
			p := metricdata.SummaryDataPoint{Attributes: g.set(), StartTime: g.time(), Time: g.time(), Count: uint64(g.Intn(9)), Sum: g.float()}
			for n := g.few(3); n > 0; n-- {
				p.QuantileValues = append(p.QuantileValues, metricdata.QuantileValue{Quantile: g.Float64(), Value: g.float()})
			}
			s.DataPoints = append(s.DataPoints, p)
		}
		m.Data = s
	}
	return m
}

func (g *sdkGen) context() trace.SpanContext {
	var c trace.SpanContextConfig
	if g.chance(85) {
		copy(c.TraceID[:], g.bytes(16))
		copy(c.SpanID[:], g.bytes(8))
	}
	if g.chance(30) {
		c.TraceState, _ = trace.ParseTraceState("k=v,k2=v2")
	}
	c.Remote = g.chance(40)
	if g.chance(50) {
		c.TraceFlags = trace.FlagsSampled
	}
	return trace.NewSpanContext(c)
}

func (g *sdkGen) span(rs []*resource.Resource, scs []instrumentation.Scope) tracesdk.ReadOnlySpan {
	when := func() time.Time {
		for {
			if t := g.time(); !t.IsZero() {
				return t
			}
		}
	}
	s := tracetest.SpanStub{Name: g.text(), SpanContext: g.context(), SpanKind: trace.SpanKind(g.Intn(6)), StartTime: when(), EndTime: when(), Attributes: g.attrs(),
		Status: tracesdk.Status{Code: codes.Code(g.Intn(3)), Description: g.text()}, DroppedAttributes: g.Intn(4), DroppedEvents: g.Intn(4), DroppedLinks: g.Intn(4),
		Resource: pick(g.rng, rs), InstrumentationLibrary: pick(g.rng, scs)}
	if g.chance(60) {
		s.Parent = g.context()
	}
	for n := g.few(3); n > 0; n-- {
		s.Events = append(s.Events, tracesdk.Event{Name: g.text(), Attributes: g.attrs(), DroppedAttributeCount: g.Intn(3), Time: when()})
	}
	for n := g.few(4); n > 0; n-- {
		s.Links = append(s.Links, tracesdk.Link{SpanContext: g.context(), Attributes: g.attrs(), DroppedAttributeCount: g.Intn(3)})
	}
	return s.Snapshot()
}

type selfCollector struct {
	collector_metrics.UnimplementedMetricsServiceServer
	got []*collector_metrics.ExportMetricsServiceRequest
}

func (c *selfCollector) Export(_ context.Context, r *collector_metrics.ExportMetricsServiceRequest) (*collector_metrics.ExportMetricsServiceResponse, error) {
	c.got = append(c.got, r)
	return &collector_metrics.ExportMetricsServiceResponse{}, nil
}

type selfTraces struct {
	collector_trace.UnimplementedTraceServiceServer
	got []*collector_trace.ExportTraceServiceRequest
}

func (c *selfTraces) Export(_ context.Context, r *collector_trace.ExportTraceServiceRequest) (*collector_trace.ExportTraceServiceResponse, error) {
	c.got = append(c.got, r)
	return &collector_trace.ExportTraceServiceResponse{}, nil
}

func selfMain(args []string) {
	fs := flag.NewFlagSet("self", flag.ExitOnError)
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	n := fs.Int("n", 50, "")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			g := &sdkGen{newRng(*seed*1000 + int64(w))}
			for i := 0; i < *n; i++ {
				if g.chance(50) {
					g.metrics(e)
				} else {
					g.spans(e)
				}
			}
		}(w)
	}
	wg.Wait()
	for i := 0; i < *n/10; i++ {
		(&sdkGen{newRng(*seed*1000 + 100 + int64(i))}).whole(e)
	}
	e.Close()
}

func (g *sdkGen) metrics(e *Emitter) {
	rm := &metricdata.ResourceMetrics{Resource: g.resource()}
	in := obj{"res": sdkAttrs(rm.Resource.Attributes()), "rs": rm.Resource.SchemaURL()}
	ss := []obj{}
	for n := g.Intn(4); n > 0; n-- {
		sm := metricdata.ScopeMetrics{Scope: g.scope()}
		ms := []obj{}
		for n := g.Intn(5); n > 0; n-- {
			m := g.metric()
			sm.Metrics = append(sm.Metrics, m)
			ms = append(ms, sdkMetric(m))
		}
		rm.ScopeMetrics = append(rm.ScopeMetrics, sm)
		ss = append(ss, obj{"sc": sm.Scope.Name, "sv": sm.Scope.Version, "ss": sm.Scope.SchemaURL, "ms": ms})
	}
	in["scopes"] = ss
	c := &selfCollector{}
	err := guard(func() error { return (&self.Metrics{Collector: c}).Export(context.Background(), rm) })
	got := []obj{}
	for _, r := range c.got {
		for _, x := range r.ResourceMetrics {
			ss := []obj{}
			for _, s := range x.ScopeMetrics {
				ms := []obj{}
				for _, m := range s.Metrics {
					ms = append(ms, otlpMetric(m))
				}
				ss = append(ss, obj{"sc": s.GetScope().GetName(), "sv": s.GetScope().GetVersion(), "ss": s.SchemaUrl, "ms": ms})
			}
			got = append(got, obj{"res": otlpAttrs(x.GetResource().GetAttributes()), "rs": x.SchemaUrl, "scopes": ss})
		}
	}
	e.Emit(obj{"ev": "metrics", "err": errString(err), "in": in, "got": got})
}

func (g *sdkGen) spans(e *Emitter) {
	var rs []*resource.Resource
	seen := map[attribute.Distinct]bool{}
	for n := 1 + g.Intn(3); n > 0; n-- {
		if r := g.resource(); !seen[r.Equivalent()] {
			seen[r.Equivalent()] = true
			rs = append(rs, r)
			if g.chance(30) {
				// another one that is the same
				rs = append(rs, resource.NewWithAttributes(r.SchemaURL(), r.Attributes()...))
			}
		}
	}
	var scs []instrumentation.Scope
	for n := 1 + g.Intn(3); n > 0; n-- {
		scs = append(scs, g.scope())
	}
	var spans []tracesdk.ReadOnlySpan
	in := []obj{}
	for n := g.few(12); n > 0; n-- {
		s := g.span(rs, scs)
		spans = append(spans, s)
		in = append(in, sdkSpan(s))
	}
	c := &selfTraces{}
	err := guard(func() error { return (&self.Trace{Collector: c}).ExportSpans(context.Background(), spans) })
	var out []*tv1.ResourceSpans
	for _, r := range c.got {
		out = append(out, r.ResourceSpans...)
	}
	e.Emit(obj{"ev": "spans", "err": errString(err), "in": in, "got": otlpSpans(out)})
}

func otlpSpans(rs []*tv1.ResourceSpans) []obj {
	got := []obj{}
	for _, x := range rs {
		ss := []obj{}
		for _, s := range x.ScopeSpans {
			ls := []obj{}
			for _, sp := range s.Spans {
				ls = append(ls, otlpSpan(sp))
			}
			ss = append(ss, obj{"sc": s.GetScope().GetName(), "sv": s.GetScope().GetVersion(), "ss": s.SchemaUrl, "spans": ls})
		}
		got = append(got, obj{"res": otlpAttrs(x.GetResource().GetAttributes()), "rs": x.SchemaUrl, "scopes": ss})
	}
	return got
}

// ---- all of it: what is recorded through the SDK until it is shut down

type selfAll struct {
	sync.Mutex
	selfCollector
	traces selfTraces
}

func (c *selfAll) Export(ctx context.Context, r *collector_metrics.ExportMetricsServiceRequest) (*collector_metrics.ExportMetricsServiceResponse, error) {
	c.Lock()
	defer c.Unlock()
	return c.selfCollector.Export(ctx, proto.Clone(r).(*collector_metrics.ExportMetricsServiceRequest))
}

type selfAllTraces struct {
	collector_trace.UnimplementedTraceServiceServer
	c *selfAll
}

func (t selfAllTraces) Export(ctx context.Context, r *collector_trace.ExportTraceServiceRequest) (*collector_trace.ExportTraceServiceResponse, error) {
	t.c.Lock()
	defer t.c.Unlock()
	return t.c.traces.Export(ctx, proto.Clone(r).(*collector_trace.ExportTraceServiceRequest))
}

func (g *sdkGen) whole(e *Emitter) {
	c := &selfAll{}
	down, err := self.Setup(context.Background(), c, selfAllTraces{c: c})
	check(err)
	var mu sync.Mutex
	in := []obj{}
	var sum, count int64
	counter, err := self.Meter().Int64Counter("verif.counter")
	check(err)
	hist, err := self.Meter().Int64Histogram("verif.hist")
	check(err)
	var wg sync.WaitGroup
	for w := 0; w < 4; w++ {
		wg.Add(1)
		g := &sdkGen{newRng(g.Int63())}
		go func() {
			defer wg.Done()
			tr := otel.Tracer(fmt.Sprint("t", g.Intn(3)), trace.WithInstrumentationVersion("v"), trace.WithSchemaURL(pick(g.rng, []string{"", "u"})))
			ctx := context.Background()
			var open []trace.Span
			for i := 0; i < 60; i++ {
				switch {
				case len(open) > 3 || len(open) > 0 && g.chance(40):
					s := open[len(open)-1]
					open = open[:len(open)-1]
					s.End()
					mu.Lock()
					in = append(in, sdkSpan(s.(tracesdk.ReadOnlySpan)))
					mu.Unlock()
					if len(open) == 0 {
						ctx = context.Background()
					} else {
						ctx = trace.ContextWithSpan(context.Background(), open[len(open)-1])
					}
				default:
					var s trace.Span
					ctx, s = tr.Start(ctx, g.text(), trace.WithAttributes(g.attrs()...), trace.WithSpanKind(trace.SpanKind(g.Intn(6))))
					if g.chance(40) {
						s.AddEvent(g.text(), trace.WithAttributes(g.attrs()...))
					}
					if g.chance(40) {
						s.SetStatus(codes.Code(g.Intn(3)), g.text())
					}
					open = append(open, s)
				}
				n := int64(g.Intn(100))
				counter.Add(ctx, n)
				hist.Record(ctx, n)
				mu.Lock()
				sum += n
				count++
				mu.Unlock()
			}
			for i := len(open) - 1; i >= 0; i-- {
				open[i].End()
				mu.Lock()
				in = append(in, sdkSpan(open[i].(tracesdk.ReadOnlySpan)))
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	err = guard(func() error { return down.Shutdown(context.Background()) })
	c.Lock()
	defer c.Unlock()
	var rs []*tv1.ResourceSpans
	for _, r := range c.traces.got {
		rs = append(rs, r.ResourceSpans...)
	}
	e.Emit(obj{"ev": "recorded", "err": errString(err), "in": in, "got": otlpSpans(rs)})
	// the newest of each
	got := map[string]string{}
	for _, r := range c.selfCollector.got {
		for _, x := range r.ResourceMetrics {
			for _, s := range x.ScopeMetrics {
				for _, m := range s.Metrics {
					if p := m.GetSum().GetDataPoints(); len(p) == 1 {
						got[m.Name] = fmt.Sprint(p[0].GetAsInt())
					} else if p := m.GetHistogram().GetDataPoints(); len(p) == 1 {
						got[m.Name] = fmt.Sprint(p[0].Count, " ", p[0].GetSum())
					}
				}
			}
		}
	}
	e.Emit(obj{"ev": "totals", "want": []string{fmt.Sprint(sum), fmt.Sprint(count, " ", float64(sum))}, "got": []string{got["verif.counter"], got["verif.hist"]}})
}

// ---- the server: what it recorded until it was interrupted is there after a restart

func selfServerMain(args []string) {
	fs := flag.NewFlagSet("selfserver", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	bin := fs.String("bin", "", "the server")
	n := fs.Int("n", 2, "")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	e := newEmitter(*out)
	defer e.Close()
	for i := 0; i < *n; i++ {
		g := newRng(*seed*100 + int64(i))
		r := &e2eRun{bin: *bin, dir: filepath.Join(*dir, "self"+itoa(i)), e: newEmitter(os.DevNull), seed: *seed + int64(i), base: fromTime(time.Now())}
		check(os.MkdirAll(r.dir, 0755))
		if !r.own(e, g) {
			r.kill()
			return
		}
		check(os.RemoveAll(r.dir))
	}
}

func (r *e2eRun) own(e *Emitter, g *rng) bool {
	calls := map[string]int{}
	for life := 0; life < 3; life++ {
		if err := r.start(); err != nil {
			e.Emit(obj{"ev": "server", "err": errString(err)})
			return false
		}
		began := time.Now()
		if life > 0 {
			b := time.Now()
			q := &Query{Sig: 2, Range: true, Start: fromTime(b.Add(-time.Hour)), End: fromTime(b.Add(time.Hour)), Now: fromTime(b)}
			d, err := v1.NewRQClient(r.conn).ScanSamples(context.Background(), q.proto())
			got, own := map[string]int{}, 0
			for _, x := range d.GetTraces().GetResourceSpans() {
				mine := false
				for _, a := range x.GetResource().GetAttributes() {
					mine = mine || a.Key == "service.name" && a.Value.GetStringValue() == "requiemdb"
				}
				for _, s := range x.ScopeSpans {
					for _, sp := range s.Spans {
						if mine {
							got[sp.Name]++
						}
					}
				}
			}
			q.Sig = 1
			d, err2 := v1.NewRQClient(r.conn).ScanSamples(context.Background(), q.proto())
			for _, x := range d.GetMetrics().GetResourceMetrics() {
				for _, a := range x.GetResource().GetAttributes() {
					if a.Key == "service.name" && a.Value.GetStringValue() == "requiemdb" {
						for _, s := range x.ScopeMetrics {
							own += len(s.Metrics)
						}
					}
				}
			}
			want, have := []int{}, []int{}
			for n, c := range calls {
				want, have = append(want, c), append(have, got[n])
			}
			e.Emit(obj{"ev": "kept", "err": errString(errors.Join(err, err2)), "want": want, "got": have, "metrics": own})
		}
		for i := 1 + g.Intn(8); i > 0; i-- {
			switch g.Intn(4) {
			case 0, 1:
				s := 1 + g.Intn(3)
				if r.export(s, 0) {
					calls["opentelemetry.proto.collector."+[]string{"metrics.v1.Metrics", "trace.v1.Trace", "logs.v1.Logs"}[s-1]+"Service/Export"]++
				}
			default:
				if _, err := v1.NewRQClient(r.conn).GetVersion(context.Background(), &v1.GetVersionRequest{}); err == nil {
					calls[strings.TrimPrefix(v1.RQ_GetVersion_FullMethodName, "/")]++
				}
			}
		}
		// handlers end their spans shortly after they have answered
		time.Sleep(700 * time.Millisecond)
		if time.Since(began) > 20*time.Second {
			calls = map[string]int{} // too slow to tell
		}
		if !r.down(e2eOp{}) {
			e.Emit(obj{"ev": "server", "err": "does not end: " + r.out.tail()})
			return false
		}
		e.Emit(obj{"ev": "server", "err": ""})
	}
	return true
}
