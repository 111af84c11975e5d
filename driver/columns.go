package main

// Messages as columns: internal/arrow3 gathers messages in records, writes them to
// files and reads them back.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/apache/arrow/go/v17/arrow"
	"github.com/apache/arrow/go/v17/arrow/array"
	"github.com/apache/arrow/go/v17/arrow/memory"
	"github.com/gernest/arrow3/gen/go/samples"
	v1 "github.com/gernest/requiemdb/gen/go/rq/v1"
	"github.com/gernest/requiemdb/internal/arrow3"
	commonv1 "go.opentelemetry.io/proto/otlp/common/v1"
	logsv1 "go.opentelemetry.io/proto/otlp/logs/v1"
	metricsv1 "go.opentelemetry.io/proto/otlp/metrics/v1"
	resourcev1 "go.opentelemetry.io/proto/otlp/resource/v1"
	tracev1 "go.opentelemetry.io/proto/otlp/trace/v1"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/apipb"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/structpb"
	"google.golang.org/protobuf/types/known/timestamppb"
	"google.golang.org/protobuf/types/known/wrapperspb"
)

const anyName = "opentelemetry.proto.common.v1.AnyValue"

type term struct {
	N string  `json:"n"`
	T string  `json:"t"`
	C []*term `json:"c"`
}

func isAny(fd protoreflect.FieldDescriptor) bool {
	return fd.Message() != nil && fd.Message().FullName() == anyName
}

func floatText(f float64, bits int) string {
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, bits)
}

func scalarTerm(fd protoreflect.FieldDescriptor, v protoreflect.Value) *term {
	t := &term{C: []*term{}}
	switch fd.Kind() {
	case protoreflect.EnumKind:
		t.T = strconv.Itoa(int(v.Enum()))
	case protoreflect.BytesKind:
		t.T = fmt.Sprintf("%x", v.Bytes())
		if len(v.Bytes()) > 64 {
			t.T = fmt.Sprintf("%d bytes %x", len(v.Bytes()), sha256.Sum256(v.Bytes()))
		}
	case protoreflect.StringKind:
		t.T = strconv.QuoteToASCII(v.String())
		if len(v.String()) > 64 {
			t.T = fmt.Sprintf("%d bytes %x", len(v.String()), sha256.Sum256([]byte(v.String())))
		}
	case protoreflect.DoubleKind:
		t.T = floatText(v.Float(), 64)
	case protoreflect.FloatKind:
		t.T = floatText(v.Float(), 32)
	default:
		t.T = v.String()
	}
	return t
}

func messageTerm(m protoreflect.Message) *term {
	t := &term{C: []*term{}}
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if !m.Has(fd) {
			continue
		}
		v := m.Get(fd)
		var x *term
		elem := func(v protoreflect.Value) *term {
			if fd.Message() != nil {
				return messageTerm(v.Message())
			}
			return scalarTerm(fd, v)
		}
		if fd.IsList() {
			x = &term{T: "[]", C: []*term{}}
			for j := 0; j < v.List().Len(); j++ {
				x.C = append(x.C, elem(v.List().Get(j)))
			}
		} else {
			x = elem(v)
		}
		x.N = string(fd.Name())
		t.C = append(t.C, x)
	}
	return t
}

// cell reads a place of a column, nil when there is nothing
func cell(fd protoreflect.FieldDescriptor, a arrow.Array, i int, elem bool) *term {
	if a.IsNull(i) {
		return nil
	}
	if fd.IsList() && !elem {
		ls := a.(*array.List)
		from, to := ls.ValueOffsets(i)
		if from == to {
			return nil
		}
		t := &term{T: "[]", C: []*term{}}
		for k := from; k < to; k++ {
			x := cell(fd, ls.ListValues(), int(k), true)
			if x == nil {
				x = &term{T: "nothing", C: []*term{}}
			}
			t.C = append(t.C, x)
		}
		return t
	}
	if d, ok := a.(*array.Dictionary); ok {
		a, i = d.Dictionary(), d.GetValueIndex(i)
	}
	if isAny(fd) {
		m := &commonv1.AnyValue{}
		if err := proto.Unmarshal(a.(*array.Binary).Value(i), m); err != nil {
			return &term{T: err.Error(), C: []*term{}}
		}
		return messageTerm(m.ProtoReflect())
	}
	if fd.Message() != nil {
		s := a.(*array.Struct)
		t := &term{C: []*term{}}
		st := s.DataType().(*arrow.StructType)
		fs := fd.Message().Fields()
		for j := 0; j < fs.Len(); j++ {
			k, ok := st.FieldIdx(string(fs.Get(j).Name()))
			if !ok {
				continue
			}
			if x := cell(fs.Get(j), s.Field(k), i, false); x != nil {
				x.N = string(fs.Get(j).Name())
				t.C = append(t.C, x)
			}
		}
		return t
	}
	var v protoreflect.Value
	switch x := a.(type) {
	case *array.Boolean:
		v = protoreflect.ValueOfBool(x.Value(i))
	case *array.Int32:
		v = protoreflect.ValueOfInt32(x.Value(i))
		if fd.Kind() == protoreflect.EnumKind {
			v = protoreflect.ValueOfEnum(protoreflect.EnumNumber(x.Value(i)))
		}
	case *array.Int64:
		v = protoreflect.ValueOfInt64(x.Value(i))
	case *array.Uint32:
		v = protoreflect.ValueOfUint32(x.Value(i))
	case *array.Uint64:
		v = protoreflect.ValueOfUint64(x.Value(i))
	case *array.Float32:
		v = protoreflect.ValueOfFloat32(x.Value(i))
	case *array.Float64:
		v = protoreflect.ValueOfFloat64(x.Value(i))
	case *array.String:
		v = protoreflect.ValueOfString(x.Value(i))
	case *array.Binary:
		v = protoreflect.ValueOfBytes(x.Value(i))
	default:
		return &term{T: "a column of " + a.DataType().String(), C: []*term{}}
	}
	if !elem && !fd.HasPresence() {
		if d := scalarTerm(fd, fd.Default()); d.T == scalarTerm(fd, v).T {
			return nil
		}
	}
	return scalarTerm(fd, v)
}

// cgen makes messages
type cgen struct {
	*rng
	// how many percent of the fields are set
	fill int
}

func (g *cgen) scalar(fd protoreflect.FieldDescriptor) protoreflect.Value {
	zero := g.chance(20)
	n := g.Uint64() >> uint(g.Intn(64))
	if g.chance(10) {
		n = math.MaxUint64 - uint64(g.Intn(2))
	}
	if zero {
		n = 0
	}
	f := float64(int64(n)) / 8
	if g.chance(10) {
		f = pick(g.rng, []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.SmallestNonzeroFloat64, math.MaxFloat64})
	}
	switch fd.Kind() {
	case protoreflect.EnumKind:
		vs := fd.Enum().Values()
		if g.chance(10) {
			return protoreflect.ValueOfEnum(pick(g.rng, []protoreflect.EnumNumber{-1, 127, 128, 255, 256, 1000, 1001, 1 << 15, 1 << 16, math.MaxInt32, math.MinInt32}))
		}
		return protoreflect.ValueOfEnum(vs.Get(g.Intn(vs.Len())).Number())
	case protoreflect.BoolKind:
		return protoreflect.ValueOfBool(n%2 == 1)
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return protoreflect.ValueOfInt32(int32(n))
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return protoreflect.ValueOfUint32(uint32(n))
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return protoreflect.ValueOfInt64(int64(n))
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return protoreflect.ValueOfUint64(n)
	case protoreflect.DoubleKind:
		return protoreflect.ValueOfFloat64(f)
	case protoreflect.FloatKind:
		return protoreflect.ValueOfFloat32(float32(f))
	case protoreflect.StringKind:
		if g.chance(2) {
			return protoreflect.ValueOfString(strings.Repeat(strconv.Itoa(g.Int()), 1<<g.Intn(15)))
		}
		return protoreflect.ValueOfString(pick(g.rng, []string{"", "a", "b", "é\x00", "null", "long " + strconv.Itoa(int(n%100)), strconv.Itoa(g.Intn(9))}))
	case protoreflect.BytesKind:
		b := make([]byte, g.Intn(5)*g.Intn(5))
		if g.chance(2) {
			b = make([]byte, 1<<g.Intn(18))
		}
		g.Read(b)
		return protoreflect.ValueOfBytes(b)
	}
	panic(fd.Kind())
}

func (g *cgen) fillMessage(m protoreflect.Message, depth int) {
	fs := m.Descriptor().Fields()
	for i := 0; i < fs.Len(); i++ {
		fd := fs.Get(i)
		if o := fd.ContainingOneof(); o != nil && !o.IsSynthetic() {
			continue
		}
		if g.chance(g.fill) {
			g.set(m, fd, depth)
		}
	}
	os := m.Descriptor().Oneofs()
	for i := 0; i < os.Len(); i++ {
		if o := os.Get(i); !o.IsSynthetic() && g.chance(g.fill+20) {
			g.set(m, o.Fields().Get(g.Intn(o.Fields().Len())), depth)
		}
	}
}

func (g *cgen) set(m protoreflect.Message, fd protoreflect.FieldDescriptor, depth int) {
	if depth > 9 {
		return
	}
	if fd.IsList() {
		n := 1
		if g.chance(40) {
			n = g.Intn(4)
		}
		if g.chance(4) {
			n = g.Intn(9)
			if fd.Message() == nil {
				n = g.Intn(100)
			}
		}
		ls := m.Mutable(fd).List()
		for i := 0; i < n; i++ {
			if fd.Message() != nil {
				v := ls.NewElement()
				g.fillMessage(v.Message(), depth+1)
				ls.Append(v)
			} else {
				ls.Append(g.scalar(fd))
			}
		}
		if n == 0 && g.chance(50) {
			m.Clear(fd)
		}
		return
	}
	if fd.Message() != nil {
		g.fillMessage(m.Mutable(fd).Message(), depth+1)
		return
	}
	m.Set(fd, g.scalar(fd))
}

// graph of the types a message is made of
func typeGraph(d protoreflect.MessageDescriptor) []obj {
	seen := map[protoreflect.FullName]bool{}
	var o []obj
	var walk func(d protoreflect.MessageDescriptor)
	walk = func(d protoreflect.MessageDescriptor) {
		if seen[d.FullName()] {
			return
		}
		seen[d.FullName()] = true
		fs := []obj{}
		var next []protoreflect.MessageDescriptor
		for i := 0; i < d.Fields().Len(); i++ {
			fd := d.Fields().Get(i)
			k, to := "scalar", ""
			switch {
			case fd.IsMap():
				k = "map"
			case isAny(fd):
				k = "any"
			case fd.Message() != nil:
				k, to = "msg", string(fd.Message().FullName())
				next = append(next, fd.Message())
			}
			fs = append(fs, obj{"n": string(fd.Name()), "k": k, "to": to})
		}
		o = append(o, obj{"n": string(d.FullName()), "fields": fs})
		for _, x := range next {
			walk(x)
		}
	}
	walk(d)
	return o
}

type run struct {
	Times int   `json:"times"`
	M     *term `json:"m"`
}

// terms of messages, equal neighbours once
func terms[T proto.Message](ms []T) []*run {
	o := []*run{}
	last := ""
	for _, m := range ms {
		t := messageTerm(m.ProtoReflect())
		b, err := json.Marshal(t)
		check(err)
		if len(o) > 0 && string(b) == last {
			o[len(o)-1].Times++
			continue
		}
		last = string(b)
		o = append(o, &run{1, t})
	}
	return o
}

func columnsOf[T proto.Message](em *Emitter, g *cgen, ops, most int) {
	var zero T
	desc := zero.ProtoReflect().Descriptor()
	var s *arrow3.Schema[T]
	err := guard(func() (err error) { s, err = arrow3.New[T](memory.DefaultAllocator); return })
	em.Emit(obj{"ev": "new", "type": string(desc.FullName()), "types": typeGraph(desc), "err": errString(err)})
	if err != nil || s == nil {
		return
	}
	// the leaves of the columns belong to the fields of the message in order
	var leaf []int
	for i := 0; i < s.Schema().NumFields(); i++ {
		leaf = append(leaf, leaves(s.Schema().Field(i).Type))
	}
	var recs []arrow.Record
	var files [][]byte
	pending := 0
	record := func(r arrow.Record) obj {
		recs = append(recs, r)
		names := []string{}
		for i := 0; i < int(r.NumCols()); i++ {
			names = append(names, r.ColumnName(i))
		}
		return obj{"rows": r.NumRows(), "fields": names}
	}
	for i := 0; i < ops; i++ {
		switch k := g.Intn(100); {
		case k < 40 && pending < most:
			m := zero.ProtoReflect().New()
			if !g.chance(15) {
				g.fill = pick(g.rng, []int{10, 40, 40, 80})
				g.fillMessage(m, 0)
			}
			times := 1
			if most >= 20 && g.chance(4) {
				times = 1 << g.Intn(13)
			}
			err := guard(func() error {
				for j := 0; j < times; j++ {
					s.Append(m.Interface().(T))
				}
				return nil
			})
			em.Emit(obj{"ev": "gather", "m": messageTerm(m), "times": times, "err": errString(err)})
			pending++
		case k < 55:
			var r arrow.Record
			o := obj{"rows": 0, "fields": []string{}}
			err := guard(func() error { r = s.NewRecord(); o = record(r); return nil })
			o["ev"], o["err"] = "take", errString(err)
			em.Emit(o)
			pending = 0
		case k < 62:
			var b bytes.Buffer
			err := guard(func() error { return s.WriteParquet(&b) })
			em.Emit(obj{"ev": "save", "err": errString(err)})
			files = append(files, b.Bytes())
			pending = 0
		case k < 70 && len(recs) > 0:
			var which []int
			var rs []arrow.Record
			n := 1 + g.Intn(3)
			if g.chance(20) {
				n = 4 + g.Intn(30)
			}
			for j := 0; j < n; j++ {
				w := g.Intn(len(recs))
				if int(recs[w].NumCols()) == desc.Fields().Len() {
					which, rs = append(which, w+1), append(rs, recs[w])
				}
			}
			if len(rs) == 0 {
				continue
			}
			var b bytes.Buffer
			err := guard(func() error { return s.WriteParquetRecords(&b, rs...) })
			em.Emit(obj{"ev": "write", "recs": which, "err": errString(err)})
			files = append(files, b.Bytes())
		case k < 85 && len(files) > 0:
			w := g.Intn(len(files))
			fields := []string{}
			var cols []int
			all := g.chance(50)
			at := 0
			for j := 0; j < desc.Fields().Len(); j++ {
				if all || g.chance(50) {
					fields = append(fields, string(s.Schema().Field(j).Name))
					for x := 0; x < leaf[j]; x++ {
						cols = append(cols, at+x)
					}
				}
				at += leaf[j]
			}
			if len(fields) == 0 {
				continue
			}
			if all && g.chance(50) {
				cols = nil
			}
			var r arrow.Record
			err := guard(func() (err error) { r, err = s.Read(context.Background(), bytes.NewReader(files[w]), cols); return })
			o := obj{"rows": 0, "fields": []string{}}
			if err == nil {
				o = record(r)
			}
			o["ev"], o["file"], o["want"], o["err"] = "read", w+1, fields, errString(err)
			em.Emit(o)
		case len(recs) > 0:
			w := g.Intn(len(recs))
			r := recs[w]
			if g.chance(30) {
				if r.NumCols() == 0 || r.NumRows() > 100 {
					continue
				}
				j := g.Intn(int(r.NumCols()))
				fd := desc.Fields().ByName(protoreflect.Name(r.ColumnName(j)))
				got := [][]*term{}
				for x := 0; x < int(r.NumRows()); x++ {
					y := cell(fd, r.Column(j), x, false)
					if y == nil {
						got = append(got, []*term{})
					} else {
						y.N = r.ColumnName(j)
						got = append(got, []*term{y})
					}
				}
				em.Emit(obj{"ev": "cells", "rec": w + 1, "field": r.ColumnName(j), "got": got})
				continue
			}
			rows, all := []int{}, g.chance(40)
			if all {
				rows = nil
			} else if n := int(r.NumRows()); n > 0 {
				for j := g.Intn(4); j > 0; j-- {
					rows = append(rows, g.Intn(n))
				}
			}
			var got []T
			err := guard(func() error { got = s.Proto(r, rows); return nil })
			places := []int{}
			for _, x := range rows {
				places = append(places, x+1)
			}
			em.Emit(obj{"ev": "proto", "rec": w + 1, "all": all, "places": places, "got": terms(got), "err": errString(err)})
		}
	}
	// what was taken and written first is still there
	for w, r := range recs {
		var got []T
		err := guard(func() error { got = s.Proto(r, nil); return nil })
		em.Emit(obj{"ev": "proto", "rec": w + 1, "all": true, "places": []int{}, "got": terms(got), "err": errString(err)})
	}
	for _, r := range recs {
		r.Release()
	}
	s.Release()
}

func leaves(t arrow.DataType) int {
	switch t := t.(type) {
	case *arrow.StructType:
		n := 0
		for i := 0; i < t.NumFields(); i++ {
			n += leaves(t.Field(i).Type)
		}
		return n
	case *arrow.ListType:
		return leaves(t.Elem())
	}
	return 1
}

func columnsMain(args []string) {
	fs := flag.NewFlagSet("columns", flag.ExitOnError)
	out := fs.String("out", "", "trace")
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 20, "schemas")
	ops := fs.Int("ops", 40, "")
	fs.String("dir", "", "")
	fs.Parse(args)
	// builders work side by side, what each of them did is told one after the other
	f, err := os.Create(*out)
	check(err)
	defer f.Close()
	const side = 3
	for i := 0; i < *n; i += side {
		var wg sync.WaitGroup
		for k := 0; k < side; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				em := newEmitter(fmt.Sprintf("%s.%d", *out, k))
				columnsAny(em, &cgen{rng: newRng(*seed*100000 + int64(i+k))}, *ops)
				em.Close()
			}()
		}
		wg.Wait()
		for k := 0; k < side; k++ {
			b, err := os.ReadFile(fmt.Sprintf("%s.%d", *out, k))
			check(err)
			_, err = f.Write(b)
			check(err)
			check(os.Remove(fmt.Sprintf("%s.%d", *out, k)))
		}
	}
}

func columnsAny(em *Emitter, g *cgen, ops int) {
	big := []func(){
		func() { columnsOf[*metricsv1.MetricsData](em, g, ops, 4) },
		func() { columnsOf[*tracev1.TracesData](em, g, ops, 4) },
		func() { columnsOf[*logsv1.LogsData](em, g, ops, 4) },
		func() { columnsOf[*v1.Data](em, g, ops, 4) },
	}
	small := []func(){
		func() { columnsOf[*samples.ScalarTypes](em, g, ops, 20) },
		func() { columnsOf[*samples.ScalarTypesOptional](em, g, ops, 20) },
		func() { columnsOf[*samples.ScalarTypesRepeated](em, g, ops, 20) },
		func() { columnsOf[*samples.Nested](em, g, ops, 20) },
		func() { columnsOf[*samples.Known](em, g, ops, 20) },
		func() { columnsOf[*samples.OneOfScala](em, g, ops, 20) },
		func() { columnsOf[*samples.SimpleOneOf](em, g, ops, 20) },
		func() { columnsOf[*commonv1.KeyValue](em, g, ops, 20) },
		func() { columnsOf[*commonv1.AnyValue](em, g, ops, 20) },
		func() { columnsOf[*resourcev1.Resource](em, g, ops, 20) },
		func() { columnsOf[*metricsv1.NumberDataPoint](em, g, ops, 20) },
		func() { columnsOf[*metricsv1.ExponentialHistogramDataPoint](em, g, ops, 20) },
		func() { columnsOf[*metricsv1.Metric](em, g, ops, 10) },
		func() { columnsOf[*tracev1.Span](em, g, ops, 10) },
		func() { columnsOf[*logsv1.LogRecord](em, g, ops, 10) },
		func() { columnsOf[*v1.Scan](em, g, ops, 10) },
		func() { columnsOf[*durationpb.Duration](em, g, ops, 20) },
		func() { columnsOf[*timestamppb.Timestamp](em, g, ops, 20) },
		func() { columnsOf[*wrapperspb.BytesValue](em, g, ops, 20) },
	}
	odd := []func(){
		func() { columnsOf[*samples.Cyclic](em, g, ops, 4) },
		func() { columnsOf[*structpb.Struct](em, g, ops, 4) },
		func() { columnsOf[*structpb.Value](em, g, ops, 4) },
		func() { columnsOf[*structpb.ListValue](em, g, ops, 4) },
		func() { columnsOf[*apipb.Api](em, g, ops, 4) },
	}
	switch {
	case g.chance(25):
		pick(g.rng, big)()
	case g.chance(90):
		pick(g.rng, small)()
	default:
		pick(g.rng, odd)()
	}
}
