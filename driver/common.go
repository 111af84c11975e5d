// Command verifx drives the real packages of requiemdb and records what they did as
// ndjson traces, which TLC judges with the specifications in /verif/spec.
//
// It is compiled inside the requiemdb module through "go build -overlay"; only the
// exported API of the packages under test is used.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
)

// epoch of all times in traces. TLC integers have 32 bits, times are pairs of
// seconds since epoch and nanoseconds.
const epoch = 946684800 // 2000-01-01T00:00:00Z

type ts [2]int64

func fromTime(t time.Time) ts { return ts{t.Unix() - epoch, int64(t.Nanosecond())} }

func (t ts) Time() time.Time { return time.Unix(t[0]+epoch, t[1]).UTC() }

func (t ts) Nano() uint64 { return uint64(t.Time().UnixNano()) }

// fromNano maps 0, which stands for an unknown timestamp, to the empty list
func fromNano(n uint64) []int64 {
	if n == 0 {
		return []int64{}
	}
	s := int64(n / 1e9)
	return []int64{s - epoch, int64(n % 1e9)}
}

// Emitter writes one json object per line.
type Emitter struct {
	mu sync.Mutex
	f  *os.File
	w  *bufio.Writer
	n  int
}

func newEmitter(path string) *Emitter {
	f, err := os.Create(path)
	check(err)
	return &Emitter{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

func appendEmitter(path string) *Emitter {
	f, err := os.OpenFile(path, os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0644)
	check(err)
	return &Emitter{f: f, w: bufio.NewWriterSize(f, 1<<20)}
}

type obj = map[string]any

func (e *Emitter) Emit(o obj) {
	e.mu.Lock()
	defer e.mu.Unlock()
	b, err := json.Marshal(o)
	check(err)
	if len(b) > shortest {
		// long strings go by their names
		for i, l := range longVals {
			b = bytes.ReplaceAll(b, []byte(l), []byte(longNames[i]))
		}
	}
	e.w.Write(b)
	e.w.WriteByte('\n')
	// what happened must be on record if the process dies
	e.w.Flush()
	e.n++
}

func (e *Emitter) Flush() { e.mu.Lock(); defer e.mu.Unlock(); e.w.Flush() }

func (e *Emitter) Close() {
	check(e.w.Flush())
	check(e.f.Close())
}

// check fails the driver, never the property
func check(err error) {
	if err != nil {
		debug.PrintStack()
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(3)
	}
}

func errString(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// guard runs f, which calls code under test, and reports a panic as an error
func guard(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return f()
}

type rng struct{ *rand.Rand }

func newRng(seed int64) *rng { return &rng{rand.New(rand.NewSource(seed))} }

func (r *rng) chance(percent int) bool { return r.Intn(100) < percent }

func pick[T any](r *rng, ls []T) T { return ls[r.Intn(len(ls))] }

// normalise drops set but empty messages. The store does not tell an absent message
// from an empty one, which proto3 users do not either.
func normalise(m protoreflect.Message) {
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case fd.IsMap():
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				normalise(v.List().Get(i).Message())
			}
		case fd.Message() != nil:
			c := v.Message()
			normalise(c)
			if fd.ContainingOneof() == nil && isEmpty(c) {
				m.Clear(fd)
			}
		}
		return true
	})
}

func isEmpty(m protoreflect.Message) bool {
	empty := true
	m.Range(func(protoreflect.FieldDescriptor, protoreflect.Value) bool {
		empty = false
		return false
	})
	return empty && len(m.GetUnknown()) == 0
}

func sum(b []byte) []byte {
	o := sha256.Sum256(b)
	return o[:8]
}

// digest identifies the full content of a message
func digest(m proto.Message) string {
	if m == nil || !m.ProtoReflect().IsValid() {
		return "-"
	}
	c := proto.Clone(m)
	normalise(c.ProtoReflect())
	if isEmpty(c.ProtoReflect()) {
		return "-"
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(c)
	check(err)
	return hex.EncodeToString(sum(b))
}

// settle waits for badger to be done with the tables in memory it found when it was
// opened. It empties the file of a finished one before it removes it, and does not open
// again if the process ends between the two. That is between badger and the file system,
// commits do not wait for it.
func settle(dir string) {
	for i := 0; i < 2000; i++ {
		if ls, _ := filepath.Glob(filepath.Join(dir, "*.mem")); len(ls) <= 1 {
			return
		}
		time.Sleep(2 * time.Millisecond)
	}
}
