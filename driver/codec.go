package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"sync"
	"sync/atomic"

	"github.com/gernest/requiemdb/internal/compress"
	"google.golang.org/grpc/encoding"
)

// codec scenario: repeats histories of CodecGen.tla with real streams, and compresses
// and decompresses whole texts in between and at the same time.

type codecOp struct {
	O     string `json:"o"`
	S     int    `json:"s"`
	Of    int    `json:"of"`
	N     int    `json:"n"`
	Like  string `json:"like"`
	Chunk int    `json:"chunk"`
	Fail  int    `json:"fail"`
	Mode  string `json:"mode"`
	X     int    `json:"x"`
	All   bool   `json:"all"`
	To    bool   `json:"to"`
}

const blockSize = 4096

// blocks collects data as the digests the specification compares
type blocks struct {
	list []string
	rest []byte
	n    int
}

func (b *blocks) add(p []byte) {
	b.n += len(p)
	b.rest = append(b.rest, p...)
	for len(b.rest) >= blockSize {
		b.list = append(b.list, hex.EncodeToString(sum(b.rest[:blockSize])[:5]))
		b.rest = b.rest[blockSize:]
	}
}

func (b *blocks) obj() obj {
	return obj{"n": b.n, "blocks": append([]string{}, b.list...), "tail": hex.EncodeToString(sum(b.rest)[:5])}
}

func dataOf(p []byte) obj {
	var b blocks
	b.add(p)
	return b.obj()
}

var errFault = errors.New("fault of the other end")

// faultWriter fails once it was given more than left bytes. Negative: never.
type faultWriter struct {
	bytes.Buffer
	left int
	hit  bool
}

func (f *faultWriter) Write(p []byte) (int, error) {
	if f.left >= 0 {
		if len(p) > f.left {
			f.hit = true
			n, _ := f.Buffer.Write(p[:f.left])
			f.left = 0
			return n, errFault
		}
		f.left -= len(p)
	}
	return f.Buffer.Write(p)
}

// chunkReader gives at most chunk bytes at a time, and fails instead of reporting the
// end when it has a fault
type chunkReader struct {
	r     io.Reader
	chunk int
	fault bool
	hit   bool
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(p) > c.chunk {
		p = p[:c.chunk]
	}
	n, err := c.r.Read(p)
	if err == io.EOF && c.fault {
		c.hit = true
		err = errFault
	}
	return n, err
}

func bytesLike(r *rng, like string, n int) []byte {
	b := make([]byte, n)
	switch like {
	case "noise":
		r.Read(b)
	case "text":
		words := []string{"resource ", "scope ", "metric ", "span ", "log ", "\x00\x01", "0123456789abcdef", "{\"a\":1}"}
		for i := 0; i < n; {
			i += copy(b[i:], pick(r, words))
		}
	case "loop":
		p := make([]byte, 1+r.Intn(3000))
		r.Read(p)
		for i := 0; i < n; {
			i += copy(b[i:], p)
		}
	}
	return b
}

// spoil makes a text that is not whole. ok tells if there is a way to.
func spoil(r *rng, text []byte, mode string, x int) ([]byte, bool) {
	text = bytes.Clone(text)
	switch mode {
	case "cut":
		if len(text) < 2 {
			return nil, false
		}
		n := 1 + x*(len(text)-1)/1001
		if r.chance(30) {
			n = len(text) - 1 - r.Intn(min(5, len(text)-1))
		}
		return text[:n], true
	case "flip":
		if len(text) == 0 {
			return nil, false
		}
		text[x*len(text)/1001] ^= byte(1 << r.Intn(8))
		return text, true
	case "junk":
		j := make([]byte, 1+r.Intn(300))
		r.Read(j)
		if r.chance(50) && len(text) > 0 {
			// after the text
			return append(text, append([]byte{0}, j...)...), true
		}
		return append([]byte{0}, j...), true
	}
	return text, true
}

type codecStream struct {
	// encoding
	w    io.WriteCloser
	fw   *faultWriter
	err  error
	in   blocks
	id   int // number of the text
	text []byte
	// decoding
	r     io.Reader
	cr    *chunkReader
	of    int
	mode  string
	got   blocks
	done  bool
	end   bool
	panic bool
}

type codecWorld struct {
	e     *Emitter
	r     *rng
	c     encoding.Compressor
	slots map[int]*codecStream
	ids   *atomic.Int64
}

func (w *codecWorld) try(f func() error) (err error, panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			err, panicked = fmt.Errorf("panic: %v", r), true
		}
	}()
	return f(), false
}

func (w *codecWorld) finish(s *codecStream) {
	if s.w == nil {
		return
	}
	err, p := w.try(s.w.Close)
	if s.err == nil {
		s.err = err
	}
	s.panic = s.panic || p
	s.w = nil
	s.id = int(w.ids.Add(1))
	s.text = s.fw.Bytes()
	w.e.Emit(obj{"ev": "enc", "by": "stream", "id": s.id, "data": s.in.obj(), "hit": s.fw.hit, "err": errString(s.err), "panic": s.panic, "out": len(s.text)})
}

func (w *codecWorld) read(s *codecStream, n int) {
	p := make([]byte, n)
	var k int
	err, panicked := w.try(func() (err error) { k, err = s.r.Read(p); return })
	s.got.add(p[:max(0, k)])
	w.settle(s, err, panicked)
}

// settle records that a stream ended with err
func (w *codecWorld) settle(s *codecStream, err error, panicked bool) {
	if err == nil && !panicked {
		return
	}
	s.done = true
	s.end = err == io.EOF
	if s.end {
		err = nil
	}
	w.e.Emit(obj{"ev": "dec", "by": "stream", "of": s.of, "mode": s.mode, "data": s.got.obj(), "hit": s.cr.hit, "err": errString(err), "panic": panicked})
}

func (w *codecWorld) again(s *codecStream) {
	n := 0
	var last error
	for i := 0; i < 3; i++ {
		p := make([]byte, w.r.Intn(100)+1)
		var k int
		err, panicked := w.try(func() (err error) { k, err = s.r.Read(p); return })
		n += k
		if i > 0 && errString(last) != errString(err) {
			err = errors.New("first " + errString(last) + ", then " + errString(err))
		}
		last = err
		if panicked {
			w.e.Emit(obj{"ev": "again", "n": n, "end": s.end, "eof": false, "err": errString(err), "panic": true})
			return
		}
	}
	w.e.Emit(obj{"ev": "again", "n": n, "end": s.end, "eof": last == io.EOF, "err": errString(last), "panic": false})
	if wt, ok := s.r.(io.WriterTo); ok {
		var b bytes.Buffer
		err, panicked := w.try(func() error { _, err := wt.WriteTo(&b); return err })
		// the end is no error of WriteTo
		w.e.Emit(obj{"ev": "again", "n": b.Len(), "end": s.end, "eof": err == nil, "err": errString(err), "panic": panicked})
	}
}

// api compresses and decompresses as a whole
func (w *codecWorld) api(o codecOp) {
	data := bytesLike(w.r, o.Like, o.N)
	keep := bytes.Clone(data)
	id := int(w.ids.Add(1))
	ev := obj{"ev": "enc", "by": "api", "id": id, "data": dataOf(keep), "hit": false, "err": "", "panic": false}
	var text []byte
	var err error
	var panicked bool
	if o.To {
		ev["by"] = "to"
		f := &faultWriter{left: o.Fail}
		err, panicked = w.try(func() error { return compress.To(f, data) })
		text = f.Bytes()
		ev["hit"] = f.hit
	} else {
		err, panicked = w.try(func() (err error) { text, err = compress.Compress(data); return })
	}
	ev["err"], ev["panic"], ev["out"] = errString(err), panicked, len(text)
	w.e.Emit(ev)
	if ev["hit"] == true || err != nil {
		return
	}
	// somebody else uses the coders before the text is decompressed
	if other, err := compress.Compress(bytesLike(w.r, "noise", 1+w.r.Intn(5000))); err == nil && w.r.chance(50) {
		compress.Decompress(other)
	}
	w.decompress(id, "ok", text)
	clear(data)
}

func (w *codecWorld) decompress(id int, mode string, text []byte) {
	keep := bytes.Clone(text)
	var got []byte
	err, panicked := w.try(func() (err error) { got, err = compress.Decompress(text); return })
	if o, e := compress.Compress([]byte("something else")); e == nil {
		compress.Decompress(o)
	}
	if !bytes.Equal(keep, text) {
		err = errors.New("the input was changed")
		mode = "ok"
	}
	w.e.Emit(obj{"ev": "dec", "by": "api", "of": id, "mode": mode, "data": dataOf(got), "hit": false, "err": errString(err), "panic": panicked})
}

func (w *codecWorld) do(o codecOp) {
	s := w.slots[o.S]
	switch o.O {
	case "enc":
		s = &codecStream{fw: &faultWriter{left: o.Fail}}
		w.slots[o.S] = s
		s.err, s.panic = w.try(func() (err error) { s.w, err = w.c.Compress(s.fw); return })
	case "write":
		if s == nil || s.w == nil {
			return
		}
		data := bytesLike(w.r, o.Like, o.N)
		if o.Chunk < 100 {
			data = data[:min(len(data), 5000)]
		}
		for len(data) > 0 {
			k := min(o.Chunk, len(data))
			p := bytes.Clone(data[:k])
			s.in.add(p)
			if s.err == nil {
				var n int
				s.err, s.panic = w.try(func() (err error) { n, err = s.w.Write(p); return })
				if s.err == nil && n != k {
					s.err = io.ErrShortWrite
				}
			}
			// the caller may use its memory for something else
			for i := range p {
				p[i] = 0xee
			}
			data = data[k:]
		}
	case "finish":
		if s != nil {
			w.finish(s)
		}
	case "dec":
		t := w.slots[o.Of]
		if t == nil || t.id == 0 || t.fw.hit {
			return
		}
		text, ok := spoil(w.r, t.text, o.Mode, o.X)
		if !ok {
			return
		}
		s = &codecStream{of: t.id, mode: o.Mode}
		s.cr = &chunkReader{r: bytes.NewReader(text), chunk: o.Chunk}
		if o.Mode == "fault" {
			s.cr = &chunkReader{r: bytes.NewReader(text[:o.X*len(text)/1001]), chunk: o.Chunk, fault: true}
		}
		w.slots[o.S] = s
		err, p := w.try(func() (err error) { s.r, err = w.c.Decompress(s.cr); return })
		w.settle(s, err, p)
	case "read":
		if s == nil || s.r == nil || s.done {
			return
		}
		if o.To {
			if wt, ok := s.r.(io.WriterTo); ok {
				f := &faultWriter{left: -1}
				if w.r.chance(20) {
					f.left = w.r.Intn(20000)
				}
				err, p := w.try(func() error { _, err := wt.WriteTo(f); return err })
				s.got.add(f.Bytes())
				if f.hit {
					s.done = true
					w.e.Emit(obj{"ev": "part", "of": s.of, "mode": s.mode, "data": s.got.obj(), "panic": p})
					return
				}
				if err == nil {
					err = io.EOF
				}
				w.settle(s, err, p)
				return
			}
		}
		for i := 0; !s.done && (i == 0 || o.All); i++ {
			n := o.N
			if o.All {
				n = 1 + w.r.Intn(1+min(o.N, 300000))
			}
			w.read(s, n)
		}
	case "again":
		if s != nil && s.r != nil && s.done {
			w.again(s)
		}
	case "abandon", "forget":
		if s != nil && s.r != nil && !s.done {
			w.e.Emit(obj{"ev": "part", "of": s.of, "mode": s.mode, "data": s.got.obj(), "panic": false})
		}
		delete(w.slots, o.S)
	case "api":
		w.api(o)
	case "bad":
		data := bytesLike(w.r, o.Like, o.N)
		text, err := compress.Compress(data)
		id := int(w.ids.Add(1))
		w.e.Emit(obj{"ev": "enc", "by": "api", "id": id, "data": dataOf(data), "hit": false, "err": errString(err), "panic": false, "out": len(text)})
		if bad, ok := spoil(w.r, text, o.Mode, o.X); ok && err == nil {
			w.decompress(id, o.Mode, bad)
		}
	case "par":
		var wg sync.WaitGroup
		for i := 0; i < o.N; i++ {
			wg.Add(1)
			x := &codecWorld{e: w.e, r: newRng(w.r.Int63()), c: w.c, slots: map[int]*codecStream{}, ids: w.ids}
			go func() {
				defer wg.Done()
				for j := 0; j < 4; j++ {
					like := pick(x.r, []string{"zero", "noise", "text", "loop"})
					n := x.r.Intn(60000)
					if x.r.chance(50) {
						x.do(codecOp{O: "api", N: n, Like: like, To: x.r.chance(50), Fail: -1})
						continue
					}
					x.do(codecOp{O: "enc", S: 1, Fail: -1})
					x.do(codecOp{O: "write", S: 1, N: n, Like: like, Chunk: 5000})
					x.do(codecOp{O: "finish", S: 1})
					x.do(codecOp{O: "dec", S: 2, Of: 1, Mode: pick(x.r, []string{"ok", "ok", "ok", "cut", "fault"}), X: x.r.Intn(1000), Chunk: 4096})
					x.do(codecOp{O: "read", S: 2, N: 3000, All: true, To: x.r.chance(30)})
					x.do(codecOp{O: "again", S: 2})
				}
			}()
		}
		wg.Wait()
	default:
		check(fmt.Errorf("unknown operation %s", o.O))
	}
}

func codecMain(args []string) {
	fs := flag.NewFlagSet("codec", flag.ExitOnError)
	ops := fs.String("ops", "", "")
	seed := fs.Int64("seed", 1, "")
	out := fs.String("out", "", "")
	fs.String("dir", "", "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]codecOp
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	defer e.Close()
	for i, h := range hs {
		w := &codecWorld{e: e, r: newRng(*seed*1000 + int64(i)), slots: map[int]*codecStream{}, ids: new(atomic.Int64)}
		w.c = encoding.GetCompressor("zstd")
		e.Emit(obj{"ev": "new"})
		if w.c == nil {
			e.Emit(obj{"ev": "died", "err": "no compressor is registered as zstd"})
			return
		}
		for _, o := range h {
			w.do(o)
		}
		if i == 0 {
			// larger than any message
			w.do(codecOp{O: "api", N: 8<<20 + w.r.Intn(8<<20), Like: pick(w.r, []string{"zero", "noise", "text", "loop"}), To: w.r.chance(50), Fail: -1})
			w.do(codecOp{O: "enc", S: 1, Fail: -1})
			w.do(codecOp{O: "write", S: 1, N: 8<<20 + w.r.Intn(8<<20), Like: pick(w.r, []string{"zero", "noise", "text", "loop"}), Chunk: 1 << 20})
			w.do(codecOp{O: "finish", S: 1})
			w.do(codecOp{O: "dec", S: 2, Of: 1, Mode: "ok", Chunk: 1 << 16})
			w.do(codecOp{O: "read", S: 2, N: 300000, All: true, To: w.r.chance(30)})
			w.do(codecOp{O: "again", S: 2})
		}
	}
}
