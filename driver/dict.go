package main

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/dgraph-io/badger/v4"
	"github.com/gernest/requiemdb/internal/seq"
	"github.com/gernest/requiemdb/internal/translate"
)

// dict scenario: repeats behaviours of Ids.tla with real dictionaries and sequences.

// goid of the calling goroutine
func goid() string {
	var b [64]byte
	s := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	return s[1]
}

// personal gates let each registered goroutine pass one commit at a time
var personal = struct {
	sync.Mutex
	m map[string]*gate
}{m: map[string]*gate{}}

func installPersonal() {
	badger.VerifHook = func(after bool) {
		if after {
			return
		}
		personal.Lock()
		g := personal.m[goid()]
		personal.Unlock()
		if g != nil {
			g.wait()
		}
	}
}

type idsOp struct {
	O  string `json:"o"`
	P  int    `json:"p"`
	D  int    `json:"d"` // dictionary
	K  string `json:"k"`
	N  int    `json:"n"`
	C  bool   `json:"c"`
	Ks []struct {
		D int    `json:"d"`
		K string `json:"k"`
	} `json:"ks"`
}

func dictMain(args []string) {
	fs := flag.NewFlagSet("dict", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	child := fs.Int("child", -1, "")
	from := fs.Int("from", 0, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]idsOp
	check(json.Unmarshal(b, &hs))
	if *child >= 0 {
		e := appendEmitter(*out)
		d := &dicts{dir: *dir, e: e, seed: *seed*1000 + int64(*child), ops: hs[*child], running: map[int]*insertion{}}
		d.run(*from)
		e.Close()
		return
	}
	check(os.WriteFile(*out, nil, 0644))
	for i, h := range hs {
		e := appendEmitter(*out)
		e.Emit(obj{"ev": "new"})
		e.Close()
		d := filepath.Join(*dir, "d"+itoa(i))
		check(os.MkdirAll(d, 0755))
		for at := 0; at < len(h); {
			cmd := exec.Command(os.Args[0], "dict", "-out", *out, "-dir", d, "-ops", *ops, "-seed", strconv.FormatInt(*seed, 10),
				"-child", itoa(i), "-from", itoa(at))
			if !wasKilled(runChild(cmd, *out)) {
				break
			}
			for at < len(h) && h[at].O != "crash" {
				at++
			}
			at++
		}
		check(os.RemoveAll(d))
	}
}

type insertion struct {
	g    *gate
	done chan struct{}
	op   idsOp
	key  []byte
	n    uint64
	err  error
}

type dicts struct {
	dir     string
	e       *Emitter
	seed    int64
	ops     []idsOp
	db      *badger.DB
	tr      [3]*translate.Translate
	sq      *seq.Seq
	running map[int]*insertion
	bulked  int
}

// no prefix is a prefix of another
var dictPrefixes = [3]string{"", "1", "2keys"}

// key of a name in the behaviour: any byte string, a different one per behaviour
func (d *dicts) key(name string) []byte {
	r := newRng(d.seed)
	pool := [][]byte{{}, {0}, {0, 0}, {255}, []byte("keys"), []byte("ids"), []byte("seq"), []byte("k"), []byte("k="), []byte("=k"),
		[]byte("a\\=b"), {0, 0, 0, 0, 0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 1}, bytes.Repeat([]byte("long"), 3000), bytes.Repeat([]byte("long"), 3001),
		bytes.Repeat([]byte("x"), 64990), bytes.Repeat([]byte("x"), 65001), bytes.Repeat([]byte("x"), 65002), bytes.Repeat([]byte("x"), 300000),
		append(bytes.Repeat([]byte("x"), 300000), 'y'), []byte("ключ"), []byte("long"), []byte("keysk"), []byte("idsk"), bytes.Repeat([]byte{0xff}, 64)}
	r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
	if r.chance(70) {
		// keys that look alike
		x := bytes.Repeat([]byte("v"), 1<<(4+r.Intn(13)))
		at := func(s string, end string) []byte { return append(bytes.Clone(x), s+end...) }
		pairs := [][2][]byte{{[]byte("a"), []byte("A")}, {[]byte("7:a=x"), []byte("7:A=x")}, {[]byte("a"), []byte("a ")}, {[]byte("a"), []byte(" a")}, {[]byte("a"), []byte("a\x00")},
			{[]byte("a"), []byte("a\n")}, {[]byte("a=x"), []byte("a=X")}, {[]byte("é"), []byte("e\u0301")}, {{0xff}, []byte("\ufffd")}, {{0xc3}, {0xc3, 0xa9}}, {at("", "P"), at("", "Q")},
			{at("P", string(x)), at("Q", string(x))}, {x, at("", "v")}, {[]byte("1"), []byte("01")}, {[]byte("a/b"), []byte("a//b")}, {[]byte("ß"), []byte("ss")}, {[]byte("a"), []byte("aa")},
			{{1, 0}, {0, 1}}, {[]byte("ab"), []byte("ba")}, {[]byte("a.b"), []byte("a_b")}, {[]byte("0x1"), []byte("1")}, {[]byte("a"), []byte("\"a\"")}}
		p := r.Perm(len(pairs))
		var front [][]byte
		for _, i := range p[:3] {
			front = append(front, pairs[i][0], pairs[i][1])
		}
		for _, k := range pool {
			front = append(front, k)
		}
		// the same key only once
		pool = pool[:0:0]
		for _, k := range front {
			if !slices.ContainsFunc(pool, func(o []byte) bool { return bytes.Equal(o, k) }) {
				pool = append(pool, k)
			}
		}
	}
	return pool[int(name[len(name)-1]-'0')]
}

func (d *dicts) open() bool {
	err := guard(func() (err error) {
		if d.db, err = openDB(d.dir); err != nil {
			return
		}
		for i := 1; i <= 2; i++ {
			// spare capacity must not matter, nor what happens to the prefix later
			p := make([]byte, 0, 64)
			p = append(p, dictPrefixes[i]...)
			if d.tr[i], err = translate.New(d.db, p); err != nil {
				return
			}
			copy(p[:cap(p)], bytes.Repeat([]byte{'x'}, cap(p)))
		}
		d.sq, err = seq.New(d.db)
		return
	})
	d.e.Emit(obj{"ev": "open", "err": errString(err)})
	return err == nil
}

func (d *dicts) finish(p int) bool {
	i := d.running[p]
	if i == nil {
		return true
	}
	i.g.open()
	select {
	case <-i.done:
	case <-time.After(60 * time.Second):
		d.e.Emit(obj{"ev": "hung"})
		return false
	}
	delete(d.running, p)
	d.emitEnd(i)
	return true
}

func (d *dicts) emitEnd(i *insertion) {
	d.e.Emit(obj{"ev": "end", "p": i.op.P, "d": i.op.D, "k": hexKey(i.key), "n": strconv.FormatUint(i.n, 10), "err": errString(i.err)})
}

func hexKey(k []byte) string {
	if len(k) > 64 {
		return hex.EncodeToString(sum(k)) + ":" + itoa(len(k))
	}
	return "x" + hex.EncodeToString(k)
}

func (d *dicts) run(from int) {
	installPersonal()
	if !d.open() {
		return
	}
	up := true
	if from > 0 {
		d.lookups(from)
	}
	for at := from; at < len(d.ops); at++ {
		o := d.ops[at]
		switch o.O {
		case "insert":
			i := &insertion{g: newGate(), done: make(chan struct{}), op: o, key: d.key(o.K)}
			d.running[o.P] = i
			d.e.Emit(obj{"ev": "begin", "p": o.P, "d": o.D, "k": hexKey(i.key)})
			i.g.enable()
			go func() {
				id := goid()
				personal.Lock()
				personal.m[id] = i.g
				personal.Unlock()
				k := bytes.Clone(i.key)
				i.err = guard(func() (err error) { i.n, err = d.tr[o.D].TranslateKey(k); return })
				personal.Lock()
				delete(personal.m, id)
				personal.Unlock()
				close(i.done)
			}()
			i.g.settle(i.done)
		case "step":
			if i := d.running[o.P]; i != nil {
				i.g.permit <- struct{}{}
				i.g.settle(i.done)
			}
		case "end":
			if !d.finish(o.P) {
				return
			}
		case "ids":
			d.ids(o.N)
		case "idsc":
			d.concurrentIds(o.N)
		case "look":
			d.lookups(at)
		case "bulk":
			d.bulk(at)
		case "race":
			d.race(at, o.D)
		case "close":
			for p := range d.running {
				if !d.finish(p) {
					return
				}
			}
			err := guard(func() error {
				return errors.Join(d.sq.Release(), d.tr[1].Close(), d.tr[2].Close(), d.db.Close())
			})
			d.e.Emit(obj{"ev": "close", "err": errString(err)})
			if err != nil {
				return
			}
			up = false
		case "open":
			if up {
				break
			}
			if !d.open() {
				return
			}
			up = true
			d.lookups(at)
		case "crash":
			settle(d.dir + "/db")
			d.e.Emit(obj{"ev": "crash"})
			syscall.Kill(os.Getpid(), syscall.SIGKILL)
			select {}
		}
	}
	if up {
		for p := range d.running {
			if !d.finish(p) {
				return
			}
		}
		d.lookups(len(d.ops))
		guard(func() error {
			return errors.Join(d.sq.Release(), d.tr[1].Close(), d.tr[2].Close(), d.db.Close())
		})
	}
}

// lookups asks for keys and numbers, known and unknown, without inserting anything
func (d *dicts) lookups(at int) {
	r := newRng(d.seed*17 + int64(at))
	for t := 1; t <= 2; t++ {
		found := []uint64{}
		for j := 0; j < 4; j++ {
			k := d.key("k" + itoa(r.Intn(7)))
			n, err := d.find(t, k)
			if err == nil {
				found = append(found, n)
			}
		}
		for j := 0; j < 3; j++ {
			n := uint64(r.Intn(6)) + uint64(r.Intn(4))*4096
			if len(found) > 0 && r.chance(60) {
				n = pick(r, found)
			}
			if r.chance(10) {
				n = ^uint64(0) - uint64(r.Intn(2))
			}
			var k string
			err := guard(func() (err error) { k, err = d.tr[t].TranslateID(n); return })
			d.e.Emit(obj{"ev": "id", "d": t, "n": strconv.FormatUint(n, 10), "k": hexKey([]byte(k)), "err": lookErr(err)})
		}
		if len(found) > 0 {
			var ns, ks []string
			for _, n := range found {
				ns = append(ns, strconv.FormatUint(n, 10))
			}
			err := guard(func() error {
				return d.tr[t].TranslateBulkID(found, func(k []byte) error { ks = append(ks, hexKey(bytes.Clone(k))); return nil })
			})
			d.e.Emit(obj{"ev": "ids", "d": t, "ns": ns, "ks": append([]string{}, ks...), "err": lookErr(err)})
		}
	}
}

func (d *dicts) find(t int, k []byte) (n uint64, err error) {
	kk := bytes.Clone(k)
	err = guard(func() (err error) { n, err = d.tr[t].Find(kk); return })
	d.e.Emit(obj{"ev": "find", "d": t, "k": hexKey(k), "n": strconv.FormatUint(n, 10), "err": lookErr(err)})
	return
}

func lookErr(err error) string {
	if errors.Is(err, badger.ErrKeyNotFound) {
		return "unknown"
	}
	return errString(err)
}

// spiteful gives a different key for each j, many of which look alike
func spiteful(prefix string, j int) []byte {
	const letters = "aA \x00=\xff\\1"
	k := []byte(prefix)
	for ; ; j >>= 3 {
		k = append(k, letters[j&7])
		if j < 8 {
			break
		}
	}
	return k
}

// bulk inserts more keys than one lease holds
func (d *dicts) bulk(at int) {
	if d.bulked > 0 {
		return
	}
	d.bulked++
	r := newRng(d.seed*19 + int64(at))
	m := 4000 + r.Intn(300)
	var mu sync.Mutex
	kn, nk := map[string]string{}, map[string]string{}
	var wg sync.WaitGroup
	var failed error
	for w := 0; w < 4; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := w; j < m; j += 4 {
				k := spiteful("bulk"+itoa(at)+".", j)
				var n uint64
				err := guard(func() (err error) { n, err = d.tr[1].TranslateKey(k); return })
				mu.Lock()
				if err != nil {
					failed = err
				} else {
					s := strconv.FormatUint(n, 10)
					kn[hexKey(k)] = s
					nk[s] = hexKey(k)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	d.e.Emit(obj{"ev": "bulk", "d": 1, "kn": kn, "nk": nk, "err": errString(failed)})
	// read some of them again, one after the other
	var k2, n2 []string
	for j := 0; j < 50; j++ {
		k := spiteful("bulk"+itoa(at)+".", r.Intn(m))
		n, err := d.tr[1].Find(k)
		if err != nil {
			failed = err
			continue
		}
		s, err := d.tr[1].TranslateID(n)
		if err != nil {
			failed = err
			continue
		}
		k2 = append(k2, hexKey([]byte(s)))
		n2 = append(n2, strconv.FormatUint(n, 10))
	}
	d.e.Emit(obj{"ev": "again", "d": 1, "ks": k2, "ns": n2, "err": errString(failed)})
}

// race lets several callers insert the same new keys at the same moment
func (d *dicts) race(at, t int) {
	const workers, rounds = 6, 60
	type got struct {
		N   []string `json:"ns"`
		K   string   `json:"k"`
		Err string   `json:"err"`
	}
	var all []got
	for j := 0; j < rounds; j++ {
		key := []byte("race" + itoa(at) + "." + itoa(j))
		var ns [workers]uint64
		var errs [workers]error
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				k := bytes.Clone(key)
				<-start
				errs[w] = guard(func() (err error) { ns[w], err = d.tr[t].TranslateKey(k); return })
			}()
		}
		close(start)
		wg.Wait()
		g := got{N: []string{}, K: hexKey(key)}
		for w := range ns {
			if errs[w] == nil {
				g.N = append(g.N, strconv.FormatUint(ns[w], 10))
			} else if strings.HasPrefix(errs[w].Error(), "panic:") {
				g.Err = errString(errs[w])
			}
		}
		all = append(all, g)
	}
	d.e.Emit(obj{"ev": "race", "d": t, "got": all})
	for j := 0; j < 10; j++ {
		k := []byte("race" + itoa(at) + "." + itoa(j))
		n, err := d.find(t, k)
		if err == nil {
			var s string
			err = guard(func() (err error) { s, err = d.tr[t].TranslateID(n); return })
			d.e.Emit(obj{"ev": "id", "d": t, "n": strconv.FormatUint(n, 10), "k": hexKey([]byte(s)), "err": lookErr(err)})
		}
	}
}

// numbers of 64 bits for TLC: three parts below 2^24
func parts(n uint64) []uint64 { return []uint64{n >> 48, n >> 24 & 0xffffff, n & 0xffffff} }

// runs compresses a list of numbers into ranges of consecutive ones
func runs(ns []uint64) (o [][]any) {
	o = [][]any{}
	for i := 0; i < len(ns); {
		j := i
		for j+1 < len(ns) && ns[j+1] == ns[j]+1 {
			j++
		}
		o = append(o, []any{parts(ns[i]), parts(ns[j])})
		i = j + 1
		if len(o) > 400 {
			break
		}
	}
	return
}

func (d *dicts) take(n int) (ns []uint64, err error) {
	err = guard(func() error {
		began := time.Now()
		for i := 0; i < n; i++ {
			if i&255 == 255 && time.Since(began) > 3*time.Second {
				// numbers that are slow to get are no less numbers
				break
			}
			ns = append(ns, d.sq.SampleID())
		}
		return nil
	})
	return
}

func (d *dicts) ids(n int) {
	ns, err := d.take(n)
	d.e.Emit(obj{"ev": "take", "runs": runs(ns), "sorted": true, "err": errString(err)})
}

// concurrentIds: several callers at once; each of them must see increasing numbers, and
// all of them together distinct ones
func (d *dicts) concurrentIds(n int) {
	var wg sync.WaitGroup
	per := make([][]uint64, 4)
	var errs [4]error
	for w := range per {
		wg.Add(1)
		go func() {
			defer wg.Done()
			per[w], errs[w] = d.take(n)
		}()
	}
	wg.Wait()
	var all []uint64
	up := true
	for _, l := range per {
		for i := 1; i < len(l); i++ {
			up = up && l[i] > l[i-1]
		}
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	d.e.Emit(obj{"ev": "take", "runs": runs(all), "sorted": up, "err": errString(errors.Join(errs[:]...))})
}
