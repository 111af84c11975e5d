package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// query scenario: repeats behaviours of Query.tla with rq query. Processes that are killed
// where files are written may only write so many bytes, the signal for that kills them.

type queryOp struct {
	O  string `json:"o"`
	P  int    `json:"p"`
	S  string `json:"s"`
	PC string `json:"pc"`
}

type queryScript struct {
	file  string
	src   string
	size  int
	stmts []obj
}

// makeScripts writes scripts of known output. The first two have the same xxhash.
func makeScripts(r *rng, dir string, names []string) map[string]*queryScript {
	const head = "import { print, println, Metrics } from \"@requiemdb/rq\";\n"
	clashA, clashB := collide(head + "println(\"")
	o := map[string]*queryScript{}
	// what follows is common to the first two
	tail, tailStmts := scriptBody(r, "t")
	long := ""
	if r.chance(40) {
		// much that is common to all of them
		long = "/*" + strings.Repeat(" much ado about nothing\n", 1<<(6+r.Intn(8))) + "*/\n"
	}
	for i, n := range names {
		var src string
		var stmts []obj
		switch i {
		case 0, 1:
			text := []string{clashA, clashB}[i]
			src = head + "println(\"" + text + "\");\n" + tail
			stmts = append([]obj{{"k": "print", "t": text, "nl": true}}, tailStmts...)
		default:
			src, stmts = scriptBody(r, n)
			src = head + src
		}
		ext := pick(r, []string{".ts", ".js"})
		if i > 1 && r.chance(30) {
			// types
			src += "const typed: number = 1;\ninterface Unused { a: string }\n"
			ext = ".ts"
		}
		if i > 1 {
			src = long + src + long
		}
		s := &queryScript{file: filepath.Join(dir, n+ext), src: src, size: len(src), stmts: stmts}
		check(os.WriteFile(s.file, []byte(src), 0600))
		o[n] = s
	}
	return o
}

func scriptBody(r *rng, name string) (string, []obj) {
	var w strings.Builder
	stmts := []obj{}
	for n := 1 + r.Intn(5); n > 0; n-- {
		switch k := r.Intn(14); {
		case k == 0:
			w.WriteString(pick(r, []string{"throw new Error(\"on purpose\");\n", "(null as any).x();\n", "(Metrics as any).none();\n", "throw null;\n", "throw undefined;\n", "throw 0;\n", "throw \"\";\n", "throw {};\n", "throw [];\n",
				"Promise.resolve(1).x.y;\n", "throw false;\n"}))
			stmts = append(stmts, obj{"k": "throw"})
		case k == 1:
			w.WriteString("new Metrics().query();\n")
			stmts = append(stmts, obj{"k": "scan"})
		case k == 2 && r.chance(40):
			w.WriteString(pick(r, []string{"const const = 1;\n", "import { x } from \"nothing\"; println(x);\n", "println(\"unfinished);\n", "function ( {\n"}))
			stmts = append(stmts, obj{"k": "wrong"})
		case k == 3:
			// values that are not text, and nothing at all
			t := pick(r, []string{"", "1", "-7", "true", "2.5", "9007199254740991"})
			fmt.Fprintf(&w, "println(%s);\n", t)
			stmts = append(stmts, obj{"k": "print", "t": t, "nl": true})
		case k < 6:
			t := pick(r, []string{"", " ", "a\nb", "%d", "%", "end\n", "\t", "é", "\\n", fmt.Sprint(name, r.Intn(1000))})
			fmt.Fprintf(&w, "print(%s);\n", quote(t))
			stmts = append(stmts, obj{"k": "print", "t": t, "nl": false})
		default:
			t := fmt.Sprintf("%s-%d-%s", name, r.Intn(1000000), pick(r, []string{"x", "ключ", "日本", "'", "`", "${a}", "//", "/*"}))
			fmt.Fprintf(&w, "println(%s);\n", quote(t))
			stmts = append(stmts, obj{"k": "print", "t": t, "nl": true})
		}
		if r.chance(15) {
			// odd, but right
			w.WriteString(pick(r, []string{"if ((1 as any) === NaN) println(\"never\");\n", "if (typeof Metrics == (\"nul\" as any)) println(\"never\");\n",
				"switch (1 as any) { case 2: case 2: println(\"never\"); }\n", "if ((1 as any) === -0) println(\"never\");\n", "if (([] as any) === []) println(\"never\");\n",
				"debugger;\n", "({a: 1, a: 2} as any);\n", "const u" + itoa(n) + " = !(1 as any) in ({} as any);\n"}))
		}
		if r.chance(30) {
			// something to write
			fmt.Fprintf(&w, "const filler%d = [%s\"\"];\nif (filler%d.length < 0) println(\"never\");\n", n, strings.Repeat("\"ü\",", 1<<(4+r.Intn(13))), n)
		}
	}
	return w.String(), stmts
}

func queryMain(args []string) {
	fs := flag.NewFlagSet("query", flag.ExitOnError)
	out := fs.String("out", "", "")
	dir := fs.String("dir", "", "")
	bin := fs.String("bin", "", "")
	ops := fs.String("ops", "", "json list of behaviours")
	seed := fs.Int64("seed", 1, "")
	check(fs.Parse(args))
	b, err := os.ReadFile(*ops)
	check(err)
	var hs [][]queryOp
	check(json.Unmarshal(b, &hs))
	e := newEmitter(*out)
	for i, h := range hs {
		d := filepath.Join(*dir, itoa(i))
		runQueries(newRng(*seed*10007+int64(i)), h, e, *bin, d)
		os.RemoveAll(d)
	}
	e.Close()
}

func runQueries(r *rng, h []queryOp, e *Emitter, bin, dir string) {
	check(os.MkdirAll(filepath.Join(dir, "tmp"), 0755))
	var names []string
	seen := map[string]bool{}
	for _, o := range h {
		if !seen[o.S] {
			seen[o.S] = true
			names = append(names, o.S)
		}
	}
	scripts := makeScripts(r, dir, names)
	slow := ""
	if r.chance(50) {
		// files take their time
		slow = itoa(5+r.Intn(60)) + "ms"
	}
	var wg sync.WaitGroup
	var live atomic.Int32
	// processes that are on their way
	waits := map[int]chan struct{}{}
	for i, o := range h {
		if o.O != "start" {
			if w := waits[o.P]; w != nil {
				<-w
			}
			continue
		}
		// how it ends
		limit, kill := -1, time.Duration(-1)
		for _, x := range h[i+1:] {
			if x.P == o.P {
				if x.O == "kill" {
					if x.PC == "create" || x.PC == "write" || r.chance(30) {
						limit = r.Intn(3*scripts[o.S].size + 4096)
						if r.chance(10) {
							limit = 0
						}
					} else {
						kill = time.Duration(r.Intn(120)) * time.Millisecond
						if slow != "" {
							kill *= 2
						}
					}
				}
				break
			}
		}
		file := scripts[o.S].file
		if live.Load() == 0 && r.chance(60) {
			// a file that was another script before, and looks the same from outside
			file = filepath.Join(dir, "script.ts")
			check(os.WriteFile(file, []byte(scripts[o.S].src), 0600))
			check(os.Chtimes(file, time.Unix(epoch, 0), time.Unix(epoch, 0)))
		}
		live.Add(1)
		cmd := exec.Command(bin, "query", "--remoteAddress", "127.0.0.1:1", file)
		if limit >= 0 {
			cmd = exec.Command("prlimit", append([]string{fmt.Sprintf("--fsize=%d", limit), "--core=0"}, cmd.Args...)...)
		}
		cmd.Env = append(os.Environ(), "HOME="+dir, "TMPDIR="+filepath.Join(dir, "tmp"), "VERIF_SLOW_WRITES="+slow)
		var stdout bytes.Buffer
		cmd.Stdout = &stdout
		check(cmd.Start())
		done := make(chan struct{})
		waits[o.P] = done
		s := scripts[o.S]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer close(done)
			var mu sync.Mutex
			hung, ended := false, false
			t := time.AfterFunc(100*time.Second, func() {
				mu.Lock()
				defer mu.Unlock()
				if !ended {
					hung = true
					cmd.Process.Kill()
				}
			})
			defer t.Stop()
			if kill >= 0 {
				time.AfterFunc(kill, func() {
					mu.Lock()
					defer mu.Unlock()
					if !ended {
						cmd.Process.Signal(syscall.SIGKILL)
					}
				})
			}
			err := cmd.Wait()
			live.Add(-1)
			mu.Lock()
			ended = true
			isHung := hung
			mu.Unlock()
			rc := 0
			var x *exec.ExitError
			if errors.As(err, &x) {
				rc = x.ExitCode()
			} else {
				check(err)
			}
			e.Emit(obj{"ev": "run", "script": s.stmts, "out": stdout.String(), "rc": rc, "hung": isHung, "cut": rc != 0 && !isHung && (limit >= 0 || kill >= 0)})
		}()
	}
	wg.Wait()
}
