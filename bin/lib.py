"""Shared machinery of the checks: build the driver from /repo's working tree, run it,
let TLC judge its traces, write evidence, report violations and known findings."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 4)


class CheckError(Exception):
    """The check itself failed: no verdict."""


def sh(cmd, env=None, timeout=900, cwd=None, ok=(0,)):
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         text=True, errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise CheckError("timeout: %s" % " ".join(map(str, cmd))[:300])
    if ok is not None and p.returncode not in ok:
        raise CheckError("exit %d: %s\n%s\n%s" % (p.returncode, " ".join(map(str, cmd))[:300], out[-3000:], err[-5000:]))
    return p.returncode, out, err


def go_env(go="1.23.12"):
    _, out, _ = sh(["bash", "-c", ". /opt/vp/env.sh; env -0"])
    env = dict(x.split("=", 1) for x in out.split("\0") if "=" in x)
    if go != "1.23.12":
        root = "/opt/veriftools/go" + go
        env["GOROOT"] = root
        env["PATH"] = root + "/bin:" + env["PATH"]
    env["GOTOOLCHAIN"] = "local"
    return env


class Ctx:
    """One run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/tmp")
        self.states = self.transitions = self.traces = self.events = 0
        self.judged = {}
        self.models = []
        self.samples = []
        self.rejections = []
        self.extra = {}
        self.env = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def path(self, *a):
        return os.path.join(self.scratch, *a)

    def log(self, *a):
        print("[%s %5.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    # ---- building

    def overlay(self, hooks=True, zstd=True, extra=None):
        rep = {}
        drv = os.path.join(VERIF, "driver")
        for f in sorted(os.listdir(drv)):
            if f.endswith(".go") and not f.endswith("_test.go"):
                rep[os.path.join(REPO, "internal/verifx", f)] = os.path.join(drv, f)
        d = self.path("overlay")
        os.makedirs(d, exist_ok=True)
        if self.env is None:
            self.env = go_env()

        def moddir(m):
            _, out, _ = sh(["go", "list", "-m", "-f", "{{.Dir}}", m], env=self.env, cwd=REPO)
            return out.strip()

        if zstd:
            # The parquet writer makes a new zstd encoder, of many megabytes, for each
            # column of each write. Reusing encoders makes saves ten times faster and
            # produces the same bytes. The library is not under test.
            src = os.path.join(moddir("github.com/apache/arrow/go/v17"), "parquet/compress/zstd.go")
            s = open(src).read()
            old = "enc, _ := zstd.NewWriter(nil, zstd.WithZeroFrames(true), zstd.WithEncoderLevel(compressLevel))"
            if s.count(old) == 1:
                s = s.replace(old, "enc := verifEncoder(compressLevel)")
                s += ("\nvar verifEncoders sync.Map\n\nfunc verifEncoder(l zstd.EncoderLevel) *zstd.Encoder {\n"
                      "\tif e, ok := verifEncoders.Load(l); ok {\n\t\treturn e.(*zstd.Encoder)\n\t}\n"
                      "\te, _ := zstd.NewWriter(nil, zstd.WithZeroFrames(true), zstd.WithEncoderLevel(l))\n"
                      "\tverifEncoders.Store(l, e)\n\treturn e\n}\n")
                if not re.search(r'^\s*"sync"', s, re.M):
                    s = s.replace('import (', 'import (\n\t"sync"', 1)
                open(os.path.join(d, "zstd.go"), "w").write(s)
                rep[src] = os.path.join(d, "zstd.go")
        if hooks:
            # every durable commit becomes a crash and scheduling point
            for mod, f, sig, tag in (("github.com/dgraph-io/badger/v4", "txn.go", "func (txn *Txn) Commit() error {", "Badger"),
                                     ("github.com/gernest/rbf", "tx.go", "func (tx *Tx) Commit() error {", "Rbf")):
                src = os.path.join(moddir(mod), f)
                s = open(src).read()
                if s.count(sig) != 1:
                    raise CheckError("cannot hook %s" % src)
                recv = "txn" if tag == "Badger" else "tx"
                empty = "len(txn.pendingWrites) == 0" if tag == "Badger" else "!tx.writable"
                s = s.replace(sig, sig.replace(" Commit()", " verifCommit()"))
                s += ("\n// VerifHook is called before and after each commit that writes.\nvar VerifHook func(after bool)\n\n"
                      + sig + "\n\tif VerifHook == nil || %s {\n\t\treturn %s.verifCommit()\n\t}\n"
                      "\tVerifHook(false)\n\terr := %s.verifCommit()\n\tVerifHook(true)\n\treturn err\n}\n" % (empty, recv, recv))
                if tag == "Badger":  # batches
                    sig = "func (txn *Txn) CommitWith(cb func(error)) {"
                    if s.count(sig) != 1:
                        raise CheckError("cannot hook %s" % src)
                    s = s.replace(sig, sig.replace(" CommitWith(", " verifCommitWith("))
                    s += ("\n" + sig + "\n\tif VerifHook == nil || len(txn.pendingWrites) == 0 {\n\t\ttxn.verifCommitWith(cb)\n\t\treturn\n\t}\n"
                          "\tVerifHook(false)\n\ttxn.verifCommitWith(cb)\n\tVerifHook(true)\n}\n")
                o = os.path.join(d, tag + ".go")
                open(o, "w").write(s)
                rep[src] = o
            # and so does the beginning of each transaction
            for src, sig, call in ((os.path.join(d, "Badger.go"), "func (db *DB) NewTransaction(update bool) *Txn {", "update"),
                                   (os.path.join(moddir("github.com/gernest/rbf"), "db.go"), "func (db *DB) Begin(writable bool) (_ *Tx, err error) {", "writable")):
                s = open(src).read()
                if s.count(sig) != 1:
                    raise CheckError("cannot hook %s" % src)
                s = s.replace(sig, sig + "\n\tif VerifBegin != nil {\n\t\tVerifBegin(%s)\n\t}" % call)
                s += "\n// VerifBegin is called when a transaction begins.\nvar VerifBegin func(update bool)\n"
                o = os.path.join(d, "Begin-" + os.path.basename(src))
                open(o, "w").write(s)
                if src.startswith(d):
                    rep[[k for k, v in rep.items() if v == src][0]] = o
                else:
                    rep[src] = o
            # sequences may be slow
            src = os.path.join(moddir("github.com/dgraph-io/badger/v4"), "db.go")
            s = open(src).read()
            sig = "func (seq *Sequence) Next() (uint64, error) {"
            if s.count(sig) != 1:
                raise CheckError("cannot hook %s" % src)
            s = s.replace(sig, sig + "\n\tif VerifNext != nil {\n\t\tVerifNext()\n\t}")
            s += "\n// VerifNext is called before a sequence gives its next number.\nvar VerifNext func()\n"
            rep[src] = os.path.join(d, "Next-db.go")
            open(rep[src], "w").write(s)
        if extra:
            rep.update(extra)
        p = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(p, "w"))
        return p

    def build(self, hooks=True, tags=None, race=False):
        ov = self.overlay(hooks)
        out = self.path("driver")
        cmd = ["go", "build", "-overlay", ov, "-o", out]
        t = list(tags or [])
        if t:
            cmd += ["-tags", ",".join(t)]
        if race:
            cmd.append("-race")
        sh(cmd + ["./internal/verifx"], env=self.env, cwd=REPO, timeout=600)
        self.log("driver built")
        return out

    def build_server(self, slow=False):
        """The server itself. It sleeps when it decodes a message that says so, which a
        client uses to have calls on their way at a moment of its choice."""
        _, out, _ = sh(["go", "list", "-m", "-f", "{{.Dir}}", "google.golang.org/grpc"], env=self.env, cwd=REPO)
        src = os.path.join(out.strip(), "encoding/proto/proto.go")
        s = open(src).read()
        m = re.search(r"^func \(codec\) Unmarshal\((\w+) \[\]byte, (\w+) (any|interface\{\})\) error \{$", s, re.M)
        if not m:
            raise CheckError("cannot hook %s" % src)
        s = s.replace(m.group(0), m.group(0) + "\n\tif VerifDecode != nil {\n\t\tVerifDecode(%s)\n\t}" % m.group(1))
        s += "\n// VerifDecode sees messages before they are decoded.\nvar VerifDecode func([]byte)\n"
        o, e = self.path("grpc-proto.go"), self.path("main-hook.go")
        open(o, "w").write(s)
        open(e, "w").write("""package main

import (
	"bytes"
	"time"

	verifproto "google.golang.org/grpc/encoding/proto"
)

func init() {
	mark := []byte("verif-decode-delay-")
	verifproto.VerifDecode = func(b []byte) {
		if i := bytes.Index(b, mark); i >= 0 && len(b) >= i+len(mark)+3 {
			ms := 0
			for _, c := range b[i+len(mark) : i+len(mark)+3] {
				ms = 10*ms + int(c-'0')
			}
			time.Sleep(time.Duration(ms) * time.Millisecond)
		}
	}
}
""")
        extra = {src: o, os.path.join(REPO, "cmd/rq/verif_hook.go"): e}
        if slow:
            # files are written in two halves, with a pause in between
            _, out, _ = sh(["go", "env", "GOROOT"], env=self.env, cwd=REPO)
            f = os.path.join(out.strip(), "src/os/file.go")
            s = open(f).read()
            sig = "func (f *File) Write(b []byte) (n int, err error) {"
            if s.count(sig) != 1:
                raise CheckError("cannot hook %s" % f)
            s = s.replace(sig, """func (f *File) Write(b []byte) (n int, err error) {
	if d, _ := time.ParseDuration(Getenv("VERIF_SLOW_WRITES")); d > 0 && f != nil && len(b) > 64 && len(f.name) > 5 && f.name[:5] != "/dev/" {
		n, err = f.verifWrite(b[:len(b)/2])
		if err != nil {
			return
		}
		time.Sleep(d)
		m, err := f.verifWrite(b[n:])
		return n + m, err
	}
	return f.verifWrite(b)
}

func (f *File) verifWrite(b []byte) (n int, err error) {""")
            extra[f] = self.path("os-file.go")
            open(extra[f], "w").write(s)
        ov = self.overlay(hooks=False, extra=extra)
        sh(["go", "build", "-overlay", ov, "-o", self.path("rq"), "./cmd/rq"], env=self.env, cwd=REPO, timeout=600)
        self.log("server built")
        return self.path("rq")

    def run(self, args, name, timeout=600, ok=(0,), mem=0):
        """Runs one scenario of the driver in its own scratch directory, returns its trace."""
        d = self.path("w-" + name)
        os.makedirs(d)
        trace = self.path(name + ".ndjson")
        cmd = [self.path("driver")] + args + ["-out", trace, "-dir", d]
        if mem:
            # code that eats memory takes its process down, not the sandbox
            cmd = ["prlimit", "--as=%d" % (mem << 20)] + cmd
        env = dict(self.env, TMPDIR=os.path.join(d, "tmp"), HOME=os.path.join(d, "home"), TZ="UTC")
        os.makedirs(env["TMPDIR"])
        os.makedirs(env["HOME"])
        p = subprocess.Popen(cmd, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=open(self.path(name + ".err"), "w"),
                             start_new_session=True)
        hung = False
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            hung = True
            os.kill(p.pid, signal.SIGQUIT)
            try:
                p.wait(10)
            except subprocess.TimeoutExpired:
                pass
            os.killpg(p.pid, signal.SIGKILL)
            rc = p.wait()
        err = open(self.path(name + ".err"), errors="replace").read()
        if rc in (3, 137, -9) and not hung:
            # the driver itself is at fault, or it was killed for lack of memory
            raise CheckError("driver exit %d: %s\n%s" % (rc, " ".join(cmd)[:300], err[-5000:]))
        if rc != 0:
            # the code under test took the process down, or never came back
            self.mend(trace)
            with open(trace, "a") as f:
                f.write(json.dumps({"ev": "died", "err": ("hung: " if hung else "") + err[:600]}) + "\n")
        shutil.rmtree(d, ignore_errors=True)
        return trace

    @staticmethod
    def mend(trace):
        """Drops an incomplete last line."""
        b = open(trace, "rb").read() if os.path.exists(trace) else b""
        open(trace, "wb").write(b[:b.rfind(b"\n") + 1])

    def parallel(self, jobs, n=NCPU):
        """jobs: list of callables"""
        with cf.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(j) for j in jobs]
            return [f.result() for f in fs]

    # ---- TLC

    def tlc(self, module, cfg, consts=None, args=(), timeout=600, env=None, workers=None, heap="4g", label=None, ok=(0,)):
        """Runs TLC on a copy of the specifications. cfg is the text of the configuration."""
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.scratch)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                os.symlink(os.path.join(SPEC, f), os.path.join(d, f))
        cfgp = os.path.join(d, "run.cfg")
        open(cfgp, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Dtlc2.TLC.stopAfter=100000", "-Djava.io.tmpdir=" + d,
               "-cp", JAR + ":/opt/veriftools/tla/CommunityModules-deps.jar:/opt/veriftools/tla/CommunityModules.jar",
               "tlc2.TLC", "-config", cfgp, "-metadir", os.path.join(d, "states"), "-noGenerateSpecTE",
               "-workers", str(workers or 1)] + list(args) + [os.path.join(d, module + ".tla")]
        rc, out, err = sh(cmd, env=e, timeout=timeout, cwd=d, ok=None)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        st = (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)
        if ok is not None and rc not in ok:
            raise CheckError("TLC %s exit %d\n%s\n%s" % (module, rc, out[-6000:], err[-2000:]))
        return rc, out, st

    def model(self, module, cfg, timeout=600, workers=NCPU, args=(), label=None, heap="8g"):
        """Exhaustive exploration of a configuration. A violated invariant is an error of the
        specification, never a verdict on the code."""
        t = time.time()
        rc, out, (distinct, gen) = self.tlc(module, cfg, timeout=timeout, workers=workers, args=args, heap=heap)
        if "Model checking completed. No error has been found." not in out:
            raise CheckError("model %s did not complete\n%s" % (module, out[-4000:]))
        self.states += distinct
        self.transitions += gen
        self.models.append({"module": module, "config": label or module, "distinct_states": distinct,
                            "transitions": gen, "wall_s": round(time.time() - t, 1)})
        self.log("model %s %s: %d distinct states, %d transitions" % (module, label or "", distinct, gen))
        return out

    def broken(self, module, cfg, inv, timeout=600):
        """A specification broken on purpose must violate inv: what inv says is not vacuous."""
        rc, out, st = self.tlc(module, cfg, timeout=timeout, workers=NCPU, ok=None)
        if "is violated" not in out or inv not in out:
            raise CheckError("model %s: %s is not violated by the broken variant\n%s" % (module, inv, out[-3000:]))
        self.models.append({"module": module, "config": "broken on purpose", "violates": inv})

    def simulate(self, module, cfg, num, depth, seed, timeout=300):
        """Random behaviours of a generator specification, which prints them as json."""
        rc, out, st = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed)],
                               timeout=timeout, ok=None)
        if "Error:" in out:
            raise CheckError("simulation of %s failed\n%s" % (module, out[-4000:]))
        hs = []
        for m in re.findall(r'^"BEHAVIOUR (.*)"$', out, re.M):
            if m not in hs:
                hs.append(m)
        if not hs:
            raise CheckError("no behaviours from %s\n%s" % (module, out[-2000:]))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.transitions += int(m.group(1))
        self.log("%d behaviours of %s" % (len(hs), module))
        self.models.append({"module": module, "config": "simulation", "behaviours": len(hs)})
        return [json.loads(json.loads('"' + h + '"')) for h in hs]

    def behaviours(self, num, steps, seed, crashes=2, closes=2, calm=False):
        return self.simulate("RequiemGen", """SPECIFICATION GSpec
CONSTANTS Labels = {"A","B","C"} NBuckets = 3 Width = 2 MaxSamples = 14 MaxCrashes = %d MaxCloses = %d MaxScans = 14 Lease = 4
IndexFirst = FALSE DropOnClose = FALSE Steps = %d Calm = %s
INVARIANTS Over Completeness Soundness Readable Intact Graceful
CHECK_DEADLOCK FALSE
""" % (crashes, closes, steps, "TRUE" if calm else "FALSE"), num, steps + 1, seed)

    def judge(self, module, traces, consts=None, timeout=800, heap="3g"):
        """Lets TLC evaluate every event of the traces. A rejected event is printed by the
        specification as <<"REJECT", line, reason>>."""
        cfg = "SPECIFICATION TraceSpec\nPOSTCONDITION Consumed\nCHECK_DEADLOCK FALSE\nCONSTANT Prop = \"%s\"\n" % self.prop
        for k, v in (consts or {}).items():
            cfg += "CONSTANT %s = %s\n" % (k, v)

        def one(tr):
            n = sum(1 for _ in open(tr))
            if n == 0:
                raise CheckError("empty trace " + tr)
            rc, out, (distinct, gen) = self.tlc(module, cfg, env={"TRACE": tr}, timeout=timeout, heap=heap)
            m = re.search(r'<<"CONSUMED", (\d+), (\d+)>>', out)
            if not m or int(m.group(1)) != n:
                raise CheckError("trace %s not consumed\n%s" % (tr, out[-4000:]))
            rej = [(int(a), b) for a, b in re.findall(r'<<"REJECT", (\d+), "((?:[^"\\]|\\.)*)">>', out)]
            return tr, n, int(m.group(2)), rej, distinct, gen

        for tr, n, judged, rej, distinct, gen in self.parallel([lambda tr=tr: one(tr) for tr in traces]):
            self.traces += 1
            self.events += n
            self.states += distinct
            self.transitions += gen
            self.judged[module] = self.judged.get(module, 0) + judged
            for line, why in rej:
                self.rejections.append({"trace": tr, "module": module, "line": line, "why": why})
        self.log("judged %d events of %d traces with %s, %d rejected" % (self.judged.get(module, 0), len(traces), module, len(self.rejections)))
        if self.judged.get(module, 0) == 0:
            raise CheckError("no event of any trace was judged by %s: vacuous" % module)

    def sample(self, trace, n=3, width=400):
        with open(trace) as f:
            for i, line in enumerate(f):
                if i >= n:
                    break
                self.samples.append(line.strip()[:width])

    # ---- the end

    def known(self):
        p = os.path.join(VERIF, "known-findings.json")
        return [k for k in json.load(open(p)).get("findings", []) if k["property"] == self.prop]

    def finish(self, level, assumptions, rule=None):
        known, fresh = [], []
        for r in self.rejections:
            with open(r["trace"]) as f:
                lines = f.read().split("\n")
            r["event"] = lines[r["line"] - 1]
            k = next((k for k in self.known() if k["module"] == r["module"] and re.search(k["why"], r["why"])
                      and re.search(k["event"], r["event"])), None)
            (known if k else fresh).append((k, r))
        for k in self.known():
            hits = sum(1 for x, _ in known if x is k)
            if hits:
                print("KNOWN-FINDING: property=%s %s (%d events)" % (self.prop, k["what"], hits))
            else:
                print("KNOWN-FINDING: property=%s %s (not provoked by this run)" % (self.prop, k["what"]))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "events_recorded": self.events, "events_judged": self.judged, "models": self.models,
               "samples": self.samples or ["-"]}
        if rule:
            cov["rule"] = rule
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        if fresh:
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            _, r = fresh[0]
            rp = os.path.join(d, "%s-seed%d.ndjson" % (self.prop, self.seed))
            with open(r["trace"]) as f, open(rp, "w") as o:
                for i, line in enumerate(f):
                    if i < r["line"]:
                        o.write(line)
            for _, x in fresh[:5]:
                print("rejected by %s, line %d: %s\n  %s" % (x["module"], x["line"], x["why"], x["event"][:1500]))
            print("%d events rejected" % len(fresh))
            print("VIOLATION property=%s replay=%s" % (self.prop, rp))
            return 1
        self.log("held on everything explored")
        return 0

    def cleanup(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
