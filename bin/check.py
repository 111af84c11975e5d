#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's working tree.

Tier and seed come from VERIF_TIER and VERIF_SEED. Exit 0: held on everything explored.
Exit 1 with a VIOLATION line: broken. Exit 2: no verdict."""
import json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib

TRUSTED = ["TLC evaluates the specifications as TLA+ means them", "the Go toolchain and badger, rbf, arrow/parquet, protobuf as libraries",
           "the driver projects payloads faithfully (driver/payload.go)"]


# ---------------------------------------------------------------- models

def core(c):
    """The whole machine, exhaustively within small bounds."""
    a = dict(labels='{"A","B"}', nb=2, width=1, samples=2, crashes=1, closes=1, scans=1)
    def cfg(spec, props, first="FALSE", drop="FALSE", **kw):
        k = dict(a, **kw)
        return """SPECIFICATION %s
CONSTANTS Labels = %s NBuckets = %d Width = %d MaxSamples = %d MaxCrashes = %d MaxCloses = %d MaxScans = %d Lease = 2
IndexFirst = %s DropOnClose = %s
CHECK_DEADLOCK FALSE
%s
""" % (spec, k["labels"], k["nb"], k["width"], k["samples"], k["crashes"], k["closes"], k["scans"], first, drop, props)
    safety = "INVARIANTS Completeness Soundness Instant Readable RecordsBeforeIndex Graceful Intact Listing Bijection Leased Increasing\nPROPERTIES DictStable Monotone"
    if not c.thorough:
        c.model("RequiemDB", cfg("Spec", safety, nb=1, scans=1), label="2 labels, 1 bucket, 2 samples, 1 crash, 1 close, 1 scan")
        return
    c.model("RequiemDB", cfg("Spec", safety), label="2 labels, 2 buckets, 2 samples, 1 crash, 1 close, 1 scan")
    c.model("RequiemDB", cfg("Spec", safety, nb=1, samples=3, scans=1, width=2), label="2 labels in one shard, 3 samples", timeout=3000, heap="16g")
    c.model("RequiemDB", cfg("LiveSpec", "PROPERTIES ScanEnds CloseEnds", nb=1, samples=2, scans=1, crashes=0), label="liveness", timeout=3000, heap="16g")
    # what the specification rules out is really ruled out
    c.broken("RequiemDB", cfg("Spec", "INVARIANTS RecordsBeforeIndex", first="TRUE", nb=1), "RecordsBeforeIndex")
    c.broken("RequiemDB", cfg("Spec", "INVARIANTS Readable", first="TRUE", nb=1), "Readable")
    c.broken("RequiemDB", cfg("Spec", "INVARIANTS Graceful", drop="TRUE", nb=1), "Graceful")


# ---------------------------------------------------------------- scenarios

def store(c, quick=16, thorough=160, args=("-rich", "-gaps"), probes=40, big=True):
    n = thorough if c.thorough else quick
    # in some databases label numbers are about to leave the first container or shard of the index
    base = lambda i: ["-labelbase", str((1 << 16 if i % 4 == 1 else 10 << 20 if i % 16 == 3 else 1 << 20) - 10 - 10 * (i % 7))] if i % 4 == 1 or i % 8 == 3 else []
    # some hold many samples that are alike, some texts that are hard to carry
    # in some the samples are of today and there are scans that do not say when they are evaluated,
    # in some an earlier process took a lot of sample ids with it
    kind = lambda i: {0: ["-bulk", "60", "-rounds", "4", "-scans", "12"], 1: ["-recent"], 2: ["-wide"], 3: ["-wide", "-leap", "20000"]}.get(i % 4, [])
    trs = c.parallel([lambda i=i: c.run(["store", "-seed", str(c.seed * 10000 + i)] + base(i) + kind(i) + ["-probes", str(probes)] + list(args), "store%d" % i) for i in range(n)])
    # and in some a lot of samples share a bucket
    crowds = (700, 1500) if not c.thorough else (1500, 3000, 6000)
    trs += c.parallel([lambda i=i, m=m: c.run(["store", "-seed", str(c.seed * 10000 + 9900 + i), "-crowd", str(m), "-rounds", "3", "-scans", "8", "-instants", "1"] + list(args), "storecrowd%d" % i, timeout=900)
                       for i, m in enumerate(crowds)])
    if c.thorough and big:
        trs.append(c.run(["store", "-seed", str(c.seed * 10000 + 9999), "-base", "1048570"] + list(args), "storebig", timeout=900))
    c.sample(trs[0])
    c.judge("StoreTrace", trs)


def hist(c, quick=48, thorough=600, steps=60, module="HistTrace", **kw):
    hs = c.behaviours(thorough if c.thorough else quick, steps, seed=c.seed, **kw)
    k = 8 if not c.thorough else 32

    def job(i):
        p = c.path("hist-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["hist", "-ops", p, "-seed", str(c.seed * 100 + i)], "hist%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0])
    c.judge(module, trs, timeout=3000)


def sweep(c, quick=8, thorough=200, steps=34):
    """The same history again and again, dying at each commit of its last save in turn."""
    n = thorough if c.thorough else quick
    hs = []
    for h in c.behaviours(12 * n, steps, seed=c.seed + 7, crashes=1, closes=1):
        saving = saved = False
        for i, o in enumerate(h):
            saving = o["o"] == "begin" or saving and o["o"] not in ("end", "close")
            saved = saved or o["o"] == "end"
            if o["o"] == "crash":
                if saving and saved and h[i + 1:]:
                    hs.append(h[:i + 9])
                break
    hs = hs[:n]
    if not hs:
        raise lib.CheckError("no behaviour with a crash in a save")

    def job(i):
        p = c.path("sweep%d.json" % i)
        json.dump([hs[i]], open(p, "w"))
        return c.run(["hist", "-sweep", "-ops", p, "-seed", str(c.seed * 100 + i)], "sweep%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(len(hs))])
    c.log("%d lives that end at a commit of a save" % sum(1 for t in trs for l in open(t) if '"ev":"crash"' in l))
    c.judge("HistTrace", trs, timeout=3000)


def conc(c, quick=16, thorough=400):
    n = thorough if c.thorough else quick
    trs = c.parallel([lambda i=i: c.run(["conc", "-seed", str(c.seed * 1000 + i)], "conc%d" % i) for i in range(n)])
    c.judge("HistTrace", trs, timeout=3000)


def otlp(c, scenario, quick, thorough):
    n, per = thorough if c.thorough else quick
    trs = c.parallel([lambda i=i: c.run([scenario, "-n", str(per), "-seed", str(c.seed * 1000 + i)], "%s%d" % (scenario, i)) for i in range(n)])
    c.sample(trs[0])
    c.judge("OtlpTrace", trs)


def ids(c, quick=40, thorough=400, steps=40):
    """Dictionaries and the sequence of sample ids."""
    def cfg(props, n=2, procs="{1,2}", keys='{"k1","k2"}', dicts="{1}", nc="FALSE", nl="FALSE", ops=4, crashes=2, closes=1, mids=2):
        return """SPECIFICATION Spec
CONSTANTS Procs = %s Dicts = %s Keys = %s Lease = %d MaxOps = %d MaxCrashes = %d MaxCloses = %d MaxIds = %d NoConflicts = %s NoLease = %s
CHECK_DEADLOCK FALSE
%s
""" % (procs, dicts, keys, n, ops, crashes, closes, mids, nc, nl, props)
    safety = "INVARIANTS Agree Told Injective Below Increasing\nPROPERTIES Stable"
    if c.thorough:
        c.model("Ids", cfg(safety, n=2, ops=5, mids=3, keys='{"k1","k2","k3"}'), label="2 processes, 3 keys, 5 insertions, 2 crashes", timeout=3000, heap="16g")
        c.model("Ids", cfg(safety, n=1, dicts="{1,2}", ops=4), label="2 dictionaries", timeout=3000, heap="16g")
        c.broken("Ids", cfg("INVARIANTS Agree", nc="TRUE"), "Agree")
        c.broken("Ids", cfg("INVARIANTS Told", nc="TRUE"), "Told")
        c.broken("Ids", cfg("INVARIANTS Injective", nl="TRUE", n=1), "Injective")
        c.broken("Ids", cfg("INVARIANTS Increasing", nl="TRUE", n=1), "Increasing")
    else:
        c.model("Ids", cfg(safety, ops=3), label="2 processes, 2 keys, 3 insertions, 2 crashes, 1 close")
    hs = c.simulate("IdsGen", """SPECIFICATION GSpec
CONSTANTS Procs = {1,2,3} Dicts = {1,2} Keys = {"k0","k1","k2","k3","k4","k5"} Lease = 1000 MaxOps = 30 MaxCrashes = 3 MaxCloses = 3 MaxIds = 30
NoConflicts = FALSE NoLease = FALSE Steps = %d
INVARIANTS Over Agree Told Injective Below Increasing
CHECK_DEADLOCK FALSE
""" % steps, thorough if c.thorough else quick, 3 * steps, c.seed)
    k = 8 if not c.thorough else 32

    def job(i):
        p = c.path("ids-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["dict", "-ops", p, "-seed", str(c.seed * 100 + i)], "dict%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0])
    c.judge("DictTrace", trs, timeout=3000)


def script(c, quick=160, thorough=2000):
    def cfg(spec, objs, times, durs, vals, steps, sample, props):
        return """SPECIFICATION %s
CONSTANTS Objs = %s Times <- MCTimes Durs <- MCDurs Vals = %s Steps = %d Sample = %s
CHECK_DEADLOCK FALSE
%s
""".replace("Times <- MCTimes Durs <- MCDurs", "Times <- %s Durs <- %s" % (times, durs)) % (spec, objs, vals, steps, sample, props)
    c.model("ScriptMC", cfg("Spec", "{1,2}", "MCTimes", "MCDurs", '{"v1"}', 4 if c.thorough else 3, "FALSE", "INVARIANTS Agrees Relative Calendar\nPROPERTIES Isolated"),
            label="all scripts of %d calls on 2 objects" % (4 if c.thorough else 3), timeout=3000)
    hs = []
    for steps, part in ((6, 2), (20, 2), (140, 16)):
        hs += c.simulate("ScriptMC", cfg("Spec", "{1,2}", "MCTimes", "MCDurs", '{"v1","v2","v3"}', steps, "TRUE", "INVARIANTS Over Agrees Relative"),
                         (thorough if c.thorough else quick) // part, steps + 1, c.seed)
    k = 8

    def job(i):
        p = c.path("script-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        args = ["-src", os.path.join(lib.REPO, "packages/rq/src/index.ts")] if i % 3 == 2 else []
        return c.run(["script", "-ops", p, "-seed", str(c.seed * 100 + i)] + args, "script%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0], width=900)
    c.judge("ScriptTrace", trs)


def cal(c, quick=(8, 1500), thorough=(32, 12000)):
    def cfg(first, last, ranges):
        return "SPECIFICATION Spec\nCONSTANTS From = %d To = %d Ranges = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Anchor Walk Exact Nested\n" % (first, last, ranges)
    c.model("CalCheck", cfg(0, 24500, "FALSE"), label="every day of 1970 to 2036")
    if c.thorough:
        for a in range(0, 24000, 1500):
            c.model("CalCheck", cfg(a, a + 1499, "TRUE"), label="ranges starting on days %d to %d" % (a, a + 1499), timeout=3000)
    else:
        a = (c.seed * 977) % 20000
        c.model("CalCheck", cfg(a, a + 160, "TRUE"), label="ranges starting on 160 days")
    n, per = thorough if c.thorough else quick
    trs = c.parallel([lambda i=i: c.run(["cal", "-n", str(per), "-seed", str(c.seed * 1000 + i)], "cal%d" % i) for i in range(n)])
    c.sample(trs[0])
    c.judge("CalTrace", trs)


def rows(c, quick=64, thorough=1200, steps=40):
    """Programs over rows and bit-sliced integers."""
    def cfg(regs, points, shards, steps, freeze="TRUE"):
        return "SPECIFICATION Spec\nCONSTANTS Regs = %s Points = %s NShards = %d Steps = %d Freeze = %s\nCHECK_DEADLOCK FALSE\nINVARIANTS Agrees Private\n" % (regs, points, shards, steps, freeze)
    c.model("Rows", cfg("{1,2,3}", "{1,2}", 2, 3), label="3 registers, 2 points in 2 shards, all programs of 3 operations")
    def bcfg(cols, top):
        return "SPECIFICATION Spec\nCONSTANTS Cols = %s Top = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Keeps Adds Pivots\n" % (cols, top)
    c.model("Bsi", bcfg("{1,2}", 7), label="all pairs of values below 8 on 2 columns")
    if c.thorough:
        c.model("Rows", cfg("{1,2,3}", "{1,2,3}", 2, 4), label="3 registers, 3 points in 2 shards, all programs of 4 operations", timeout=3000, heap="16g")
        c.model("Bsi", bcfg("{1,2,3}", 5), label="all pairs of values below 6 on 3 columns", timeout=3000)
        c.broken("Rows", cfg("{1,2,3}", "{1,2}", 2, 3, "FALSE"), "Agrees")
    hs = c.simulate("RowsGen", """SPECIFICATION GSpec
CONSTANTS Regs = {1,2,3,4} BRegs = {1,2,3} Points = {1,2,3,4,5,6,7,8,9,10,11,12} NShards = 1 Freeze = TRUE Steps = %d
INVARIANTS Over
CHECK_DEADLOCK FALSE
""" % steps, thorough if c.thorough else quick, steps + 1, c.seed)
    k = 8 if not c.thorough else 64

    def job(i):
        p = c.path("rows-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["rows", "-ops", p, "-seed", str(c.seed * 100 + i)], "rows%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0])
    c.judge("RowsTrace", trs, timeout=3000)


def index(c, quick=48, thorough=1000, steps=50, args=()):
    """Batches, fragments and lookups in the shards."""
    def cfg(spec, batches, labels, width, buckets, samples, builds, carry="FALSE", skip="FALSE", props="INVARIANTS Exact Own\nPROPERTIES Grows", more=""):
        return "SPECIFICATION %s\nCONSTANTS Batches = %s Labels = %s Width = %d Buckets = %s MaxSamples = %d MaxBuilds = %d Carry = %s SkipMissing = %s%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, batches, labels, width, buckets, samples, builds, carry, skip, more, props)
    c.model("Index", cfg("Spec", "{1,2}", "{1,2,3}", 2, "{1,2}", 2, 2), label="2 batches, 3 labels in 2 shards, 2 samples, 2 builds")
    if c.thorough:
        c.model("Index", cfg("Spec", "{1,2}", "{1,2,3}", 2, "{1,2}", 3, 3), label="2 batches, 3 labels in 2 shards, 3 samples, 3 builds", timeout=3000, heap="16g")
        c.broken("Index", cfg("Spec", "{1}", "{1,2}", 1, "{1}", 2, 2, carry="TRUE", props="INVARIANTS Own"), "Own")
        c.broken("Index", cfg("Spec", "{1}", "{1,2}", 1, "{1}", 2, 2, skip="TRUE", props="INVARIANTS Exact"), "Exact")
    hs = c.simulate("IndexGen", cfg("GSpec", "{1,2,3}", "{%s}" % ",".join(map(str, range(1, 25))), 3, "{1,2,3,4,5,6,7,8}", 1000, 1000, props="INVARIANTS Over", more=" Steps = %d" % steps),
                    thorough if c.thorough else quick, steps + 1, c.seed)
    hs = hs[:3 * (thorough if c.thorough else quick)]
    k = 8 if not c.thorough else 64

    def job(i):
        p = c.path("index-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["index", "-ops", p, "-seed", str(c.seed * 100 + i)] + list(args), "index%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0])
    c.judge("IndexTrace", trs, timeout=3000)


def codec(c, quick=48, thorough=1500, steps=50):
    """Streams of the codec and their coders."""
    def cfg(spec, streams, coders, writes, reopens, twice="FALSE", dirty="FALSE", props="INVARIANTS Exclusive Exact Round", more=""):
        return "SPECIFICATION %s\nCONSTANTS Streams = {%s} Coders = {%s} MaxWrites = %d MaxReopens = %d Twice = %s Dirty = %s%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, ",".join(map(str, range(1, streams + 1))), ",".join(map(str, range(1, coders + 1))), writes, reopens, twice, dirty, more, props)
    c.model("Codec", cfg("Spec", 3, 3, 2, 1), label="3 streams, 3 coders, 2 writes, 1 stream used again")
    if c.thorough:
        c.model("Codec", cfg("Spec", 3, 3, 2, 3), label="3 streams, 3 coders, 2 writes, 3 streams used again", timeout=3000, heap="16g")
        c.model("Codec", cfg("Spec", 4, 4, 1, 1), label="4 streams, 4 coders, 1 write", timeout=3000, heap="16g")
        c.broken("Codec", cfg("Spec", 3, 3, 2, 1, twice="TRUE", props="INVARIANTS Exclusive"), "Exclusive")
        c.broken("Codec", cfg("Spec", 3, 3, 2, 1, dirty="TRUE", props="INVARIANTS Exact"), "Exact")
    hs = c.simulate("CodecGen", cfg("GSpec", 6, 40, 6, 1000, props="INVARIANTS Over Exclusive Exact Round", more=" Steps = %d" % steps),
                    thorough if c.thorough else quick, steps + 1, c.seed)
    k = 8 if not c.thorough else 64

    def job(i):
        p = c.path("codec-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["codec", "-ops", p, "-seed", str(c.seed * 100 + i)], "codec%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]])
    c.sample(trs[0])
    c.judge("CodecTrace", trs, timeout=3000)


def render(c, quick=(16, 60), thorough=(128, 250)):
    """Documents rendered by scripts, several at once."""
    def cfg(a, b):
        return "SPECIFICATION Spec\nCONSTANTS Nums <- Nums_ Dens = {1,2,4} From = %d To = %d\nCHECK_DEADLOCK FALSE\nINVARIANTS Whole Order Units_ Near Differ\n" % (a, b)

    def pool(jobs, bufs, depth, dirty="FALSE", alias="FALSE", props="INVARIANTS Own Apart"):
        return "SPECIFICATION Spec\nCONSTANTS Jobs = {%s} Buffers = {%s} Depth = %d Dirty = %s Alias = %s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            ",".join(map(str, range(1, jobs + 1))), ",".join(map(str, range(1, bufs + 1))), depth, dirty, alias, props)
    c.model("RenderCheck", cfg(0, 4000), label="numbers to 4000")
    c.model("RenderPool", pool(2, 5, 3, props="INVARIANTS Own Apart\nPROPERTIES Finish"), label="2 documents of 3 levels, 5 buffers")
    c.broken("RenderPool", pool(2, 5, 3, dirty="TRUE", props="INVARIANTS Own"), "Own")
    c.broken("RenderPool", pool(2, 5, 3, alias="TRUE", props="INVARIANTS Own"), "Own")
    if c.thorough:
        for a in (4001, 900000, 1040000, 9990000):
            c.model("RenderCheck", cfg(a, a + 100000), label="numbers from %d" % a, timeout=3000)
        c.model("RenderPool", pool(3, 6, 3), label="3 documents of 3 levels, 6 buffers", timeout=3000, heap="16g")
    n, per = thorough if c.thorough else quick
    trs = c.parallel([lambda i=i: c.run(["render", "-n", str(per), "-seed", str(c.seed * 1000 + i)], "render%d" % i, mem=3072) for i in range(n)])
    c.sample(trs[0], width=900)
    c.judge("RenderTrace", trs)


def service(c, quick=(48, 64), thorough=(480, 1200)):
    """Services that are ticked and shut down. Periodic saves come once a minute, so the
    behaviours with one run side by side."""
    def cfg(spec, n=3, ticks=2, sess=1, commits=2, props="INVARIANTS Kept Once Alone", more="", **k):
        d = dict(NoSaveLock="FALSE", SaveCancelled="FALSE", LateClear="FALSE", NoCloseFlush="FALSE")
        d.update(k)
        return "SPECIFICATION %s\nCONSTANTS Exports = {%s} MaxTicks = %d MaxSessions = %d Commits = %d %s%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, ",".join(map(str, range(1, n + 1))), ticks, sess, commits, " ".join("%s = %s" % x for x in d.items()), more, props)
    c.model("Service", cfg("Spec"), label="3 exports, 2 ticks, 2 sessions")
    if c.thorough:
        c.model("Service", cfg("Spec", n=4, ticks=3, sess=2), label="4 exports, 3 ticks, 3 sessions", timeout=3000, heap="16g")
        c.model("Service", cfg("Live", n=2, props="PROPERTIES Ends"), label="liveness", timeout=3000)
        for k, i in (("NoSaveLock", "Kept"), ("SaveCancelled", "Kept"), ("LateClear", "Kept"), ("NoCloseFlush", "Kept"), ("NoSaveLock", "Alone")):
            c.broken("Service", cfg("Spec", props="INVARIANTS " + i, **{k: "TRUE"}), i)
    slow, fast = thorough if c.thorough else quick

    def gen(num, ticks, steps):
        return c.simulate("ServiceGen", cfg("GSpec", n=40, ticks=ticks, sess=6, commits=4, props="INVARIANTS Over Kept Once", more=" Steps = %d" % steps), num, steps + 1, c.seed)
    calm = gen(fast, 0, 30)[:fast]
    # a lot at once
    calm += [[{"o": "burst", "sig": 1, "n": n}, {"o": "scan"}] for n in (4500,) + ((20000,) if c.thorough else ())]
    ticked = [h for h in gen(4 * slow, 1, 26) if any(x["o"] == "tick" for x in h)][:slow]
    if c.thorough:
        ticked += [h for h in gen(slow, 4, 60) if sum(x["o"] == "tick" for x in h) > 1][:slow // 4]

    def job(hs, name, i):
        p = c.path("ops-%s%d.json" % (name, i))
        json.dump(hs, open(p, "w"))
        return c.run(["svc", "-ops", p, "-seed", str(c.seed * 1000 + i)], "%s%d" % (name, i), timeout=1800)
    k = 6 if not c.thorough else 24
    trs = c.parallel([lambda i=i, h=h: job([h], "tick", i) for i, h in enumerate(ticked)] + [lambda i=i: job(calm[i::k], "calm", i) for i in range(k) if calm[i::k]], n=54)
    c.extra["periodic_saves_waited_for"] = sum(x["o"] == "tick" for h in ticked for x in h)
    c.sample(trs[0])
    c.judge("ServiceTrace", trs, timeout=3000)


def server(c, quick=24, thorough=300, steps=14):
    """The server itself, interrupted and killed while clients call it."""
    def cfg(spec, props, calls=4, scans="3,4", order="Good", wait="TRUE", lives=2, more=""):
        return "SPECIFICATION %s\nCONSTANTS Calls = {%s} Scans = {%s} Order <- %s WaitHandlers = %s MaxLives = %d%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, ",".join(map(str, range(1, calls + 1))), scans, order, wait, lives, more, props)
    c.model("ServerMC", cfg("Spec", "INVARIANTS Unused Kept\nPROPERTIES Durable"), label="2 exports, 2 scans, 2 lives")
    if c.thorough:
        c.model("ServerMC", cfg("Spec", "INVARIANTS Unused Kept\nPROPERTIES Durable", calls=5, scans="4,5", lives=3), label="3 exports, 2 scans, 3 lives", timeout=3000, heap="16g")
        c.model("ServerMC", cfg("Live", "PROPERTIES Ends", calls=3, scans="3"), label="liveness", timeout=3000)
        for o, w, i in (("Good", "FALSE", "Unused"), ("ServiceFirst", "TRUE", "Kept"), ("IndexFirst", "TRUE", "Unused")):
            c.broken("ServerMC", cfg("Spec", "INVARIANTS " + i, order=o, wait=w), i)
    n = thorough if c.thorough else quick
    hs, seen = [], set()
    for h in c.simulate("ServerGen", cfg("GSpec", "INVARIANTS Over Unused Kept", calls=60, scans=",".join(map(str, range(37, 61))), lives=5, more=" Steps = %d" % steps),
                        3 * n, 5 * steps, c.seed):
        k = json.dumps(h[:-2])
        if k not in seen and any(x["o"] == "interrupt" for x in h):
            seen.add(k)
            hs.append(h)
    # After a kill up to a million ids are skipped, and the next save fills in as many rows
    # of each view, which takes long and much memory: only some are killed, few at a time.
    kills = [h for h in hs if any(x["o"] == "kill" for x in h)]
    once = [h for h in kills if sum(x["o"] == "kill" for x in h) == 1]
    calm = [h for h in hs if h not in kills][:n]
    kills = kills[:n // 6] if c.thorough else once[:2]
    rq = c.build_server()
    k = 6 if not c.thorough else 60
    parts = [("e2e%d" % i, calm[i::k]) for i in range(k) if calm[i::k]]
    k = 2 if not c.thorough else 10
    killing = [("kill%d" % i, kills[i::k]) for i in range(k) if kills[i::k]]

    def job(i, name, part):
        p = c.path(name + "-ops.json")
        json.dump(part, open(p, "w"))
        return c.run(["e2e", "-bin", rq, "-ops", p, "-seed", str(c.seed * 100 + i)], name, timeout=1800)

    def jobs(parts, base, n):
        return c.parallel([lambda i=i, x=x: job(base + i, *x) for i, x in enumerate(parts)], n=n)
    trs = sum(c.parallel([lambda: jobs(parts, 0, 6), lambda: jobs(killing, 1000, 2)]), [])
    c.extra["lives_of_servers"] = sum(1 for t in trs for l in open(t) if '"ev":"open"' in l)
    c.sample(trs[0])
    c.judge("ServiceTrace", trs, timeout=3000)


def own(c, quick=(8, 60), thorough=(64, 400)):
    """The server's own telemetry."""
    def cfg(props, n=4, batch=2, drain="TRUE", by="TRUE"):
        return "SPECIFICATION Spec\nCONSTANTS MaxSpans = %d Batch = %d Drain = %s ByScope = %s\nCHECK_DEADLOCK FALSE\n%s\n" % (n, batch, drain, by, props)
    good = "INVARIANTS Grouped Once Complete\nPROPERTIES Ends"
    c.model("SelfMC", cfg(good), label="4 spans of 2 resources and 2 scopes")
    c.broken("SelfMC", cfg("INVARIANTS Complete", drain="FALSE"), "Complete")
    c.broken("SelfMC", cfg("INVARIANTS Grouped", by="FALSE"), "Grouped")
    if c.thorough:
        c.model("SelfMC", cfg(good, n=6, batch=3), label="6 spans", timeout=3000, heap="16g")
    n, per = thorough if c.thorough else quick
    rq = c.build_server()
    trs = c.parallel([lambda i=i: c.run(["self", "-n", str(per), "-seed", str(c.seed * 1000 + i)], "self%d" % i) for i in range(n)])
    trs += c.parallel([lambda i=i: c.run(["selfserver", "-bin", rq, "-seed", str(c.seed * 1000 + i)], "selfserver%d" % i) for i in range(n // 4)])
    c.sample(trs[0])
    c.judge("SelfTrace", trs)


def query(c, quick=40, thorough=600, steps=40):
    """rq query, several at once and some killed."""
    def cfg(spec, props, procs=2, scripts='"s1","s2"', atomic="TRUE", clash="FALSE", more=""):
        return "SPECIFICATION %s\nCONSTANTS Procs = {%s} Scripts = {%s} Atomic = %s Clash = %s%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, ",".join(map(str, range(1, procs + 1))), scripts, atomic, clash, more, props)
    c.model("Query", cfg("Spec", "INVARIANTS Right Kept", procs=3), label="3 processes, 2 scripts")
    c.broken("Query", cfg("Spec", "INVARIANTS Right", atomic="FALSE"), "Right")
    c.broken("Query", cfg("Spec", "INVARIANTS Right", clash="TRUE"), "Right")
    if c.thorough:
        c.model("Query", cfg("Spec", "INVARIANTS Right Kept", procs=4, scripts='"s1","s2","s3"'), label="4 processes, 3 scripts", timeout=3000, heap="16g")
    hs = c.simulate("QueryGen", cfg("GSpec", "INVARIANTS Over Right Kept", procs=4, scripts='"s1","s2","s3","s4","s5"', more=" Steps = %d" % steps),
                    thorough if c.thorough else quick, 6 * steps, c.seed)
    hs = hs[:thorough if c.thorough else quick]
    rq = c.build_server(slow=True)
    k = 4 if not c.thorough else 40

    def job(i):
        p = c.path("query-ops%d.json" % i)
        json.dump(hs[i::k], open(p, "w"))
        return c.run(["query", "-bin", rq, "-ops", p, "-seed", str(c.seed * 100 + i)], "query%d" % i, timeout=1800)
    trs = c.parallel([lambda i=i: job(i) for i in range(k) if hs[i::k]], n=4)
    c.extra["killed"] = sum(1 for t in trs for l in open(t) if '"cut":true' in l)
    c.sample(trs[0])
    c.judge("QueryTrace", trs)


# ---------------------------------------------------------------- checks

def columns(c, quick=(8, 60), thorough=(64, 300)):
    """Messages of many types as columns, in memory and in files."""
    def cfg(rows, nested="FALSE", inv="RoundTrip Joined", more=""):
        return "SPECIFICATION Spec\nCONSTANTS MaxRows = %d Nested = %s %s\nCHECK_DEADLOCK FALSE\nINVARIANTS %s\n" % (rows, nested, more, inv)
    c.model("ColumnsMC", cfg(2), label="2 messages")
    c.broken("ColumnsMC", cfg(2, more="Shift <- NoShift", inv="Joined"), "Joined")
    c.broken("ColumnsMC", cfg(1, more="Nullable <- Never", inv="RoundTrip"), "RoundTrip")
    if c.thorough:
        c.model("ColumnsMC", cfg(1, "TRUE"), label="a message of all kinds of fields", timeout=3000)
        c.model("ColumnsMC", cfg(3), label="3 messages", timeout=3000, heap="8g")
    n, per = thorough if c.thorough else quick
    trs = c.parallel([lambda i=i: c.run(["columns", "-n", str(per), "-seed", str(c.seed * 1000 + i)], "columns%d" % i, mem=8192) for i in range(n)])
    c.sample(trs[0], width=900)
    c.judge("ColumnsTrace", trs)


def P01(c): core(c); store(c); hist(c, quick=16, thorough=200)
def P02(c): core(c); store(c); hist(c, quick=16, thorough=200)
def P03(c): core(c); store(c); hist(c, quick=16, thorough=200)
def P04(c): store(c, quick=24)
def P05(c): otlp(c, "merge", (16, 250), (64, 500)); store(c, quick=8)
def P06(c): core(c); store(c, args=("-rich", "-gaps", "-restart", "50")); hist(c, quick=24, thorough=200, crashes=0, closes=3)
def P07(c): core(c); service(c)
def P08(c): core(c); hist(c, quick=64, thorough=800, crashes=3, closes=1); sweep(c)
def P09(c): ids(c)
def P10(c): ids(c)
def P11(c): cal(c); store(c)
def P12(c): store(c, quick=24, args=("-rich", "-gaps", "-limits", "60"))
def P13(c): otlp(c, "trim", (16, 300), (64, 1200))
def P14(c): script(c)
def P16(c): rows(c)
def P15(c): index(c)
def P17(c): core(c); store(c, args=("-rich", "-gaps", "-labels", "30")); hist(c, quick=16, thorough=200)
def P18(c): core(c); hist(c, quick=64, thorough=800, crashes=0, closes=1); conc(c); c.parallel([lambda: service(c, quick=(32, 36)), lambda: index(c, quick=24, args=("-cold",))])
def P19(c): codec(c)
def P20(c): index(c)
def P21(c): server(c)
def P22(c): render(c)
def P23(c): query(c)
def P24(c): own(c)
def P25(c): columns(c)


LEVEL = "model_checking"


def main():
    prop = sys.argv[1]
    c = lib.Ctx(prop)
    try:
        c.build()
        globals()[prop](c)
        return c.finish(LEVEL, TRUSTED)
    except lib.CheckError as e:
        print("CHECK ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2
    finally:
        c.cleanup()


if __name__ == "__main__":
    sys.exit(main())
