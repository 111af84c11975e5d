----------------------------- MODULE IndexTrace -----------------------------
(***************************************************************************)
(* Judges what real batches built (P20) and what real shards found (P15).  *)
(* Ids and columns are pairs <<n \div 2^20, n % 2^20>>; the first of a     *)
(* column is its shard.                                                    *)
(***************************************************************************)
EXTENDS Cal, FiniteSets, Json, IOUtils

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged,
          pend,     \* batch -> samples added
          meant,    \* fragment -> its samples
          dump,     \* fragment -> what it looked like when it was built
          begun,    \* samples whose writing has begun
          written,  \* samples completely written
          touched,  \* shards opened for writing or reading
          since,    \* query under way -> samples written when it began
          held      \* row kept by the driver -> what it held
vars == <<l, judged, pend, meant, dump, begun, written, touched, since, held>>

ToSet(s) == {s[i] : i \in DOMAIN s}
Sample(a) == [id |-> a.id, t |-> a.t, ls |-> ToSet(a.ls)]

Names(t) == {BucketName(b) : b \in Buckets(t)}
Entries(S) == UNION {{<<k[1], v, s.id[1], s.id[2], k[2]>> : k \in s.ls, v \in Names(s.t)} : s \in S}

Found(S, e) == {s.id : s \in {x \in S : ToSet(e.ls) \subseteq x.ls /\ Touches(x.t, e.s, e.e)}}
ShardsOf(S) == {k[1] : k \in UNION {s.ls : s \in S}}

Asc(q) == \A i \in 1..(Len(q) - 1) : Lt(q[i], q[i + 1])

Batch(e) ==
  CASE e.ev = "build" ->
         IF e.err # "" THEN "no fragments"
         ELSE IF ToSet(e.out) # Entries(pend[e.b]) THEN "the fragments are not those of the samples"
         ELSE IF Cardinality(ToSet(e.out)) # Len(e.out) THEN "an entry twice" ELSE ""
    [] e.ev = "pbuild" ->
         IF e.err # "" THEN "no fragments"
         ELSE IF ToSet(e.out) # Entries({Sample(e.adds[i]) : i \in DOMAIN e.adds}) THEN "the fragments of a concurrent batch are not those of its samples" ELSE ""
    [] e.ev = "again" -> IF e.sum # dump[e.f] THEN "fragments changed after they were built" ELSE ""
    [] OTHER -> "-"

Lookup(e) ==
  CASE e.ev = "rows" ->
         IF e.err # "" THEN "lookup failed"
         ELSE IF ~Asc(e.out) THEN "ids out of order or listed twice"
         ELSE IF ToSet(e.out) # Found(written, e) THEN "not the samples with all labels in the buckets" ELSE ""
    [] e.ev = "prows" ->
         IF e.err # "" THEN "lookup failed"
         ELSE IF ~(Found(since[e.q], e) \subseteq ToSet(e.out)) THEN "a concurrent lookup missed a sample"
         ELSE IF ~(ToSet(e.out) \subseteq Found(begun, e)) THEN "a concurrent lookup found too much" ELSE ""
    [] e.ev = "row" ->
         IF e.err # "" THEN "labels not read"
         ELSE IF ToSet(e.out) # UNION {s.ls : s \in {x \in written : x.id = e.id /\ e.view \in Names(x.t)}} THEN "not the labels of the sample"
         ELSE IF e.n # Cardinality(ToSet(e.out)) THEN "wrong number of labels" ELSE ""
    [] e.ev = "held" -> IF e.out # held[e.h] THEN "labels read earlier changed" ELSE ""
    [] e.ev \in {"write", "pwrite"} -> IF e.err # "" THEN "fragments not written" ELSE ""
    [] e.ev = "fail" -> IF ~e.passed THEN "the error of an update is lost" ELSE ""
    [] e.ev = "all" ->
         IF e.err # "" THEN "shards not listed"
         ELSE IF Cardinality(ToSet(e.out)) # Len(e.out) THEN "a shard twice"
         ELSE IF ~(ShardsOf(written) \subseteq ToSet(e.out)) THEN "a shard is missing"
         ELSE IF ~(ToSet(e.out) \subseteq touched) THEN "a shard nobody wrote"
         ELSE IF e.first > 1 THEN "the listing went on after it was ended" ELSE ""
    [] e.ev = "view" ->
         IF e.err # "" THEN "shard not read"
         ELSE IF ToSet(e.out) # {x \in Entries(written) : x[1] = e.shard /\ x[2] = e.view} THEN "a shard holds something else" ELSE ""
    [] e.ev \in {"close", "open"} -> IF e.err # "" THEN "cannot " \o e.ev ELSE ""
    [] OTHER -> "-"

Verdict(e) ==
  CASE e.ev = "died" -> "the process died"
    [] OTHER -> IF Prop = "P20" THEN Batch(e) ELSE Lookup(e)

Fresh == pend = <<>> /\ meant = <<>> /\ dump = <<>> /\ begun = {} /\ written = {} /\ touched = {} /\ since = <<>> /\ held = <<>>
At(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
Step(e) ==
  CASE e.ev = "new" ->
         /\ pend' = [b \in 1..e.batches |-> {}] /\ meant' = <<>> /\ dump' = <<>> /\ begun' = {} /\ written' = {}
         /\ touched' = {} /\ since' = <<>> /\ held' = <<>>
    [] e.ev = "add" -> pend' = [pend EXCEPT ![e.b] = @ \cup {Sample(e)}] /\ UNCHANGED <<meant, dump, begun, written, touched, since, held>>
    [] e.ev = "reset" -> pend' = [pend EXCEPT ![e.b] = {}] /\ UNCHANGED <<meant, dump, begun, written, touched, since, held>>
    [] e.ev = "build" ->
         /\ meant' = (e.f :> pend[e.b]) @@ meant /\ dump' = (e.f :> e.sum) @@ dump
         /\ pend' = [pend EXCEPT ![e.b] = {}]
         /\ UNCHANGED <<begun, written, touched, since, held>>
    [] e.ev = "wbegin" -> begun' = begun \cup meant[e.f] /\ touched' = touched \cup ShardsOf(meant[e.f]) /\ UNCHANGED <<pend, meant, dump, written, since, held>>
    [] e.ev \in {"write", "pwrite"} -> written' = written \cup meant[e.f] /\ UNCHANGED <<pend, meant, dump, begun, touched, since, held>>
    [] e.ev = "qbegin" -> since' = (e.q :> written) @@ since /\ UNCHANGED <<pend, meant, dump, begun, written, touched, held>>
    [] e.ev = "touch" -> touched' = touched \cup {e.shard} /\ UNCHANGED <<pend, meant, dump, begun, written, since, held>>
    [] e.ev = "row" /\ e.h > 0 -> held' = (e.h :> e.out) @@ held /\ UNCHANGED <<pend, meant, dump, begun, written, touched, since>>
    [] OTHER -> UNCHANGED <<pend, meant, dump, begun, written, touched, since, held>>

TraceInit == l = 1 /\ judged = 0 /\ Fresh
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
