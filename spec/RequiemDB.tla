----------------------------- MODULE RequiemDB -----------------------------
(***************************************************************************)
(* requiemdb as a whole: exports are acknowledged into a buffer, saves     *)
(* take the buffer and make it durable in a sequence of separate commits   *)
(* (dictionary, then record frames, then index), scans read the index      *)
(* shard by shard and then the frames, and the process may be closed or    *)
(* die at any point.                                                       *)
(*                                                                         *)
(* A sample is [n, id, ls, b]: n the order of acceptance, id its row, ls   *)
(* its labels and b its time bucket.  A label gets a number on first use;  *)
(* numbers are spread over index shards of Width numbers each.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Labels, NBuckets, Width,
          MaxSamples, MaxCrashes, MaxCloses, MaxScans,
          Lease,        \* sample ids and label numbers are leased in blocks
          IndexFirst,   \* a broken order of commits, to show that it matters
          DropOnClose   \* a broken shutdown, to show that it matters

None == [none |-> TRUE]
Bs == 1..NBuckets

Queries == [ls : SUBSET Labels, b1 : Bs, b2 : Bs, inst : BOOLEAN]
GoodQueries == {q \in Queries : q.b1 <= q.b2 /\ q.ls # {}}

VARIABLES
  up,        \* the process is running
  closing,   \* the process is shutting down in order
  acc,       \* all samples ever acknowledged, in order
  buf,       \* numbers of samples acknowledged, not yet being saved
  job,       \* the running save
  dict,      \* label -> number
  dcur, dend,\* next label number and end of its lease; dend is durable
  icur, iend,\* the same for sample ids
  frames,    \* <<bucket, n>>: record n is stored in the frame of the bucket
  index,     \* <<shard, bucket, label, n>>
  scan,      \* the running scan
  seen,      \* query -> samples a finished scan returned
  done,      \* samples whose save completed
  torn,      \* samples whose save was interrupted by a crash
  lost,      \* samples in the buffer at a crash
  ncrash, nclose, nscan
vars == <<up, closing, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

Shard(d, l) == d[l] \div Width
Ns == 1..Len(acc)
Matches(s, q) == q.ls \subseteq s.ls /\ q.b1 <= s.b /\ s.b <= q.b2
(* The elements of a set in some fixed order *)
RECURSIVE SetToSeq1(_)
SetToSeq1(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq1(S \ {x})

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

Init ==
  /\ up = TRUE /\ closing = FALSE
  /\ acc = <<>> /\ buf = {} /\ job = None
  /\ dict = << >> /\ dcur = 0 /\ dend = Lease
  /\ icur = 0 /\ iend = Lease
  /\ frames = {} /\ index = {}
  /\ scan = None /\ seen = [q \in {} |-> {}]
  /\ done = {} /\ torn = {} /\ lost = {}
  /\ ncrash = 0 /\ nclose = 0 /\ nscan = 0

------------------------------------------------------------------------------
(* Exports *)

Export(ls, b) ==
  /\ up /\ ~closing /\ Len(acc) < MaxSamples
  /\ acc' = Append(acc, [n |-> Len(acc) + 1, id |-> icur, ls |-> ls, b |-> b])
  /\ buf' = buf \cup {Len(acc) + 1}
  /\ icur' = icur + 1
  /\ iend' = IF icur + 1 > iend THEN iend + Lease ELSE iend
  /\ UNCHANGED <<up, closing, job, dict, dcur, dend, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

------------------------------------------------------------------------------
(* Saves: one commit per step *)

BeginSave ==
  /\ up /\ job = None /\ buf # {}
  /\ job' = [ns |-> buf, tl |-> UNION {acc[n].ls : n \in buf} \ DOMAIN dict,
             fb |-> {acc[n].b : n \in buf}, ls |-> UNION {acc[n].ls : n \in buf}, ix |-> {}]
  /\ buf' = {}
  /\ UNCHANGED <<up, closing, acc, dict, dcur, dend, icur, iend, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

ShardsOf(ls) == {Shard(dict, l) : l \in ls}

Translate(l) ==
  /\ up /\ job # None /\ l \in job.tl
  /\ dict' = dict @@ (l :> dcur)
  /\ dcur' = dcur + 1
  /\ dend' = IF dcur + 1 > dend THEN dend + Lease ELSE dend
  /\ job' = [job EXCEPT !.tl = @ \ {l}]
  /\ UNCHANGED <<up, closing, acc, buf, icur, iend, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

StoreFrame(b) ==
  /\ up /\ job # None /\ job.tl = {} /\ b \in job.fb
  /\ IndexFirst => job.ix = ShardsOf(job.ls)
  /\ frames' = frames \cup {<<b, n>> : n \in {m \in job.ns : acc[m].b = b}}
  /\ job' = [job EXCEPT !.fb = @ \ {b}]
  /\ UNCHANGED <<up, closing, acc, buf, dict, dcur, dend, icur, iend, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

StoreIndex(k) ==
  /\ up /\ job # None /\ job.tl = {}
  /\ ~IndexFirst => job.fb = {}
  /\ k \in ShardsOf(job.ls) \ job.ix
  /\ index' = index \cup UNION {{<<k, acc[n].b, l, n>> : l \in {x \in acc[n].ls : Shard(dict, x) = k}} : n \in job.ns}
  /\ job' = [job EXCEPT !.ix = @ \cup {k}]
  /\ UNCHANGED <<up, closing, acc, buf, dict, dcur, dend, icur, iend, frames, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

EndSave ==
  /\ up /\ job # None /\ job.tl = {} /\ job.fb = {} /\ job.ix = ShardsOf(job.ls)
  /\ done' = done \cup job.ns
  /\ job' = None
  /\ UNCHANGED <<up, closing, acc, buf, dict, dcur, dend, icur, iend, frames, index, scan, seen, torn, lost, ncrash, nclose, nscan>>

------------------------------------------------------------------------------
(* Scans: labels are looked up, each shard is read in a transaction of its  *)
(* own, and so is each frame.                                               *)

BeginScan(q) ==
  /\ up /\ ~closing /\ scan = None /\ nscan < MaxScans
  /\ nscan' = nscan + 1
  /\ scan' = [q |-> q,
              must |-> {n \in done : Matches(acc[n], q)} \cup (IF q \in DOMAIN seen THEN seen[q] ELSE {}),
              left |-> IF q.ls \subseteq DOMAIN dict THEN ShardsOf(q.ls) ELSE {},
              hit |-> IF q.ls \subseteq DOMAIN dict THEN None ELSE [s |-> {}],
              fb |-> q.b1..q.b2, res |-> {}]
  /\ UNCHANGED <<up, closing, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, seen, done, torn, lost, ncrash, nclose>>

ReadShard(k) ==
  /\ up /\ scan # None /\ k \in scan.left
  /\ LET mine == {l \in scan.q.ls : Shard(dict, l) = k}
         h == {n \in Ns : \E b \in scan.q.b1..scan.q.b2 : \A l \in mine : <<k, b, l, n>> \in index}
         hit == IF scan.hit = None THEN h ELSE scan.hit.s \cap h
     IN scan' = [scan EXCEPT !.hit = [s |-> hit], !.left = IF hit = {} THEN {} ELSE @ \ {k}]
  /\ UNCHANGED <<up, closing, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, seen, done, torn, lost, ncrash, nclose, nscan>>

\* samples the scan goes on to read
Chosen == IF scan.q.inst /\ scan.hit.s # {} THEN {MaxOf(scan.hit.s)} ELSE scan.hit.s

ReadFrame(b) ==
  /\ up /\ scan # None /\ scan.left = {} /\ scan.hit # None /\ b \in scan.fb
  /\ scan' = [scan EXCEPT !.fb = @ \ {b}, !.res = @ \cup {n \in Chosen : <<b, n>> \in frames}]
  /\ UNCHANGED <<up, closing, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, seen, done, torn, lost, ncrash, nclose, nscan>>

Finished == scan # None /\ scan.left = {} /\ scan.hit # None /\ scan.fb = {}

EndScan ==
  /\ up /\ Finished
  /\ seen' = [q \in DOMAIN seen \cup {scan.q} |->
                (IF q \in DOMAIN seen THEN seen[q] ELSE {}) \cup (IF q = scan.q /\ ~q.inst THEN scan.res ELSE {})]
  /\ scan' = None
  /\ UNCHANGED <<up, closing, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, done, torn, lost, ncrash, nclose, nscan>>

------------------------------------------------------------------------------
(* Shutdown, crash, start *)

BeginClose ==
  /\ up /\ ~closing /\ nclose < MaxCloses
  /\ closing' = TRUE /\ nclose' = nclose + 1
  /\ UNCHANGED <<up, acc, buf, job, dict, dcur, dend, icur, iend, frames, index, scan, seen, done, torn, lost, ncrash, nscan>>

\* everything acknowledged is saved by now and unused leases are given back
EndClose ==
  /\ up /\ closing /\ scan = None /\ job = None
  /\ buf = {} \/ DropOnClose
  /\ buf' = {}
  /\ up' = FALSE /\ closing' = FALSE
  /\ dend' = dcur /\ iend' = icur
  /\ UNCHANGED <<acc, job, dict, dcur, icur, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

Crash ==
  /\ up /\ ncrash < MaxCrashes
  /\ ncrash' = ncrash + 1
  /\ up' = FALSE /\ closing' = FALSE
  /\ lost' = lost \cup buf
  /\ torn' = torn \cup (IF job = None THEN {} ELSE job.ns)
  /\ buf' = {} /\ job' = None /\ scan' = None
  /\ UNCHANGED <<acc, dict, dcur, dend, icur, iend, frames, index, seen, done, nclose, nscan>>

Open ==
  /\ ~up
  /\ up' = TRUE
  /\ dcur' = dend /\ dend' = dend + Lease
  /\ icur' = iend /\ iend' = iend + Lease
  /\ UNCHANGED <<closing, acc, buf, job, dict, frames, index, scan, seen, done, torn, lost, ncrash, nclose, nscan>>

Next ==
  \/ \E ls \in SUBSET Labels \ {{}}, b \in Bs : Export(ls, b)
  \/ BeginSave \/ EndSave
  \/ \E l \in Labels : Translate(l)
  \/ \E b \in Bs : StoreFrame(b)
  \/ \E k \in 0..(dcur + 1) : job # None /\ StoreIndex(k)
  \/ \E q \in GoodQueries : BeginScan(q)
  \/ \E k \in 0..(dcur + 1) : scan # None /\ ReadShard(k)
  \/ \E b \in Bs : ReadFrame(b)
  \/ EndScan \/ BeginClose \/ EndClose \/ Crash \/ Open

\* what is started ends, unless the process dies
Fair ==
  /\ WF_vars(BeginSave /\ closing) /\ WF_vars(EndSave) /\ WF_vars(\E l \in Labels : Translate(l))
  /\ WF_vars(\E b \in Bs : StoreFrame(b)) /\ WF_vars(\E k \in 0..(dcur + 1) : job # None /\ StoreIndex(k))
  /\ WF_vars(\E k \in 0..(dcur + 1) : scan # None /\ ReadShard(k)) /\ WF_vars(\E b \in Bs : ReadFrame(b))
  /\ WF_vars(EndScan) /\ WF_vars(EndClose) /\ WF_vars(Open)

Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

------------------------------------------------------------------------------
(* Properties *)

\* P01: everything saved before the scan began and matching is returned
Completeness == Finished /\ ~scan.q.inst => scan.must \subseteq scan.res

\* P02: nothing else, and nothing that was never sent
Soundness == Finished => \A n \in scan.res : n \in Ns /\ Matches(acc[n], scan.q)

\* P03: an instant scan returns one sample, no older than any that it must know
Instant ==
  Finished /\ scan.q.inst =>
    /\ Cardinality(scan.res) <= 1
    /\ scan.must # {} => scan.res # {} /\ MaxOf(scan.must) <= MaxOf(scan.res)

\* P18, P08: what is found in the index is there to be read
Readable == Finished => Chosen \subseteq scan.res
RecordsBeforeIndex == \A e \in index : <<e[2], e[4]>> \in frames

\* P06, P07: a shutdown in order loses nothing
Graceful == ~up => \A n \in Ns : n \in done \cup torn \cup lost

\* P08: completed saves are complete for ever, and nothing else is indexed
Intact ==
  /\ \A n \in done : <<acc[n].b, n>> \in frames /\ \A l \in acc[n].ls : <<Shard(dict, l), acc[n].b, l, n>> \in index
  /\ \A e \in index : e[3] \in acc[e[4]].ls /\ e[2] = acc[e[4]].b /\ e[4] \notin lost

\* P17: the labels of a saved sample, over all shards
Listing == \A n \in done : {e[3] : e \in {x \in index : x[4] = n /\ x[2] = acc[n].b}} = acc[n].ls

\* P09
Bijection == \A a, b \in DOMAIN dict : dict[a] = dict[b] => a = b
Leased == dcur <= dend /\ (\A l \in DOMAIN dict : dict[l] < dend) /\ (up => \A l \in DOMAIN dict : dict[l] < dcur)
DictStable == [][\A l \in DOMAIN dict : l \in DOMAIN dict' /\ dict'[l] = dict[l]]_vars

\* P10
Increasing == \A i, j \in Ns : i < j => acc[i].id < acc[j].id

\* P18: visibility only grows
Monotone == [][frames \subseteq frames' /\ index \subseteq index']_vars

\* liveness: a scan ends, a shutdown ends
ScanEnds == scan # None ~> scan = None
CloseEnds == closing ~> ~closing
=============================================================================
