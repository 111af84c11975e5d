---------------------------- MODULE StoreTrace ----------------------------
(***************************************************************************)
(* Judges traces of the store: open, save, restart, scan and labels        *)
(* events recorded from the real code, against StoreOps.                   *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

Saves == {i \in 1..Len(Log) : Log[i].ev = "save"}

\* every sample of every save, in order, with where it came from
AllSamples ==
  FoldLeft(LAMBDA acc, i : acc \o
    (IF Log[i].ev = "save"
     THEN [j \in DOMAIN Log[i].samples |-> MkSample(Log[i].samples[j].id, Log[i].samples[j].d) @@ [line |-> i]]
     ELSE <<>>), <<>>, [i \in 1..Len(Log) |-> i])

Count(i) == IF Log[i].ev = "save" THEN Len(Log[i].samples) ELSE 0

VARIABLES l,        \* next line
          lo, hi,   \* the samples saved in the current store are lo+1 .. hi
          restarts, \* of the current store
          judged    \* events the property had something to say about
vars == <<l, lo, hi, restarts, judged>>

Saved == SubSeq(AllSamples, lo + 1, hi)

TraceInit == l = 1 /\ lo = 0 /\ hi = 0 /\ restarts = 0 /\ judged = 0

(***************************************************************************)
(* Verdicts: "" when the property has nothing against the event, "-" when  *)
(* it has nothing to say, a reason otherwise.                              *)
(***************************************************************************)
Complete(e) ==
  LET q == e.q IN
  IF q.limit # 0 \/ ~q.range THEN "-"
  ELSE IF e.err # "" THEN "scan failed"
  ELSE LET got  == Uids(e.res)
           must == SelectSeq(Saved, LAMBDA s : Within(s, q)) IN
       IF \A i \in DOMAIN must : Uids(must[i].doc) \subseteq got THEN "" ELSE "matching records are missing"

Sound(e) ==
  LET q == e.q IN
  IF e.err # "" THEN "scan failed"
  ELSE IF e.res.sig # q.sig THEN "result of another signal"
  ELSE LET got == Uids(e.res)
           may == UNION { Uids(s.doc) : s \in Range(SelFound(Saved, q)) } IN
       IF ~(got \subseteq may) THEN "records that do not match"
       ELSE IF Cardinality(got) # NRecords(e.res) THEN "records more often than saved"
       ELSE IF may = {} /\ got # {} THEN "records out of nowhere" ELSE ""

Newest(e) ==
  LET q == e.q IN
  IF q.range THEN "-"
  ELSE IF e.err # "" THEN "scan failed"
  ELSE IF Shape(e.res) # Shape(Answer(Saved, q)) THEN "not exactly the newest match" ELSE ""

Faithful(e) ==
  LET q == e.q
      m == SelFound(Saved, q) IN
  IF m = <<>> THEN "-"
  ELSE IF e.err # "" THEN "scan failed"
  ELSE LET own == UNION { Owned(s.doc) : s \in {x \in Range(Saved) : x.sig = q.sig} } IN
       IF ~(Owned(e.res) \subseteq own) THEN "a record or its owner changed"
       ELSE IF ~q.range /\ e.res # Answer(Saved, q)
            THEN IF Uids(e.res) \cap Uids(Answer(Saved, q)) = {} /\ Uids(e.res) # {} THEN "-" ELSE "a sample changed"
       ELSE IF q.limit = 0 /\ q.range /\ {o.u : o \in Owned(e.res)} # UNION {Uids(s.doc) : s \in Range(m)}
            THEN "records were lost" ELSE ""

Merged(e) ==
  LET q == e.q
      s == Selected(Saved, q) IN
  IF ~q.range \/ Len(s) < 2 \/ e.err # "" THEN "-"
  ELSE IF Uids(e.res) # Uids(Answer(Saved, q)) THEN "records lost or added by merging"
  ELSE IF Shape(e.res) # Shape(Merge(Docs(s))) THEN "not merged by identity and in order" ELSE ""

Ordered(e) ==
  LET q == e.q IN
  IF ~q.range THEN "-"
  ELSE IF e.err # "" THEN "scan failed"
  ELSE IF Uids(e.res) # Uids(Answer(Saved, q)) THEN "not the samples selected by limit and reverse"
  ELSE IF Shape(e.res) # Shape(Answer(Saved, q)) THEN "not in order" ELSE ""

Windowed(e) ==
  LET q == e.q
      \* samples that carry everything, in and out of the window
      c == SelectSeq(Saved, LAMBDA s : Carries(s, q)) IN
  IF q.limit # 0 \/ c = <<>> THEN "-"
  ELSE IF e.err # "" THEN "scan failed"
  ELSE IF Uids(e.res) # Uids(Answer(Saved, q)) THEN "not the samples of the buckets of the window" ELSE ""

Durable(e) ==
  IF restarts = 0 THEN "-"
  ELSE IF e.err # "" THEN "scan failed after a restart"
  ELSE IF e.res # Answer(Saved, e.q) THEN "answer changed by a restart" ELSE ""

Listed(e) ==
  IF e.err # "" THEN "listing failed"
  ELSE IF Range(e.out) # Listing(Saved, e.id, e.view) THEN "not the labels of the sample"
  ELSE IF Cardinality(Range(e.out)) # Len(e.out) THEN "a label is listed twice" ELSE ""

Verdict(e) ==
  CASE e.ev = "scan" ->
         (CASE Prop = "P01" -> Complete(e)
            [] Prop = "P02" -> Sound(e)
            [] Prop = "P03" -> Newest(e)
            [] Prop = "P04" -> Faithful(e)
            [] Prop = "P05" -> Merged(e)
            [] Prop = "P06" -> Durable(e)
            [] Prop = "P11" -> Windowed(e)
            [] Prop = "P12" -> Ordered(e)
            [] OTHER        -> "-")
    [] e.ev = "labels" ->
         (CASE Prop = "P17" -> Listed(e)
            [] Prop = "P06" -> IF restarts = 0 THEN "-" ELSE Listed(e)
            [] OTHER        -> "-")
    [] e.ev = "died" -> "the process died"
    [] e.ev \in {"open", "restart"} -> IF e.err # "" THEN "the store does not open" ELSE "-"
    \* nothing may keep a well-formed sample from being saved
    [] e.ev = "save" -> IF e.err = "" THEN "-" ELSE IF Prop \in {"P01", "P04"} THEN "save failed" ELSE "-"
    [] OTHER -> "-"

Step(e) ==
  CASE e.ev = "open"    -> lo' = hi /\ hi' = hi /\ restarts' = 0
    [] e.ev = "save"    -> lo' = lo /\ hi' = hi + Len(e.samples) /\ restarts' = restarts
    [] e.ev = "restart" -> lo' = lo /\ hi' = hi /\ restarts' = restarts + 1
    [] OTHER            -> UNCHANGED <<lo, hi, restarts>>

TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)

TraceSpec == TraceInit /\ [][TraceNext]_vars

Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
