----------------------------- MODULE HistTrace -----------------------------
(***************************************************************************)
(* Judges traces of concurrent and crashing histories of the real store:   *)
(*   new                a new data directory                               *)
(*   hopen, close       of the process, in order                           *)
(*   crash              the process was killed                             *)
(*   begin, end         of a save                                          *)
(*   sbegin, send       of a scan                                          *)
(*   labels             listing, when nothing else is going on             *)
(*   died, hung         what must not happen                               *)
(* Samples of a save are visible for certain once it ended, and may be     *)
(* visible, each of them whole, from when it began.                        *)
(***************************************************************************)
EXTENDS StoreOps, Json, IOUtils

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

\* all samples of all saves in order, with the line of their save
AllSamples ==
  FoldLeft(LAMBDA acc, i : acc \o
    (IF Log[i].ev = "begin"
     THEN [j \in DOMAIN Log[i].samples |-> MkSample(Log[i].samples[j].id, Log[i].samples[j].d) @@ [line |-> i]]
     ELSE <<>>), <<>>, [i \in 1..Len(Log) |-> i])

VARIABLES l,
          lo,       \* position in AllSamples of the first sample of this history, minus one
          hi,       \* position of the last sample whose save began
          sure,     \* lines of saves that ended well
          scans,    \* running scans: number -> [line, sure, busy]
          seen,     \* <<query, position>> of samples that were returned
          crashes, closes, busy, judged
vars == <<l, lo, hi, sure, scans, seen, crashes, closes, busy, judged>>

TraceInit ==
  /\ l = 1 /\ lo = 0 /\ hi = 0 /\ sure = {} /\ scans = <<>> /\ seen = {}
  /\ crashes = 0 /\ closes = 0 /\ busy = {} /\ judged = 0

Positions == (lo + 1)..hi

\* what identifies a query when comparing the results of two scans
Key(q) == <<q.sig, q.f, q.range, q.start, q.end, q.now, q.off>>

(***************************************************************************)
(* A finished scan e, that began as b                                      *)
(***************************************************************************)
May(q)     == {p \in Positions : Found(AllSamples[p], q)}
Must(b, q) == {p \in May(q) : AllSamples[p].line \in b.sure}

\* the positions in order, as samples
AtPos(S) == SelectSeq([i \in 1..(hi - lo) |-> IF lo + i \in S THEN AllSamples[lo + i] ELSE [id |-> -1]], LAMBDA s : s.id >= 0)

Visible(e, may) == LET got == Uids(e.res) IN {p \in may : Uids(AllSamples[p].doc) \cap got # {}}

JudgeScan(e, b) ==
  LET q    == e.q
      got  == Uids(e.res)
      may  == May(q)
      must == Must(b, q)
      prev == {p \in may : <<Key(q), p>> \in b.seen}
      vis  == Visible(e, may)
      full == UNION {Uids(AllSamples[p].doc) : p \in vis}
      own  == UNION {Owned(AllSamples[p].doc) : p \in vis}
      exact == must = may /\ b.calm
      newest == CHOOSE p \in vis : \A o \in vis : o <= p
  IN
  IF e.err # "" THEN "scan failed"
  ELSE IF e.res.sig # q.sig THEN "result of another signal"
  ELSE IF ~(got \subseteq full) THEN "records that were never sent or do not match"
  ELSE IF got # full THEN "part of a sample"
  ELSE IF ~(Owned(e.res) \subseteq own) THEN "a record or its owner changed"
  ELSE IF NRecords(e.res) # Cardinality(got) THEN "a record twice"
  ELSE IF ~q.range THEN
    IF Cardinality(vis) > 1 THEN "more than one sample"
    ELSE IF must \cup prev # {} /\ vis = {} THEN "samples are missing"
    ELSE IF vis # {} /\ \E p \in must \cup prev : p > newest THEN "not the newest sample"
    ELSE ""
  ELSE IF exact THEN
    IF Shape(e.res) # Shape(Answer(AtPos(may), q)) THEN "not the answer that was saved" ELSE ""
  ELSE IF q.limit # 0 THEN
    IF Cardinality(vis) > q.limit THEN "more than the limit" ELSE ""
  ELSE IF ~(must \subseteq vis) THEN "saved samples are missing"
  ELSE IF ~(prev \subseteq vis) THEN "samples an earlier scan returned are missing"
  ELSE IF Shape(e.res) # Shape(Answer(AtPos(vis), q)) THEN "not in order or not merged"
  ELSE ""

JudgeLabels(e) ==
  LET who == {p \in Positions : AllSamples[p].id = e.id} IN
  IF e.err # "" THEN "listing failed"
  ELSE IF who = {} THEN IF e.out = <<>> THEN "" ELSE "labels of a sample that does not exist"
  ELSE LET want == Listing(AtPos(who), e.id, e.view) IN
       IF ~(Range(e.out) \subseteq want) THEN "labels the sample does not have"
       ELSE IF Range(e.out) # want /\ \A p \in who : AllSamples[p].line \in sure THEN "labels are missing"
       ELSE IF Cardinality(Range(e.out)) # Len(e.out) THEN "a label is listed twice" ELSE ""

\* does the property speak about a scan (or listing) under these circumstances?
Speaks(b, overlap, inst) ==
  CASE Prop = "P08" -> crashes > 0
    [] Prop = "P06" -> crashes = 0 /\ closes > 0
    [] Prop = "P18" -> overlap
    [] Prop = "P03" -> inst
    [] OTHER        -> TRUE

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev \in {"hopen", "close", "new"} -> IF "err" \in DOMAIN e /\ e.err # "" THEN "cannot " \o e.ev ELSE "-"
    [] e.ev = "end" -> IF e.err # "" THEN "save failed" ELSE "-"
    [] e.ev = "send" ->
         LET b == scans[e.i] IN
         IF Speaks(b, b.busy \/ ~b.calm, ~e.q.range) THEN JudgeScan(e, b) ELSE "-"
    [] e.ev = "labels" -> IF Speaks([x |-> 0], FALSE, FALSE) THEN JudgeLabels(e) ELSE "-"
    [] OTHER -> "-"

Reset == lo' = hi /\ hi' = hi /\ sure' = {} /\ scans' = <<>> /\ seen' = {} /\ crashes' = 0 /\ closes' = 0 /\ busy' = {}

Step(e) ==
  CASE e.ev = "new" -> Reset
    [] e.ev = "begin" ->
         /\ hi' = hi + Len(e.samples)
         /\ busy' = busy \cup {l}
         /\ scans' = [i \in DOMAIN scans |-> [scans[i] EXCEPT !.calm = FALSE]]
         /\ UNCHANGED <<lo, sure, seen, crashes, closes>>
    [] e.ev = "end" ->
         \* saves are one after another
         /\ sure' = IF e.err = "" THEN sure \cup busy ELSE sure
         /\ busy' = {}
         /\ UNCHANGED <<lo, hi, scans, seen, crashes, closes>>
    [] e.ev = "sbegin" ->
         /\ scans' = (e.i :> [sure |-> sure, seen |-> seen, busy |-> busy # {}, calm |-> busy = {}]) @@ scans
         /\ UNCHANGED <<lo, hi, sure, seen, crashes, closes, busy>>
    [] e.ev = "send" ->
         /\ scans' = [i \in DOMAIN scans \ {e.i} |-> scans[i]]
         /\ seen' = IF e.err = "" /\ e.q.range /\ e.q.limit = 0
                    THEN seen \cup {<<Key(e.q), p>> : p \in Visible(e, May(e.q))} ELSE seen
         /\ UNCHANGED <<lo, hi, sure, crashes, closes, busy>>
    [] e.ev = "crash" ->
         /\ crashes' = crashes + 1 /\ busy' = {} /\ scans' = <<>>
         /\ UNCHANGED <<lo, hi, sure, seen, closes>>
    [] e.ev = "close" -> closes' = closes + 1 /\ UNCHANGED <<lo, hi, sure, scans, seen, crashes, busy>>
    [] OTHER -> UNCHANGED <<lo, hi, sure, scans, seen, crashes, closes, busy>>

TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)

TraceSpec == TraceInit /\ [][TraceNext]_vars

Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
