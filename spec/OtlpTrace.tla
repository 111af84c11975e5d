----------------------------- MODULE OtlpTrace -----------------------------
(***************************************************************************)
(* Judges merges (P05) and trims (P13) of the real code against Otlp.      *)
(***************************************************************************)
EXTENDS Otlp, Json, IOUtils

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

JudgeMerge(e) ==
  LET in  == e.in
      own == UNION {Owned(in[i]) : i \in DOMAIN in}
      cnt == FoldLeft(LAMBDA n, d : n + NRecords(d), 0, in)
  IN
  IF e.err # "" THEN "merge failed"
  ELSE IF e.out.sig # in[1].sig THEN "another signal"
  ELSE IF Owned(e.out) # own THEN "a record or its owner was lost or changed"
  ELSE IF NRecords(e.out) # cnt THEN "a record twice"
  ELSE IF ~e.tidy THEN ""
  ELSE IF Shape(e.out) # Shape(Merge(in)) THEN "not merged by identity and in order" ELSE ""

JudgeTrim(e) ==
  LET w == Window(e.q)
      want == IF ~e.q.range /\ e.q.f = <<>> THEN e.in ELSE Trim(e.in, e.q.f, w[1], w[2])
  IN
  IF e.err # "" THEN "scan of the script failed"
  ELSE IF e.after # e.in THEN "the data that came in was changed"
  ELSE IF e.out = want THEN ""
  ELSE IF ~(Uids(e.out) \subseteq Uids(want)) THEN "records that should have been trimmed"
  ELSE IF ~(Uids(want) \subseteq Uids(e.out)) THEN "records are missing"
  ELSE IF Shape(e.out) # Shape(want) THEN "records are out of place"
  ELSE "a description or a record changed"

Verdict(e) ==
  CASE e.ev = "died" -> "the process died"
    [] e.ev = "merge" -> IF Prop = "P05" THEN JudgeMerge(e) ELSE "-"
    [] e.ev = "trim"  -> IF Prop = "P13" THEN JudgeTrim(e) ELSE "-"
    [] OTHER -> "-"

VARIABLES l, judged
TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET v == Verdict(Log[l]) IN
     /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
     /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, judged>>
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
