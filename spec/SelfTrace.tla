------------------------------ MODULE SelfTrace ------------------------------
(***************************************************************************)
(* Judges what the exporters of the server handed to its collectors.       *)
(***************************************************************************)
EXTENDS Self, Json, IOUtils
CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged
vars == <<l, judged>>

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev = "metrics" -> IF e.err # "" THEN "cannot export" ELSE IF e.got # <<Resource(e.in)>> THEN "metrics are not what was recorded" ELSE ""
    [] e.ev = "spans" -> IF e.err # "" THEN "cannot export"
                         ELSE IF Len(e.got) # Cardinality(Spans(e.in)) \/ Range_(e.got) # Spans(e.in) THEN "spans are not what was recorded" ELSE ""
    [] e.ev = "recorded" -> IF e.err # "" THEN "cannot shut down"
                            ELSE LET g == Flat(e.got) IN IF Len(g) # Len(e.in) \/ Range_(g) # FlatIn(e.in) THEN "spans that ended are not what is exported" ELSE ""
    [] e.ev = "totals" -> IF e.got # e.want THEN "what was counted is not what is exported" ELSE ""
    [] e.ev = "server" -> IF e.err # "" THEN "the server fails" ELSE "-"
    [] e.ev = "kept" -> IF e.err # "" THEN "cannot scan"
                        ELSE IF \E i \in DOMAIN e.want : e.got[i] < e.want[i] THEN "spans are gone after a shutdown"
                        ELSE IF e.metrics = 0 THEN "metrics are gone after a shutdown" ELSE ""
    [] OTHER -> "-"

TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
