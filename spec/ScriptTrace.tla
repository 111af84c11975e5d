---------------------------- MODULE ScriptTrace ----------------------------
(* Judges the requests real scripts issued (P14) against Script. *)
EXTENDS Script, FiniteSets, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)

Judge(e) ==
  LET x == Exec(e.stmts, e.clock) IN
  IF e.issued # x.issued THEN
     IF Len(e.issued) # Len(x.issued) THEN "the script issued another number of scans"
     ELSE LET i == CHOOSE j \in DOMAIN x.issued : e.issued[j] # x.issued[j] /\ \A k \in 1..(j - 1) : e.issued[k] = x.issued[k]
              a == e.issued[i] b == x.issued[i] IN
       IF a.f # b.f THEN "the filters are not those of the script"
       ELSE IF a.range # b.range THEN "the range is not that of the script"
       ELSE "the request is not that of the script"
  ELSE IF x.ok /\ e.err # "" THEN "the script failed"
  ELSE IF ~x.ok /\ e.err = "" THEN "a wrong call went unnoticed" ELSE ""

Verdict(e) ==
  CASE e.ev = "died" -> "the process died"
    [] e.ev = "script" -> Judge(e)
    [] OTHER -> "-"

VARIABLES l, judged
TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET v == Verdict(Log[l]) IN
     /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
     /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, judged>>
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
