---------------------------- MODULE RenderTrace -----------------------------
(***************************************************************************)
(* Judges what was rendered.                                               *)
(***************************************************************************)
EXTENDS Render, Json, IOUtils
CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged
vars == <<l, judged>>

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev = "text" -> IF e.err # "" THEN "cannot render" ELSE IF e.lines # Lines(e.doc, e.opts) THEN "not what it says" ELSE ""
    [] e.ev = "json" -> IF e.err # "" THEN "cannot render" ELSE IF e.got # e.want THEN "reads back as something else" ELSE ""
    [] OTHER -> "-"

TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
         /\ v = "not what it says" => PrintT(Lines(e.doc, e.opts))
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
