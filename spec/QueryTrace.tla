----------------------------- MODULE QueryTrace -----------------------------
(***************************************************************************)
(* Judges what rq query printed, and how it ended.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged
vars == <<l, judged>>

\* a script is a list of statements: print, throw, scan (there is no server), wrong (not even a script)
Stops(s) == s.k \in {"throw", "scan"}
Wrong(ss) == \E i \in DOMAIN ss : ss[i].k = "wrong"
End(ss) == IF \E i \in DOMAIN ss : Stops(ss[i]) THEN CHOOSE i \in DOMAIN ss : Stops(ss[i]) /\ \A j \in 1..(i - 1) : ~Stops(ss[j]) ELSE Len(ss) + 1
\* everything it writes, as one text: what is printed with a new line after it or without
Text(s) == IF s.k # "print" THEN "" ELSE IF s.nl THEN s.t \o "\n" ELSE s.t
Prints(ss) == IF Wrong(ss) THEN "" ELSE FoldLeft(LAMBDA o, s : o \o Text(s), "", SubSeq(ss, 1, End(ss) - 1))
Fails(ss) == Wrong(ss) \/ End(ss) <= Len(ss)
IsPrefix_(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev = "run" ->
         IF e.cut THEN IF ~IsPrefix_(e.out, Prints(e.script)) THEN "prints what the script does not" ELSE ""
         ELSE IF e.hung THEN "does not end"
         ELSE IF e.out # Prints(e.script) THEN "prints something else"
         ELSE IF Fails(e.script) /\ e.rc = 0 THEN "succeeds with a script that fails"
         ELSE IF ~Fails(e.script) /\ e.rc # 0 THEN "fails with a good script"
         ELSE ""
    [] OTHER -> "-"

TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
