---------------------------- MODULE ServiceTrace ----------------------------
(***************************************************************************)
(* Judges traces of real services: call and ack of exports, closing and    *)
(* reopening, scans of everything.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FiniteSetsExt

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)
ToSet(s) == {s[i] : i \in DOMAIN s}

VARIABLES l, judged,
          called,  \* export -> [sig, us] its records
          acked,   \* exports that returned before the shutdown of their session began
          kept,    \* exports of sessions that were shut down
          maybe,   \* exports that overlapped a shutdown
          last,    \* signal -> its newest export, 0 if another overlapped it
          closing, seen, ended
vars == <<l, judged, called, acked, kept, maybe, last, closing, seen, ended>>

\* the records of a signal
Us(S, sig) == UNION {ToSet(called[x].us) : x \in {y \in S : called[y].sig = sig}}
Whole(S, got) == \A x \in S : LET u == ToSet(called[x].us) IN u \cap got = {} \/ u \subseteq got

\* records found again because what was exported had been exported before
Again(S, sig, got) ==
  LET ys == {x \in S : called[x].again /\ called[x].sig = sig /\ ToSet(called[x].us) \subseteq got} IN
  FoldSet(LAMBDA x, n : n + Len(called[x].us), 0, ys)

\* scans that overlap others may have begun before them
Racing(e) == "racing" \in DOMAIN e /\ e.racing

Scan(e) ==
  LET got == ToSet(e.us) IN
  IF e.err # "" THEN "scan failed"
  ELSE IF Len(e.us) > Cardinality(got) + Again(DOMAIN called, e.sig, got) THEN "an export was saved twice"
  ELSE IF Len(e.us) < Cardinality(got) + Again(IF e.quiet THEN kept \cup acked ELSE kept, e.sig, got) THEN "of two exports that are alike one is gone"
  ELSE IF ~(got \subseteq Us(DOMAIN called, e.sig)) THEN "records nobody exported"
  ELSE IF ~Whole(DOMAIN called, got) THEN "part of an export"
  ELSE IF ~(Us(kept, e.sig) \subseteq got) THEN "acknowledged exports are gone after a shutdown"
  ELSE IF ~Racing(e) /\ ~(seen[e.sig] \subseteq got) THEN "records that were there are gone"
  ELSE IF e.quiet /\ got # Us(kept \cup acked, e.sig) \cup (got \cap Us(maybe, e.sig)) THEN "not what was exported" ELSE ""

\* everything was saved: the newest is the one exported last
Newest(e) ==
  IF e.err # "" THEN "scan failed"
  ELSE IF last[e.sig] = 0 THEN "-"
  ELSE IF ToSet(e.us) # ToSet(called[last[e.sig]].us) THEN "not the export accepted last" ELSE ""

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev \in {"open", "down"} -> IF e.err # "" THEN "cannot " \o e.ev ELSE ""
    [] e.ev = "ack" -> IF e.err # "" THEN "export refused" ELSE "-"
    [] e.ev = "scan" -> Scan(e)
    [] e.ev = "newest" -> Newest(e)
    [] OTHER -> "-"

Open(x) == x \in DOMAIN called /\ x \notin ended
Step(e) ==
  CASE e.ev = "new" -> /\ called' = <<>> /\ acked' = {} /\ kept' = {} /\ maybe' = {} /\ last' = [s \in 1..3 |-> 0] /\ closing' = FALSE
                       /\ seen' = [s \in 1..3 |-> {}] /\ ended' = {}
    [] e.ev = "call" -> /\ called' = (e.x :> [sig |-> e.sig, us |-> e.us, again |-> "again" \in DOMAIN e /\ e.again]) @@ called
                        /\ last' = [last EXCEPT ![e.sig] = IF \E y \in DOMAIN called : Open(y) /\ called[y].sig = e.sig THEN 0 ELSE e.x]
                        /\ UNCHANGED <<acked, kept, maybe, closing, seen, ended>>
    [] e.ev = "ack" -> /\ ended' = ended \cup {e.x}
                       /\ IF e.err # "" \/ (closing /\ "firm" \notin DOMAIN e) THEN maybe' = maybe \cup {e.x} /\ UNCHANGED acked ELSE acked' = acked \cup {e.x} /\ UNCHANGED maybe
                       /\ last' = LET s == called[e.x].sig IN [last EXCEPT ![s] = IF closing \/ \E y \in DOMAIN called \ {e.x} : Open(y) /\ called[y].sig = s THEN 0 ELSE @]
                       /\ UNCHANGED <<called, kept, closing, seen>>
    \* the connection broke: it may have been accepted or not
    [] e.ev = "nack" -> /\ ended' = ended \cup {e.x} /\ maybe' = maybe \cup {e.x} /\ UNCHANGED <<called, acked, kept, last, closing, seen>>
    [] e.ev = "closing" -> closing' = TRUE /\ UNCHANGED <<called, acked, kept, maybe, last, seen, ended>>
    \* what was not saved is lost, what could be read is not
    [] e.ev = "killed" -> maybe' = maybe \cup acked /\ acked' = {} /\ closing' = FALSE /\ UNCHANGED <<called, kept, last, seen, ended>>
    [] e.ev = "down" -> kept' = kept \cup acked /\ acked' = {} /\ closing' = FALSE /\ UNCHANGED <<called, maybe, last, seen, ended>>
    [] e.ev = "scan" -> /\ seen' = IF e.err = "" THEN [seen EXCEPT ![e.sig] = @ \cup ToSet(e.us)] ELSE seen
                        /\ UNCHANGED <<called, acked, kept, maybe, last, closing, ended>>
    [] OTHER -> UNCHANGED <<called, acked, kept, maybe, last, closing, seen, ended>>

TraceInit == /\ l = 1 /\ judged = 0 /\ called = <<>> /\ acked = {} /\ kept = {} /\ maybe = {} /\ last = [s \in 1..3 |-> 0] /\ closing = FALSE
             /\ seen = [s \in 1..3 |-> {}] /\ ended = {}
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
