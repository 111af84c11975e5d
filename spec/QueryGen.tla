------------------------------ MODULE QueryGen ------------------------------
(***************************************************************************)
(* Behaviours of Query: which processes run at the same time, and where    *)
(* they are killed.                                                        *)
(***************************************************************************)
EXTENDS Query, Json
CONSTANT Steps
VARIABLES h
gvars == <<file, proc, h>>
Log(e) == h' = Append(h, e)
GInit == Init /\ h = <<>>
GNext ==
  /\ Len(h) < Steps
  /\ \E p \in Procs :
       \/ \E s \in Scripts : Start(p, s) /\ Log([o |-> "start", p |-> p, s |-> s])
       \/ (Look(p) \/ Compile(p) \/ Create(p) \/ Write(p) \/ Run(p)) /\ UNCHANGED h
       \/ Leave(p) /\ Log([o |-> "end", p |-> p, s |-> proc[p].s])
       \/ RandomElement(1..4) = 1 /\ Kill(p) /\ Log([o |-> "kill", p |-> p, s |-> proc[p].s, pc |-> proc[p].pc])
GSpec == GInit /\ [][GNext]_gvars
Over == Len(h) = Steps => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
