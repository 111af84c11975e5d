------------------------------- MODULE IdsGen -------------------------------
(* Random behaviours of Ids, printed for the driver to repeat. *)
EXTENDS Ids, Json

CONSTANT Steps
VARIABLE h
gvars == <<vars, h>>
Log(o) == h' = Append(h, o)
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1

GInit == Init /\ h = <<>>
GNext ==
  /\ Len(h) < Steps
  /\ \/ \E p \in Procs : \E d \in {Some(Dicts)}, k \in {Some(Keys)} :
          Begin(p, d, k) /\ Log([o |-> "insert", p |-> p, d |-> d, k |-> k])
     \/ \E p \in Procs : Take(p) /\ h' = h
     \/ \E p \in Procs : Renew(p) /\ h' = h
     \/ \E p \in Procs : Commit(p) /\ Log([o |-> "step", p |-> p])
     \/ \E p \in Procs : End(p) /\ Log([o |-> "end", p |-> p])
     \/ OneIn(3) /\ SampleId /\ Log([o |-> IF OneIn(3) THEN "idsc" ELSE "ids",
                                     n |-> IF OneIn(12) THEN 1048570 + Some(1..10) ELSE IF OneIn(3) THEN Some(1..3000) ELSE Some(1..5)])
     \/ OneIn(3) /\ Log([o |-> "look"]) /\ UNCHANGED vars /\ up
     \/ OneIn(20) /\ Log([o |-> "bulk"]) /\ UNCHANGED vars /\ up
     \/ OneIn(12) /\ Log([o |-> "race", d |-> Some(Dicts)]) /\ UNCHANGED vars /\ up
     \/ OneIn(2) /\ Close /\ Log([o |-> "close"])
     \/ OneIn(8) /\ Crash /\ Log([o |-> "crash"])
     \/ Open /\ Log([o |-> "open"])
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
