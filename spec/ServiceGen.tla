----------------------------- MODULE ServiceGen -----------------------------
(***************************************************************************)
(* Random histories of Service, for the driver to repeat with real         *)
(* services. A tick takes a minute, so at most MaxTicks of them are waited *)
(* for. While a save is held at one of its commits other things happen.    *)
(***************************************************************************)
EXTENDS Service, Json

CONSTANT Steps
VARIABLES h
gvars == <<vars, h>>
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
Log(o) == h' = Append(h, o)
Fresh == {x \in Exports : exp[x] = "none"}
Quiet == \A s \in Savers : pc[s] = "idle"

Export(x) ==
  /\ exp' = [exp EXCEPT ![x] = "acked"] /\ buf' = Append(buf, x)
  /\ UNCHANGED <<pc, batch, left, owner, saved, cancelled, phase, ticks, sessions>>

GInit == Init /\ h = <<>>
GNext ==
  /\ Len(h) < Steps
  /\ \/ /\ Fresh # {} /\ phase = "up" /\ (Len(buf) < 3 \/ OneIn(5))
        /\ Export(Some(Fresh))
        /\ IF OneIn(15) THEN Log([o |-> "burst", sig |-> Some(1..3), n |-> Some({10, 20, 40, 150})])
           ELSE IF OneIn(8) THEN Log([o |-> "twin", sig |-> Some(1..3), par |-> OneIn(3)])
           ELSE Log([o |-> "export", sig |-> Some(1..3), par |-> OneIn(3), n |-> Some({1, 2, 3})])
     \/ (buf # <<>> \/ OneIn(8)) /\ Tick /\ Log([o |-> "tick"])
     \/ \E s \in Savers : Take(s) /\ Log([o |-> "take", s |-> s])
     \/ \E s \in Savers : Commit(s) /\ Log([o |-> "commit", s |-> s])
     \/ Len(h) > 2 /\ (pc["tick"] # "idle" \/ OneIn(4)) /\ Cancel /\ Log([o |-> "cancel"])
     \/ Len(h) > 2 /\ (pc["tick"] # "idle" \/ cancelled \/ ticks = MaxTicks \/ OneIn(4)) /\ Close /\ Log([o |-> "close"])
     \/ Down /\ Log([o |-> "down"])
     \/ Reopen /\ Log([o |-> "reopen"])
     \/ OneIn(3) /\ phase = "up" /\ Log([o |-> "scan"]) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
