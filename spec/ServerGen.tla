----------------------------- MODULE ServerGen ------------------------------
(***************************************************************************)
(* Random histories of Server, for the driver to repeat with the server    *)
(* itself and clients. Interrupts and kills come with calls on their way.  *)
(***************************************************************************)
EXTENDS ServerMC, Json

CONSTANT Steps
VARIABLES h
gvars == <<vars, h>>
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
Log(o) == h' = Append(h, o)

GInit == Init /\ h = <<>>
Last == IF h = <<>> THEN "" ELSE h[Len(h)].o

\* calls of a kind, sent, run and answered
Calm(S, o) == \E c \in {Some(S)} :
  /\ call' = [call EXCEPT ![c] = "answered"] /\ buf' = IF c \in Scans THEN buf ELSE buf \cup {c}
  /\ UNCHANGED <<at, phase, stored, kept, bad, lives>> /\ Log(o)
Fresh == {c \in Calls : call[c] = "none"}

GNext ==
  /\ Len(h) < Steps
  /\ \/ /\ phase = "up" /\ Fresh \ Scans # {} /\ Last # "interrupt"
        /\ Calm(Fresh \ Scans, [o |-> "export", sig |-> Some(1..3), n |-> Some({1, 2, 3, 8, 20}), par |-> OneIn(3)])
     \/ phase = "up" /\ Fresh \cap Scans # {} /\ Last # "scan" /\ Calm(Fresh \cap Scans, [o |-> "scan", sig |-> Some(1..3)])
     \/ phase = "up" /\ OneIn(3) /\ Fresh \cap Scans # {} /\ Last # "query" /\ Calm(Fresh \cap Scans, [o |-> "query"])
     \/ /\ Len(h) > 1 /\ Last # "restart" /\ (OneIn(3) \/ Fresh = {}) /\ Interrupt
        /\ Log([o |-> "interrupt", exporters |-> Some(0..5), scanners |-> Some(0..3), slow |-> Some({0, 0, 6, 24}), at |-> Some({0, 2, 10, 30})])
     \/ Len(h) > 1 /\ phase = "up" /\ OneIn(5) /\ Kill /\ Log([o |-> "kill", exporters |-> Some(0..3), at |-> Some({0, 5, 20})])
     \/ (CloseNext \/ End) /\ UNCHANGED h
     \/ Restart /\ Log([o |-> "restart"])
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
