------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The server process (P21): handlers of calls from clients, what they     *)
(* use, and a shutdown that closes it piece by piece while calls are on    *)
(* their way. Processes are also killed.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Calls,        \* each is an export or a scan
          Scans,        \* the scans among them
          Order,        \* pieces in the order in which they are closed
          WaitHandlers, \* "grpc" ends when its handlers have
          MaxLives

ASSUME Scans \subseteq Calls
Pieces == {"grpc", "service", "sequence", "index", "dictionary", "db"}
ASSUME {Order[i] : i \in DOMAIN Order} = Pieces

\* what a call touches once it runs, and what the service touches to save its buffer
Needs(c) == IF c \in Scans THEN {"index", "dictionary", "db"} ELSE {"sequence"}
Saving == {"index", "dictionary", "db"}

VARIABLES call,    \* call -> "none", "sent", "running", "answered", "failed"
          at,      \* how many pieces are closed
          phase,   \* "up", "closing", "ended"
          buf,     \* exports accepted
          stored,  \* exports saved
          kept,    \* exports a client was promised before the process ended on its own
          bad,     \* something used what was closed
          lives
vars == <<call, at, phase, buf, stored, kept, bad, lives>>

Closed == {Order[i] : i \in 1..at}
Running == {c \in Calls : call[c] = "running"}

Init ==
  /\ call = [c \in Calls |-> "none"] /\ at = 0 /\ phase = "up" /\ buf = {} /\ stored = {} /\ kept = {} /\ bad = FALSE /\ lives = 1

Send(c) == /\ phase # "ended" /\ call[c] = "none" /\ call' = [call EXCEPT ![c] = "sent"]
           /\ UNCHANGED <<at, phase, buf, stored, kept, bad, lives>>

\* its handler starts
Start(c) == /\ phase # "ended" /\ call[c] = "sent" /\ "grpc" \notin Closed /\ call' = [call EXCEPT ![c] = "running"]
            /\ UNCHANGED <<at, phase, buf, stored, kept, bad, lives>>

\* nobody is there to take it
Refuse(c) == /\ call[c] = "sent" /\ ("grpc" \in Closed \/ phase = "ended") /\ call' = [call EXCEPT ![c] = "failed"]
             /\ UNCHANGED <<at, phase, buf, stored, kept, bad, lives>>

\* its handler does what it has to and answers, which reaches the client while there is a connection
Run(c) ==
  /\ phase # "ended" /\ call[c] = "running"
  /\ bad' = (bad \/ Needs(c) \cap Closed # {})
  /\ buf' = IF c \in Scans THEN buf ELSE buf \cup {c}
  /\ \/ "grpc" \notin Closed /\ call' = [call EXCEPT ![c] = "answered"]
     \/ phase # "up" /\ call' = [call EXCEPT ![c] = "failed"]
  /\ UNCHANGED <<at, phase, stored, kept, lives>>

Interrupt == /\ phase = "up" /\ phase' = "closing"
             /\ UNCHANGED <<call, at, buf, stored, kept, bad, lives>>

\* the buffer is saved, now and then and by the close of the service
Save == /\ phase = "up" /\ buf # {} /\ stored' = stored \cup buf /\ buf' = {}
        /\ UNCHANGED <<call, at, phase, kept, bad, lives>>

CloseNext ==
  /\ phase = "closing" /\ at < Len(Order)
  /\ LET p == Order[at + 1] IN
     /\ p = "grpc" /\ WaitHandlers => Running = {}
     /\ bad' = (bad \/ (p = "service" /\ buf # {} /\ Saving \cap Closed # {}))
     /\ IF p = "service" THEN stored' = stored \cup buf /\ buf' = {} ELSE UNCHANGED <<stored, buf>>
  /\ at' = at + 1
  /\ UNCHANGED <<call, phase, kept, lives>>

End == /\ phase = "closing" /\ at = Len(Order) /\ phase' = "ended"
       /\ kept' = kept \cup {c \in Calls \ Scans : call[c] = "answered"}
       /\ call' = [c \in Calls |-> IF call[c] = "running" THEN "failed" ELSE call[c]]
       /\ UNCHANGED <<at, buf, stored, bad, lives>>

\* what was not saved is lost
Kill == /\ phase # "ended" /\ phase' = "ended" /\ buf' = {}
        /\ call' = [c \in Calls |-> IF call[c] = "running" THEN "failed" ELSE IF c \in buf THEN "failed" ELSE call[c]]
        /\ UNCHANGED <<at, stored, kept, bad, lives>>

Restart == /\ phase = "ended" /\ lives < MaxLives /\ lives' = lives + 1 /\ phase' = "up" /\ at' = 0 /\ buf' = {}
           /\ UNCHANGED <<call, stored, kept, bad>>

Next == \/ \E c \in Calls : Send(c) \/ Start(c) \/ Refuse(c) \/ Run(c)
        \/ Interrupt \/ Save \/ CloseNext \/ End \/ Kill \/ Restart
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(CloseNext) /\ WF_vars(End) /\ \A c \in Calls : WF_vars(Run(c))

-----------------------------------------------------------------------------
Unused == ~bad
Kept == kept \subseteq stored
Durable == [][stored \subseteq stored']_vars
Ends == (phase = "closing") ~> (phase = "ended")
=============================================================================
