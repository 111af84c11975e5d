------------------------------ MODULE Service ------------------------------
(***************************************************************************)
(* The service between exporters and the store (P07): exports are          *)
(* acknowledged once they are in a buffer, a ticker and the shutdown save  *)
(* the buffer. A finer view of Export, BeginSave and Close of RequiemDB.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Exports, MaxTicks, MaxSessions, Commits,
          NoSaveLock,     \* saves do not wait for each other
          SaveCancelled,  \* a save stops when the context is cancelled
          LateClear,      \* the buffer is emptied when its save is over
          NoCloseFlush    \* the shutdown saves nothing

Savers == {"tick", "close"}

VARIABLES exp,      \* export -> "none", "called", "acked", "refused"
          buf,      \* exports in the buffer, in order
          pc,       \* saver -> "idle", "waits", "saves", "over"
          batch,    \* saver -> exports being saved
          left,     \* saver -> commits to do
          owner,    \* who may save, or "nobody"
          saved,    \* export -> how often it was saved
          cancelled, phase,  \* phase: "up", "closing", "down"
          ticks, sessions
vars == <<exp, buf, pc, batch, left, owner, saved, cancelled, phase, ticks, sessions>>

Init ==
  /\ exp = [x \in Exports |-> "none"] /\ buf = <<>>
  /\ pc = [s \in Savers |-> "idle"] /\ batch = [s \in Savers |-> <<>>] /\ left = [s \in Savers |-> 0] /\ owner = "nobody"
  /\ saved = [x \in Exports |-> 0] /\ cancelled = FALSE /\ phase = "up" /\ ticks = 0 /\ sessions = 0

\* exporters do not call a service that is being closed, calls on their way may still be refused
Call(x) == /\ phase = "up" /\ exp[x] = "none" /\ exp' = [exp EXCEPT ![x] = "called"]
           /\ UNCHANGED <<buf, pc, batch, left, owner, saved, cancelled, phase, ticks, sessions>>
Accept(x) == /\ phase = "up" /\ exp[x] = "called" /\ exp' = [exp EXCEPT ![x] = "acked"] /\ buf' = Append(buf, x)
             /\ UNCHANGED <<pc, batch, left, owner, saved, cancelled, phase, ticks, sessions>>
Refuse(x) == /\ phase # "up" /\ exp[x] = "called" /\ exp' = [exp EXCEPT ![x] = "refused"]
             /\ UNCHANGED <<buf, pc, batch, left, owner, saved, cancelled, phase, ticks, sessions>>

Tick == /\ phase = "up" /\ ~cancelled /\ pc["tick"] = "idle" /\ ticks < MaxTicks
        /\ ticks' = ticks + 1 /\ pc' = [pc EXCEPT !["tick"] = "waits"]
        /\ UNCHANGED <<exp, buf, batch, left, owner, saved, cancelled, phase, sessions>>

Cancel == /\ ~cancelled /\ phase = "up" /\ cancelled' = TRUE
          /\ UNCHANGED <<exp, buf, pc, batch, left, owner, saved, phase, ticks, sessions>>

Close == /\ phase = "up" /\ phase' = "closing"
         /\ pc' = [pc EXCEPT !["close"] = IF NoCloseFlush THEN "over" ELSE "waits"]
         /\ UNCHANGED <<exp, buf, batch, left, owner, saved, cancelled, ticks, sessions>>

\* takes the buffer
Take(s) ==
  /\ pc[s] = "waits"
  /\ NoSaveLock \/ owner = "nobody"
  /\ owner' = IF NoSaveLock THEN owner ELSE s
  /\ batch' = [batch EXCEPT ![s] = buf] /\ left' = [left EXCEPT ![s] = Commits]
  /\ buf' = IF LateClear THEN buf ELSE <<>>
  /\ pc' = [pc EXCEPT ![s] = "saves"]
  /\ UNCHANGED <<exp, saved, cancelled, phase, ticks, sessions>>

\* one of the commits of a save. The last makes the batch readable.
Commit(s) ==
  /\ pc[s] = "saves" /\ phase # "down"
  /\ IF SaveCancelled /\ cancelled
     THEN /\ pc' = [pc EXCEPT ![s] = IF s = "tick" THEN "idle" ELSE "over"] /\ owner' = IF owner = s THEN "nobody" ELSE owner
          /\ UNCHANGED <<left, saved, buf, batch>>
     ELSE /\ left' = [left EXCEPT ![s] = @ - 1]
          /\ IF left[s] > 1 THEN UNCHANGED <<saved, pc, owner, buf, batch>>
             ELSE /\ saved' = [x \in Exports |-> saved[x] + Cardinality({i \in DOMAIN batch[s] : batch[s][i] = x})]
                  /\ pc' = [pc EXCEPT ![s] = IF s = "tick" THEN "idle" ELSE "over"]
                  /\ owner' = IF owner = s THEN "nobody" ELSE owner
                  /\ batch' = [batch EXCEPT ![s] = <<>>]
                  /\ buf' = IF LateClear THEN <<>> ELSE buf
  /\ UNCHANGED <<exp, cancelled, phase, ticks, sessions>>

\* Close returned, the databases are closed under whoever still saves
Down ==
  /\ phase = "closing" /\ pc["close"] = "over" /\ phase' = "down"
  /\ UNCHANGED <<exp, buf, pc, batch, left, owner, saved, cancelled, ticks, sessions>>

Reopen ==
  /\ phase = "down" /\ sessions < MaxSessions /\ \A x \in Exports : exp[x] # "called"
  /\ sessions' = sessions + 1 /\ phase' = "up" /\ cancelled' = FALSE /\ owner' = "nobody"
  /\ pc' = [s \in Savers |-> "idle"] /\ batch' = [s \in Savers |-> <<>>] /\ left' = [s \in Savers |-> 0] /\ buf' = <<>>
  /\ UNCHANGED <<exp, saved, ticks>>

Next == \/ \E x \in Exports : Call(x) \/ Accept(x) \/ Refuse(x)
        \/ Tick \/ Cancel \/ Close \/ Down \/ Reopen
        \/ \E s \in Savers : Take(s) \/ Commit(s)
Spec == Init /\ [][Next]_vars
Live == Spec /\ \A s \in Savers : WF_vars(Take(s) \/ Commit(s)) /\ WF_vars(Down)

-----------------------------------------------------------------------------
\* after the shutdown everything acknowledged was saved, once
Kept == phase = "down" => \A x \in Exports : exp[x] = "acked" => saved[x] = 1
Once == \A x \in Exports : saved[x] <= 1 /\ (saved[x] = 1 => exp[x] = "acked")
Alone == \A s, t \in Savers : s # t /\ pc[s] = "saves" => pc[t] # "saves"
Ends == (phase = "closing") ~> (phase = "down")
=============================================================================
