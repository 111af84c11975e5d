-------------------------------- MODULE Ids --------------------------------
(***************************************************************************)
(* Dictionaries that give each key a number, and the sequence of sample    *)
(* ids.  Numbers come from sequences that are leased in blocks: `top` is   *)
(* durable and is raised before a number above it is handed out.           *)
(* An insertion reads the dictionary, takes a number when its key is not   *)
(* there, and commits both directions at once; it fails when the key was   *)
(* committed by someone else in the meantime.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Procs, Dicts, Keys, Lease, MaxOps, MaxCrashes, MaxCloses, MaxIds,
          NoConflicts,  \* broken on purpose: late commits overwrite
          NoLease       \* broken on purpose: the lease is not durable before use

Seqs == Dicts \cup {0}      \* sequence 0 is that of sample ids
None == [none |-> TRUE]

VARIABLES up,
          keys,    \* durable <<dict, key>> -> number
          nums,    \* durable <<dict, number>> -> key
          cur, top,\* of each sequence
          op,      \* running insertion of each process
          told,    \* <<dict, key, number>> that an insertion ever returned
          ids,     \* sample ids handed out, in order
          nops, ncrash, nclose
vars == <<up, keys, nums, cur, top, op, told, ids, nops, ncrash, nclose>>

Init ==
  /\ up = TRUE /\ keys = <<>> /\ nums = <<>>
  /\ cur = [s \in Seqs |-> 0] /\ top = [s \in Seqs |-> Lease]
  /\ op = [p \in Procs |-> None] /\ told = {} /\ ids = <<>>
  /\ nops = 0 /\ ncrash = 0 /\ nclose = 0

Begin(p, d, k) ==
  /\ up /\ op[p] = None /\ nops < MaxOps
  /\ nops' = nops + 1
  /\ IF <<d, k>> \in DOMAIN keys
     THEN op' = [op EXCEPT ![p] = [d |-> d, k |-> k, at |-> "done", n |-> keys[<<d, k>>]]]
     ELSE op' = [op EXCEPT ![p] = [d |-> d, k |-> k, at |-> "take", n |-> 0]]
  /\ UNCHANGED <<up, keys, nums, cur, top, told, ids, ncrash, nclose>>

\* the sequence is locked while its lease is renewed: a commit of its own
Renew(p) ==
  /\ up /\ op[p] # None /\ op[p].at = "take"
  /\ cur[op[p].d] >= top[op[p].d]
  /\ top' = [top EXCEPT ![op[p].d] = @ + Lease]
  /\ UNCHANGED <<up, keys, nums, cur, op, told, ids, nops, ncrash, nclose>>

Take(p) ==
  /\ up /\ op[p] # None /\ op[p].at = "take"
  /\ NoLease \/ cur[op[p].d] < top[op[p].d]
  /\ op' = [op EXCEPT ![p].at = "commit", ![p].n = cur[op[p].d]]
  /\ cur' = [cur EXCEPT ![op[p].d] = @ + 1]
  /\ UNCHANGED <<up, keys, nums, top, told, ids, nops, ncrash, nclose>>

Commit(p) ==
  /\ up /\ op[p] # None /\ op[p].at = "commit"
  /\ LET d == op[p].d k == op[p].k n == op[p].n IN
     IF <<d, k>> \in DOMAIN keys /\ ~NoConflicts
     THEN /\ op' = [op EXCEPT ![p].at = "failed"]
          /\ UNCHANGED <<keys, nums>>
     ELSE /\ op' = [op EXCEPT ![p].at = "done"]
          /\ keys' = (<<d, k>> :> n) @@ keys
          /\ nums' = (<<d, n>> :> k) @@ nums
  /\ UNCHANGED <<up, cur, top, told, ids, nops, ncrash, nclose>>

End(p) ==
  /\ up /\ op[p] # None /\ op[p].at \in {"done", "failed"}
  /\ told' = IF op[p].at = "done" THEN told \cup {<<op[p].d, op[p].k, op[p].n>>} ELSE told
  /\ op' = [op EXCEPT ![p] = None]
  /\ UNCHANGED <<up, keys, nums, cur, top, ids, nops, ncrash, nclose>>

SampleId ==
  /\ up /\ Len(ids) < MaxIds
  /\ ids' = Append(ids, cur[0])
  /\ cur' = [cur EXCEPT ![0] = @ + 1]
  /\ top' = IF cur[0] >= top[0] /\ ~NoLease THEN [top EXCEPT ![0] = @ + Lease] ELSE top
  /\ UNCHANGED <<up, keys, nums, op, told, nops, ncrash, nclose>>

Close ==
  /\ up /\ nclose < MaxCloses /\ \A p \in Procs : op[p] = None
  /\ up' = FALSE /\ nclose' = nclose + 1
  /\ top' = [s \in Seqs |-> IF cur[s] < top[s] THEN cur[s] ELSE top[s]]
  /\ UNCHANGED <<keys, nums, cur, op, told, ids, nops, ncrash>>

Crash ==
  /\ up /\ ncrash < MaxCrashes
  /\ up' = FALSE /\ ncrash' = ncrash + 1
  /\ op' = [p \in Procs |-> None]
  /\ UNCHANGED <<keys, nums, cur, top, told, ids, nops, nclose>>

Open ==
  /\ ~up
  /\ up' = TRUE
  /\ cur' = top
  /\ top' = [s \in Seqs |-> top[s] + Lease]
  /\ UNCHANGED <<keys, nums, op, told, ids, nops, ncrash, nclose>>

Next ==
  \/ \E p \in Procs, d \in Dicts, k \in Keys : Begin(p, d, k)
  \/ \E p \in Procs : Renew(p) \/ Take(p) \/ Commit(p) \/ End(p)
  \/ SampleId \/ Close \/ Crash \/ Open

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* both directions agree
Agree ==
  /\ \A x \in DOMAIN keys : <<x[1], keys[x]>> \in DOMAIN nums /\ nums[<<x[1], keys[x]>>] = x[2]
  /\ \A x \in DOMAIN nums : <<x[1], nums[x]>> \in DOMAIN keys /\ keys[<<x[1], nums[x]>>] = x[2]
\* what was returned once stays true
Told == \A t \in told : <<t[1], t[2]>> \in DOMAIN keys /\ keys[<<t[1], t[2]>>] = t[3]
\* no number has two keys
Injective == \A x, y \in DOMAIN keys : x[1] = y[1] /\ keys[x] = keys[y] => x = y
Below == \A x \in DOMAIN keys : keys[x] < top[x[1]]
Increasing == \A i, j \in 1..Len(ids) : i < j => ids[i] < ids[j]
Stable == [][\A x \in DOMAIN keys : x \in DOMAIN keys' /\ keys'[x] = keys[x]]_vars
=============================================================================
