-------------------------------- MODULE Query --------------------------------
(***************************************************************************)
(* rq query (P23): processes that run scripts and keep what they compiled  *)
(* in a directory they share, under a name made from the script.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Scripts,
          Atomic,  \* a file gets its name when it is complete
          Clash    \* scripts may share a name

\* name -> what is stored under it
Name(s) == IF Clash THEN "x" ELSE s
Names == {Name(s) : s \in Scripts}
Absent == [of |-> "", whole |-> FALSE]
VARIABLES file, proc
vars == <<file, proc>>
Idle == [pc |-> "idle", s |-> "", code |-> Absent]
Init == file = [n \in Names |-> Absent] /\ proc = [p \in Procs |-> Idle]
Go(p, pc) == proc' = [proc EXCEPT ![p].pc = pc]
Start(p, s) == proc[p].pc = "idle" /\ proc' = [proc EXCEPT ![p] = [pc |-> "look", s |-> s, code |-> Absent]] /\ UNCHANGED file
Look(p) ==
  /\ proc[p].pc = "look" /\ UNCHANGED file
  /\ LET f == file[Name(proc[p].s)]
     IN  IF f = Absent THEN Go(p, "compile") ELSE proc' = [proc EXCEPT ![p].pc = "run", ![p].code = f]
Compile(p) == /\ proc[p].pc = "compile" /\ UNCHANGED file
              /\ proc' = [proc EXCEPT ![p].pc = "create", ![p].code = [of |-> proc[p].s, whole |-> TRUE]]
\* files that are written elsewhere first are no one's business until they are renamed
Create(p) == /\ proc[p].pc = "create" /\ Go(p, "write")
             /\ file' = IF Atomic THEN file ELSE [file EXCEPT ![Name(proc[p].s)] = [of |-> proc[p].s, whole |-> FALSE]]
Write(p) == /\ proc[p].pc = "write" /\ Go(p, "run")
            /\ file' = [file EXCEPT ![Name(proc[p].s)] = proc[p].code]
Run(p) == proc[p].pc = "run" /\ Go(p, "done") /\ UNCHANGED file
Leave(p) == proc[p].pc = "done" /\ proc' = [proc EXCEPT ![p] = Idle] /\ UNCHANGED file
Kill(p) == proc[p].pc \notin {"idle", "done"} /\ proc' = [proc EXCEPT ![p] = Idle] /\ UNCHANGED file
Next == \E p \in Procs : (\E s \in Scripts : Start(p, s)) \/ Look(p) \/ Compile(p) \/ Create(p) \/ Write(p) \/ Run(p) \/ Leave(p) \/ Kill(p)
Spec == Init /\ [][Next]_vars
\* what is run is the script
Right == \A p \in Procs : proc[p].pc = "done" => proc[p].code = [of |-> proc[p].s, whole |-> TRUE]
Kept == \A n \in Names : file[n] # Absent => file[n].whole
=============================================================================
