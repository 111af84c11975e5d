----------------------------- MODULE ScriptGen -----------------------------
(***************************************************************************)
(* Scripts as a state machine: objects are created, described and queried  *)
(* in any order.  Evaluation time and offset come before a relative range. *)
(* Explored exhaustively for small values, and sampled as behaviours for   *)
(* the driver to turn into real scripts.                                   *)
(***************************************************************************)
EXTENDS Script, FiniteSets, Json

CONSTANTS Objs, Times, Durs, Vals, Steps, Sample

Clock == <<86400 * 8800 + 34567, 5000000>>

VARIABLES objs, issued, h, clockSet
vars == <<objs, issued, h, clockSet>>

Init == objs = <<>> /\ issued = <<>> /\ h = <<>> /\ clockSet = {}

Some(S) == IF Sample THEN {RandomElement({x \in S : Len(h) >= 0})} ELSE S
Do(s) == h' = Append(h, s)

Create(i, sig, v) ==
  /\ objs' = (i :> (IF v = "" \/ sig # 1 THEN Blank(sig) ELSE Apply(Blank(sig), [m |-> "name", v |-> v], Clock))) @@ objs
  /\ clockSet' = clockSet \ {i}
  /\ Do([s |-> "create", i |-> i, sig |-> sig, v |-> IF sig = 1 THEN v ELSE ""])
  /\ UNCHANGED issued

Call(i, c) ==
  /\ i \in DOMAIN objs
  \* what comes after a relative range does not move it
  /\ c.m \in {"now", "offset"} => i \notin clockSet
  /\ objs' = [objs EXCEPT ![i] = Apply(@, c, Clock)]
  /\ clockSet' = IF c.m = "timeRange" THEN clockSet \ {i} ELSE IF c.m \in Ranges THEN clockSet \cup {i} ELSE clockSet
  /\ Do([s |-> "call", i |-> i, c |-> c])
  /\ UNCHANGED issued

\* what follows a wrong call is not executed
Failed == \E j \in DOMAIN h : h[j].s = "bad"

Query(i) ==
  /\ i \in DOMAIN objs
  /\ issued' = IF Failed THEN issued ELSE Append(issued, objs[i])
  /\ Do([s |-> "query", i |-> i])
  /\ UNCHANGED <<objs, clockSet>>

Bad(i) == i \in DOMAIN objs /\ Sample /\ RandomElement({x \in 1..40 : Len(h) >= 0}) = 1 /\ Do([s |-> "bad", i |-> i]) /\ UNCHANGED <<objs, issued, clockSet>>

\* objects of long scripts live longer
Again == Steps > 50 => RandomElement({x \in 1..30 : Len(h) >= 0}) = 1

Next ==
  /\ Len(h) < Steps
  /\ \/ \E i \in Some(Objs), sig \in Some(1..3), v \in Some({"", "n"}) : (i \notin DOMAIN objs \/ (Cardinality(DOMAIN objs) = Cardinality(Objs) /\ Again)) /\ Create(i, sig, v)
     \/ \E i \in Some(Objs), m \in Some(DOMAIN BaseProps), v \in Some(Vals) : Call(i, [m |-> m, v |-> v])
     \/ \E i \in Some(Objs), m \in Some(DOMAIN AttrProps), k \in Some(Vals), v \in Some(Vals) : Call(i, [m |-> m, k |-> k, v |-> v])
     \/ \E i \in Some(Objs), n \in Some(1..3) : Call(i, [m |-> "limit", n |-> n])
     \/ \E i \in Some(Objs) : Call(i, [m |-> "reverse"])
     \/ \E i \in Some(Objs), t \in Some(Times) : Call(i, [m |-> "now", t |-> t])
     \/ \E i \in Some(Objs), d \in Some(Durs) : Call(i, [m |-> "offset", d |-> d])
     \/ \E i \in Some(Objs), t \in Some(Times), u \in Some(Times) : Call(i, [m |-> "timeRange", t |-> t, t2 |-> u])
     \/ \E i \in Some(Objs), m \in Some({"today", "thisWeek", "thisMonth", "thisYear", "latest"}) : Call(i, [m |-> m])
     \/ \E i \in Some(Objs), d \in Some(Durs) : Call(i, [m |-> "ago", d |-> d])
     \/ \E i \in Some(Objs) : Query(i) \/ Bad(i)

Spec == Init /\ [][Next]_vars

\* the step by step machine and the evaluation of the whole script agree
Agrees == Exec(h, Clock).issued = issued

\* the range of a relative call ends at the evaluation time
Relative == \A i \in clockSet : objs[i].range[2] = Eval(objs[i], Clock)

\* calls on an object leave the others, and what was issued, alone
Isolated == [][/\ \A i \in DOMAIN objs : objs'[i] # objs[i] => h'[Len(h')].i = i
               /\ \A j \in DOMAIN issued : issued'[j] = issued[j]]_vars

\* calendar starts are what their names say
Calendar ==
  \A t \in Times : LET d == DayStart(t) w == WeekStart(t) m == MonthStart(t) y == YearStart(t) IN
    /\ Le(d, t) /\ Lt(t, AddS(d, 86400)) /\ d[1] % 86400 = 0
    /\ Le(w, d) /\ Lt(d, AddS(w, 7 * 86400)) /\ (w[1] \div 86400) % 7 = 1
    /\ Le(m, d) /\ Civil(Day(m)).d = 1 /\ Bucket("M", m) = Bucket("M", t)
    /\ Le(y, m) /\ Civil(Day(y)).d = 1 /\ Civil(Day(y)).m = 1 /\ Bucket("Y", y) = Bucket("Y", t)

\* for simulation
Over == (Sample /\ Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
View == <<objs, issued, clockSet, Len(h)>>
=============================================================================
