------------------------------ MODULE IndexGen ------------------------------
(* Random histories of Index, for the driver to repeat on real batches and shards. *)
EXTENDS Index, Json

CONSTANT Steps
VARIABLES h, pool
gvars == <<vars, h, pool>>
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
Log(o) == h' = Append(h, o)
RECURSIVE SeqOf(_)
SeqOf(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o SeqOf(T \ {x})
SomeLabels == {SeqOf({k \in Labels : OneIn(4)}), SeqOf({k \in Labels : OneIn(2)}), SeqOf({k \in Labels : ~OneIn(6)}), <<Some(Labels)>>}
Added == {h[i].ls : i \in {j \in DOMAIN h : h[j].o \in {"add", "many"}}} \ {<<>>}
Known == IF Added = {} THEN SomeLabels ELSE {Some(Added)}
SetOf(s) == {s[i] : i \in DOMAIN s}

GInit == Init /\ h = <<>> /\ pool = {}
GNext ==
  /\ Len(h) < Steps
  /\ \/ \E i \in 1..2 : \E b \in {Some(Batches)} :
          /\ \E t \in {Some(Buckets)}, ls \in {Some(SomeLabels)} :
               /\ pend' = [pend EXCEPT ![b] = @ \cup {[id |-> next, t |-> t, ls |-> SetOf(ls)]}]
               /\ Log([o |-> IF ls = <<>> /\ OneIn(2) THEN "skip" ELSE "add", b |-> b, n |-> next, t |-> t, ls |-> ls])
          /\ next' = next + 1
          /\ UNCHANGED <<kept, frags, meant, todo, disk, pool>>
     \* many samples that are alike
     \/ OneIn(4) /\ \E b \in {Some(Batches)}, ls \in {Some(SomeLabels)}, k \in {Some({5, 20, 40})} :
          /\ ls # <<>> /\ Log([o |-> "many", b |-> b, n |-> next, k |-> k, ls |-> ls]) /\ next' = next + k
          /\ UNCHANGED <<pend, kept, frags, meant, todo, disk, pool>>
     \/ \E b \in {Some(Batches)} : Build(b) /\ Log([o |-> "build", b |-> b]) /\ pool' = pool \cup {Len(frags) + 1}
     \/ \E b \in {Some(Batches)} : OneIn(6) /\ Reset(b) /\ Log([o |-> "reset", b |-> b]) /\ pool' = pool
     \/ /\ pool # {}
        /\ \E f \in {Some(pool)} : Log([o |-> "write", f |-> f]) /\ pool' = pool \ {f} /\ UNCHANGED vars
     \/ /\ Cardinality(pool) > 2
        /\ Log([o |-> "par", fs |-> SeqOf(pool)]) /\ pool' = {} /\ UNCHANGED vars
     \/ \E i \in 1..2 : \E ls \in {Some(IF OneIn(2) THEN Known ELSE SomeLabels)} : ls # <<>> /\ Log([o |-> "rows", ls |-> ls, t |-> Some(Buckets), w |-> Some(1..8)]) /\ UNCHANGED <<vars, pool>>
     \/ /\ next > 1
        /\ \E n \in {Some(1..(next - 1))} : Log([o |-> "row", n |-> n, t |-> Some(Buckets), own |-> ~OneIn(3), keep |-> OneIn(2)]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(3) /\ Log([o |-> "all"]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(4) /\ Log([o |-> "fail", k |-> Some(Labels)]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(3) /\ Log([o |-> "again"]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(5) /\ Log([o |-> "reopen"]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(8) /\ Log([o |-> "churn", k |-> Some(Labels)]) /\ UNCHANGED <<vars, pool>>
     \/ OneIn(5) /\ Log([o |-> "parbuild", n |-> next, k |-> 4]) /\ next' = next + 40 /\ UNCHANGED <<pend, kept, frags, meant, todo, disk, pool>>
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
