------------------------------ MODULE RowsGen ------------------------------
(* Random programs over rows and bit-sliced integers, for the driver to run. *)
EXTENDS Rows, Json

CONSTANT BRegs
VARIABLES h,
          big    \* bsi register -> bound on the highest limb of its values
gvars == <<vars, h, big>>

Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
SomeSet == LET k == Some(1..4) IN SeqOf({p \in Points : OneIn(k)})
\* a few, or many that are the same but for the last ones
SomeRegs == IF OneIn(8) THEN CHOOSE f \in {[i \in 1..k |-> IF i < k THEN r ELSE q] : r \in {Some(Regs)}, q \in {Some(Regs)}, k \in {Some(5..20)}} : TRUE
            ELSE [i \in 1..Some(0..3) |-> Some(Regs)]
Wide == Some(0..1023) * 2048 + Some(0..2047)
Limb == CASE OneIn(3) -> 0 [] OneIn(2) -> Some({1, 2, 5, 1000, 2097151, 1048576}) [] OTHER -> Wide
SomeValues == LET S == SeqOf({p \in Points : OneIn(2)}) small == ~OneIn(3) top == Some({1, 2, 3, 9}) IN
              [i \in DOMAIN S |-> [p |-> S[i], v |-> IF small THEN <<0, 0, Some(0..top)>> ELSE <<Some({0, 0, 0, 1, 1, 7, 65535, 2097152, 4194303}), Limb, Limb>>]]
Largest(vs) == LET V == {vs[i].v[1] : i \in DOMAIN vs} IN IF \E x \in V : x > 65535 THEN 4194303 ELSE 65535

RowOp(k) ==
  CASE k = 1 -> [o |-> "new", d |-> Some(Regs), s |-> SomeSet]
    [] k = 2 -> [o |-> "bitmap", d |-> Some(Regs), s |-> SomeSet]
    [] k = 3 -> [o |-> "build", d |-> Some(Regs), s |-> SomeSet]
    [] k \in {4, 5, 6} -> [o |-> "set", d |-> Some(Regs), x |-> Some(Points)]
    [] k \in {7, 8} -> [o |-> "clear", d |-> Some(Regs), x |-> Some(Points)]
    [] k \in {9, 10} -> [o |-> "union", d |-> Some(Regs), a |-> Some(Regs), as |-> SomeRegs]
    [] k \in {11, 12} -> [o |-> "diff", d |-> Some(Regs), a |-> Some(Regs), as |-> SomeRegs]
    [] k \in {13, 14} -> [o |-> "inter", d |-> Some(Regs), a |-> Some(Regs), b |-> Some(Regs)]
    [] k \in {15, 16} -> [o |-> "xor", d |-> Some(Regs), a |-> Some(Regs), b |-> Some(Regs)]
    [] k \in {17, 18} -> [o |-> "merge", d |-> Some(Regs), a |-> Some(Regs)]
    [] k = 19 -> [o |-> "clone", d |-> Some(Regs), a |-> Some(Regs)]
    [] k = 20 -> [o |-> "roaring", d |-> Some(Regs), a |-> Some(Regs)]
    [] k = 21 -> [o |-> "shift", a |-> Some(Regs), n |-> Some({0, 1, 1, 2, 3, 17, 64})]
    [] k = 22 -> [o |-> "freeze", d |-> Some(Regs)]
    [] k = 23 -> [o |-> "meet", a |-> Some(Regs), b |-> Some(Regs)]
BsiOp(k) ==
  CASE k \in 1..3 -> [o |-> "binsert", d |-> Some(BRegs), vs |-> SomeValues]
    [] k \in {4, 5} -> [o |-> "badd", d |-> Some(BRegs), a |-> Some(BRegs), b |-> Some(BRegs)]
    [] k = 6 -> [o |-> "bpoke", d |-> Some(BRegs), x |-> Some(Points), i |-> Some({0, 1, 2, 20, 21, 41, 42, 50, 63})]
    [] k \in 7..10 -> [o |-> "pivot", a |-> Some(BRegs), s |-> SomeSet, lim |-> Some({-1, 0, 1, 2, 3, 4, 6}), off |-> Some({-1, 0, 1, 1, 2, 3, 5})]

GInit == Init /\ h = <<>> /\ big = [b \in BRegs |-> 0]
GNext ==
  /\ Len(h) < Steps
  /\ n' = n + 1
  /\ UNCHANGED <<seg, cell>>
  /\ \/ \E o \in {RowOp(Some(1..23))} : row' = Effect(o, row) /\ h' = Append(h, o) /\ big' = big
     \/ /\ ~OneIn(3)
        /\ \E o \in {BsiOp(Some(1..10))} :
             /\ o.o = "badd" => big[o.a] + big[o.b] + 1 < 4194304
             /\ h' = Append(h, o) /\ row' = row
             /\ big' = CASE o.o = "binsert" -> [big EXCEPT ![o.d] = Largest(o.vs)]
                         [] o.o = "badd" -> [big EXCEPT ![o.d] = big[o.a] + big[o.b] + 1]
                         [] o.o = "bpoke" -> [big EXCEPT ![o.d] = @ + (IF o.i = 63 THEN 2097152 ELSE 512)]
                         [] OTHER -> big
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
