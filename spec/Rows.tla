-------------------------------- MODULE Rows --------------------------------
(***************************************************************************)
(* Rows of columns (P16). What a row means is a set, `row`. How it is      *)
(* kept is a cell per shard, which registers share until one of them is    *)
(* written: a shared cell is frozen and writers copy frozen cells.  With   *)
(* Freeze = FALSE shared cells stay writable, which is what the code did.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Regs, Points, NShards, Steps, Freeze

VARIABLES row,    \* register -> set of points
          seg,    \* register -> shard -> cell, 0 for none
          cell,   \* cell -> [s, frozen]
          n
vars == <<row, seg, cell, n>>

-----------------------------------------------------------------------------
(* What the operations mean. o is a record as the driver receives it. *)

UnionOf(r, as) == UNION {r[as[i]] : i \in DOMAIN as}
ToSet(s) == {s[i] : i \in DOMAIN s}

Effect(o, r) ==
  CASE o.o \in {"new", "bitmap", "build"} -> [r EXCEPT ![o.d] = ToSet(o.s)]
    [] o.o = "set" -> [r EXCEPT ![o.d] = @ \cup {o.x}]
    [] o.o = "clear" -> [r EXCEPT ![o.d] = @ \ {o.x}]
    [] o.o = "union" -> [r EXCEPT ![o.d] = r[o.a] \cup UnionOf(r, o.as)]
    [] o.o = "diff" -> [r EXCEPT ![o.d] = r[o.a] \ UnionOf(r, o.as)]
    [] o.o = "inter" -> [r EXCEPT ![o.d] = r[o.a] \cap r[o.b]]
    [] o.o = "xor" -> [r EXCEPT ![o.d] = (r[o.a] \ r[o.b]) \cup (r[o.b] \ r[o.a])]
    [] o.o = "merge" -> [r EXCEPT ![o.d] = @ \cup r[o.a]]
    [] o.o \in {"clone", "roaring"} -> [r EXCEPT ![o.d] = r[o.a]]
    [] OTHER -> r

-----------------------------------------------------------------------------
(* How they are carried out. *)

Shards == 0..(NShards - 1)
ShardOf(p) == p % NShards
In(S, s) == {p \in S : ShardOf(p) = s}
Cells == 1..(Cardinality(Regs) * NShards + NShards)
Empty == [s |-> {}, frozen |-> FALSE]

Init ==
  /\ row = [r \in Regs |-> {}]
  /\ seg = [r \in Regs |-> [s \in Shards |-> 0]]
  /\ cell = [c \in Cells |-> Empty]
  /\ n = 0

Content(r, s) == IF seg[r][s] = 0 THEN {} ELSE cell[seg[r][s]].s

\* Register d gets, for each shard, a plan: share the cell of another register,
\* a fresh cell with given content, keep its own, or nothing.
Used(d) == {seg[r][s] : r \in Regs, s \in Shards}
Place(d, plan) ==
  LET free == Cells \ Used(d)
      RECURSIVE Pick(_, _)
      \* cells for the shards that need a fresh one
      Pick(S, F) == IF S = {} THEN <<>> ELSE
                    LET s == CHOOSE s \in S : \A t \in S : s <= t
                        c == CHOOSE c \in F : \A e \in F : c <= e
                    IN (s :> c) @@ Pick(S \ {s}, F \ {c})
      fresh == Pick({s \in Shards : plan[s].k = "fresh"}, free)
      shared == {plan[s].c : s \in {t \in Shards : plan[t].k = "share"}}
  IN /\ seg' = [seg EXCEPT ![d] = [s \in Shards |->
                  CASE plan[s].k = "fresh" -> fresh[s]
                    [] plan[s].k = "share" -> plan[s].c
                    [] plan[s].k = "keep" -> seg[d][s]
                    [] OTHER -> 0]]
     /\ cell' = [c \in Cells |->
                  IF \E s \in DOMAIN fresh : fresh[s] = c
                  THEN [s |-> plan[CHOOSE s \in DOMAIN fresh : fresh[s] = c].s, frozen |-> FALSE]
                  ELSE IF c \in shared /\ Freeze THEN [cell[c] EXCEPT !.frozen = TRUE]
                  ELSE IF \E s \in Shards : plan[s].k = "keep" /\ seg[d][s] = c
                  THEN [cell[c] EXCEPT !.s = plan[CHOOSE s \in Shards : plan[s].k = "keep" /\ seg[d][s] = c].s]
                  ELSE cell[c]]

Fresh(S) == [k |-> "fresh", s |-> S, c |-> 0]
Shared(c) == [k |-> "share", s |-> {}, c |-> c]
None == [k |-> "none", s |-> {}, c |-> 0]
\* writing S into what register d has in shard s
Written(d, s, S) ==
  IF seg[d][s] = 0 THEN Fresh(S)
  ELSE IF cell[seg[d][s]].frozen THEN Fresh(S)
  ELSE [k |-> "keep", s |-> S, c |-> 0]
Untouched(d, s) == IF seg[d][s] = 0 THEN None ELSE [k |-> "keep", s |-> Content(d, s), c |-> 0]

Plan(o) ==
  CASE o.o \in {"new", "bitmap", "build"} -> [s \in Shards |-> IF In(ToSet(o.s), s) = {} THEN None ELSE Fresh(In(ToSet(o.s), s))]
    [] o.o = "set" -> [s \in Shards |-> IF s = ShardOf(o.x) THEN Written(o.d, s, Content(o.d, s) \cup {o.x}) ELSE Untouched(o.d, s)]
    [] o.o = "clear" -> [s \in Shards |-> IF s = ShardOf(o.x) /\ seg[o.d][s] # 0 THEN Written(o.d, s, Content(o.d, s) \ {o.x}) ELSE Untouched(o.d, s)]
    [] o.o = "union" -> [s \in Shards |->
         LET H == {r \in ToSet(o.as) \cup {o.a} : seg[r][s] # 0} IN
         IF H = {} THEN None
         ELSE IF Cardinality(H) = 1 THEN Shared(seg[CHOOSE r \in H : TRUE][s])
         ELSE Fresh(UNION {Content(r, s) : r \in H})]
    [] o.o = "diff" -> [s \in Shards |->
         IF seg[o.a][s] = 0 THEN None
         ELSE IF \A i \in DOMAIN o.as : seg[o.as[i]][s] = 0 THEN Shared(seg[o.a][s])
         ELSE Fresh(Content(o.a, s) \ UNION {Content(o.as[i], s) : i \in DOMAIN o.as})]
    [] o.o = "inter" -> [s \in Shards |-> IF seg[o.a][s] = 0 \/ seg[o.b][s] = 0 THEN None ELSE Fresh(Content(o.a, s) \cap Content(o.b, s))]
    [] o.o = "xor" -> [s \in Shards |->
         IF seg[o.a][s] = 0 THEN IF seg[o.b][s] = 0 THEN None ELSE Shared(seg[o.b][s])
         ELSE IF seg[o.b][s] = 0 THEN Shared(seg[o.a][s])
         ELSE Fresh((Content(o.a, s) \ Content(o.b, s)) \cup (Content(o.b, s) \ Content(o.a, s)))]
    [] o.o = "merge" -> [s \in Shards |->
         IF seg[o.d][s] = 0 THEN IF seg[o.a][s] = 0 THEN None ELSE Shared(seg[o.a][s])
         ELSE IF seg[o.a][s] = 0 THEN Untouched(o.d, s)
         ELSE Written(o.d, s, Content(o.d, s) \cup Content(o.a, s))]
    [] o.o = "clone" -> [s \in Shards |-> IF seg[o.a][s] = 0 THEN None ELSE Fresh(Content(o.a, s))]
    [] o.o = "freeze" -> [s \in Shards |-> IF seg[o.d][s] = 0 THEN None ELSE Shared(seg[o.d][s])]
    [] o.o = "roaring" -> [s \in Shards |-> IF Content(o.a, s) = {} THEN None ELSE Fresh(Content(o.a, s))]

SeqOf(S) == LET RECURSIVE F(_)
                F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : \A y \in T : x <= y IN <<x>> \o F(T \ {x})
            IN F(S)
Subsets == {SeqOf(S) : S \in SUBSET Points}
Lists == {<<>>} \cup {<<a>> : a \in Regs} \cup {<<a, b>> : a, b \in Regs}

Ops == [o : {"new"}, d : Regs, s : Subsets]
  \cup [o : {"set", "clear"}, d : Regs, x : Points]
  \cup [o : {"union", "diff"}, d : Regs, a : Regs, as : Lists]
  \cup [o : {"inter", "xor"}, d : Regs, a : Regs, b : Regs]
  \cup [o : {"merge", "clone", "roaring"}, d : Regs, a : Regs]
  \cup [o : {"freeze"}, d : Regs]

Do(o) == row' = Effect(o, row) /\ Place(o.d, Plan(o))
Next == n < Steps /\ n' = n + 1 /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* every register holds what it means, whatever was done to the others
Agrees == \A r \in Regs : row[r] = UNION {Content(r, s) : s \in Shards}
\* nothing that can be written is shared
Private == \A r, q \in Regs, s \in Shards : r # q /\ seg[r][s] # 0 /\ seg[r][s] = seg[q][s] => cell[seg[r][s]].frozen
=============================================================================
