-------------------------------- MODULE Bsi --------------------------------
(* Bit-sliced integers: lane i holds the columns whose value has bit i. The full
   adder over lanes adds values, the pivot lists values from the highest. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

CONSTANTS Cols, Top

RECURSIVE Pow(_)
Pow(i) == IF i = 0 THEN 1 ELSE 2 * Pow(i - 1)
Bit(v, i) == (v \div Pow(i)) % 2 = 1

Bits == 3
Lanes(f) == [i \in 1..Bits |-> {c \in DOMAIN f : Bit(f[c], i - 1)}]
RECURSIVE Sum(_, _)
Sum(l, c) == IF l = <<>> THEN 0 ELSE (IF c \in Head(l) THEN 1 ELSE 0) + 2 * Sum(Tail(l), c)
Value(l) == [c \in Cols |-> Sum(l, c)]

Lane(l, i) == IF i <= Len(l) THEN l[i] ELSE {}
Xor(a, b) == (a \ b) \cup (b \ a)
RECURSIVE Ripple(_, _, _, _)
Ripple(x, y, i, carry) ==
  IF i > Len(x) /\ i > Len(y) THEN <<carry>>
  ELSE LET a == Lane(x, i) b == Lane(y, i) IN
       <<Xor(Xor(a, b), carry)>> \o Ripple(x, y, i + 1, (a \cap b) \cup (a \cap carry) \cup (b \cap carry))
Add(x, y) == Ripple(x, y, 1, {})

\* the descent of PivotDescending: pairs <<value, column>> in the order of the calls
Asc(S) == SetToSortSeq(S, <)
RECURSIVE Pivot(_, _, _)
Pivot(l, filter, branch) ==
  IF filter = {} THEN <<>>
  ELSE IF l = <<>> THEN [i \in 1..Cardinality(filter) |-> <<branch, Asc(filter)[i]>>]
  ELSE LET top == l[Len(l)] rest == SubSeq(l, 1, Len(l) - 1) IN
       Pivot(rest, filter \cap top, branch + Pow(Len(l) - 1)) \o Pivot(rest, filter \ top, branch)

Before(f, c, e) == f[c] > f[e] \/ (f[c] = f[e] /\ c < e)
Sorted(f, S) == LET s == SetToSortSeq(S, LAMBDA c, e : Before(f, c, e)) IN [i \in DOMAIN s |-> <<f[s[i]], s[i]>>]

VARIABLES f, g
Init == f \in [Cols -> 0..Top] /\ g \in [Cols -> 0..Top]
Next == UNCHANGED <<f, g>>
Spec == Init /\ [][Next]_<<f, g>>

Keeps == Value(Lanes(f)) = f
Adds == Value(Add(Lanes(f), Lanes(g))) = [c \in Cols |-> f[c] + g[c]]
Pivots == \A S \in SUBSET Cols : Pivot(Lanes(f), S, 0) = Sorted(f, S)
=============================================================================
