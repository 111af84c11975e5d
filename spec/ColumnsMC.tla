----------------------------- MODULE ColumnsMC ------------------------------
(***************************************************************************)
(* Every list of a few messages of a small schema survives, in one record  *)
(* or in two.                                                              *)
(***************************************************************************)
EXTENDS Columns
CONSTANT MaxRows, Nested
\* p plain, o optional, l list of plain scalars, m message, r list of messages with a list
Leaf == [p |-> [n |-> "p", k |-> "plain", rep |-> FALSE, c |-> <<>>], o |-> [n |-> "o", k |-> "opt", rep |-> FALSE, c |-> <<>>],
         l |-> [n |-> "l", k |-> "plain", rep |-> TRUE, c |-> <<>>]]
Inner == IF Nested THEN <<Leaf.p, Leaf.o, Leaf.l>> ELSE <<Leaf.o, Leaf.l>>
Schema == <<Leaf.p, [n |-> "m", k |-> "msg", rep |-> FALSE, c |-> Inner], [n |-> "r", k |-> "msg", rep |-> TRUE, c |-> <<Leaf.l>>]>>

Msg(fs) == [n |-> "", t |-> "", c |-> fs]
List(xs) == [n |-> "", t |-> "[]", c |-> xs]
Plain(n) == {<<>>, <<Named(n, Text("1"))>>}
Opt(n) == {<<>>, <<Named(n, Text("0"))>>, <<Named(n, Text("1"))>>}
Lists == {<<>>, <<Named("l", List(<<Text("1"), Text("0")>>))>>} \cup (IF Nested THEN {<<Named("l", List(<<Text("0")>>))>>} ELSE {})
Inners == IF Nested THEN {Msg(p \o o \o l) : p \in Plain("p"), o \in Opt("o"), l \in Lists} ELSE {Msg(o \o l) : o \in Opt("o") \ {<<Named("o", Text("1"))>>}, l \in Lists}
Ms == {<<>>} \cup {<<Named("m", x)>> : x \in Inners}
Rs == {<<>>} \cup {<<Named("r", List(x))>> : x \in {<<Msg(l)>> : l \in Lists} \cup (IF Nested THEN {<<Msg(a), Msg(b)>> : a \in Lists, b \in Lists} ELSE {<<Msg(<<>>), Msg(l)>> : l \in Lists})}
All == {Msg(p \o m \o r) : p \in Plain("p"), m \in Ms, r \in Rs}

\* flaws
NoShift(at) == 0
Never(kind) == FALSE

VARIABLES rows, cut
Init == rows = <<>> /\ cut = 0
Next == \/ Len(rows) < MaxRows /\ \E m \in All : rows' = Append(rows, m) /\ UNCHANGED cut
        \/ cut = 0 /\ \E c \in 1..(Len(rows) - 1) : cut' = c /\ UNCHANGED rows
Spec == Init /\ [][Next]_<<rows, cut>>
RoundTrip == LET r == Record(Schema, rows) IN \A i \in DOMAIN rows : Row(Schema, r, i) = rows[i]
Joined == cut > 0 => Join(Root(Schema), Record(Schema, SubSeq(rows, 1, cut)), Record(Schema, SubSeq(rows, cut + 1, Len(rows)))) = Record(Schema, rows)
=============================================================================
