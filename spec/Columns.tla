------------------------------ MODULE Columns -------------------------------
(***************************************************************************)
(* Messages as columns (P25): a column holds one field of many messages,   *)
(* or of many elements of lists.                                           *)
(*                                                                         *)
(* A field of a schema is [n |-> name, k |-> kind, rep |-> repeated, c |->   *)
(* fields of a message]; kinds are "plain" (a scalar whose default value is *)
(* as good as none), "opt" (a scalar that may be set to its default value) *)
(* and "msg". A term is [n |-> name, t |-> text, c |-> terms]; a message has *)
(* the terms of the fields that are set in the order of its schema, a list *)
(* the terms of its elements, which have no name.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
None == "none"
Default == "0"
Text(t) == [n |-> "", t |-> t, c |-> <<>>]
Named(n, x) == [x EXCEPT !.n = n]

\* what a field holds in a message, or in nothing
Field(m, n) == LET i == {i \in DOMAIN m : m[i].n = n} IN IF i = {} THEN <<>> ELSE <<m[CHOOSE x \in i : TRUE]>>

\* where the elements of the second of two columns of lists begin
Shift(at) == Last(at)
\* whether a column knows of places without a value
Nullable(kind) == kind # "plain"

\* slots are sequences of length 0 (nothing) or 1
RECURSIVE Encode(_, _), EncodeOne(_, _)
EncodeOne(f, slots) ==
  CASE f.k = "plain" -> [valid |-> <<>>, at |-> <<>>, c |-> <<>>, leaf |-> Map(LAMBDA s : IF s = <<>> THEN Default ELSE s[1].t, slots)]
    [] f.k = "opt" -> [valid |-> Map(LAMBDA s : Nullable("opt") => s # <<>>, slots), at |-> <<>>, c |-> <<>>, leaf |-> Map(LAMBDA s : IF s = <<>> THEN Default ELSE s[1].t, slots)]
    [] f.k = "msg" -> [valid |-> Map(LAMBDA s : s # <<>>, slots), at |-> <<>>, leaf |-> <<>>,
                       c |-> Map(LAMBDA g : Encode(g, Map(LAMBDA s : IF s = <<>> THEN <<>> ELSE Field(s[1].c, g.n), slots)), f.c)]
Encode(f, slots) ==
  IF ~f.rep THEN EncodeOne(f, slots)
  ELSE LET len(s) == IF s = <<>> THEN 0 ELSE Len(s[1].c)
           upto[i \in 0..Len(slots)] == IF i = 0 THEN 0 ELSE upto[i - 1] + len(slots[i])
           all == FlattenSeq(Map(LAMBDA s : IF s = <<>> THEN <<>> ELSE s[1].c, slots))
       IN [valid |-> Map(LAMBDA s : s # <<>>, slots), at |-> [i \in 1..(Len(slots) + 1) |-> upto[i - 1]], leaf |-> <<>>,
           c |-> <<EncodeOne(f, Map(LAMBDA x : <<x>>, all))>>]

\* what is at a place of a column, a slot
RECURSIVE Decode(_, _, _), DecodeOne(_, _, _, _)
DecodeOne(f, col, i, elem) ==
  CASE f.k = "plain" -> IF col.leaf[i] = Default /\ ~elem THEN <<>> ELSE <<Text(col.leaf[i])>>
    [] f.k = "opt" -> IF col.valid[i] THEN <<Text(col.leaf[i])>> ELSE <<>>
    [] f.k = "msg" -> IF col.valid[i] THEN <<[n |-> "", t |-> "", c |-> FlattenSeq([j \in DOMAIN f.c |-> Map(LAMBDA x : Named(f.c[j].n, x), Decode(f.c[j], col.c[j], i))])]>> ELSE <<>>
Decode(f, col, i) ==
  IF ~f.rep THEN DecodeOne(f, col, i, FALSE)
  ELSE IF col.at[i] = col.at[i + 1] THEN <<>>
  ELSE <<[n |-> "", t |-> "[]", c |-> FlattenSeq([k \in 1..(col.at[i + 1] - col.at[i]) |-> DecodeOne(f, col.c[1], col.at[i] + k, TRUE)])]>>

\* columns of two records one after the other, as they are written to a file
RECURSIVE Join(_, _, _), JoinOne(_, _, _)
JoinOne(f, a, b) == [valid |-> a.valid \o b.valid, at |-> <<>>, leaf |-> a.leaf \o b.leaf, c |-> [j \in DOMAIN a.c |-> Join(f.c[j], a.c[j], b.c[j])]]
Join(f, a, b) == IF ~f.rep THEN JoinOne(f, a, b)
                 ELSE [valid |-> a.valid \o b.valid, leaf |-> <<>>, c |-> <<JoinOne(f, a.c[1], b.c[1])>>,
                       at |-> a.at \o Map(LAMBDA x : x + Shift(a.at), Tail(b.at))]

Root(fields) == [n |-> "", k |-> "msg", rep |-> FALSE, c |-> fields]
Record(fields, ms) == Encode(Root(fields), Map(LAMBDA m : <<m>>, ms))
Row(fields, rec, i) == Decode(Root(fields), rec, i)[1]

(***************************************************************************)
(* A builder gathers messages, a record takes what was gathered, a file    *)
(* holds some records.                                                     *)
(***************************************************************************)
Gather(st, ms) == [st EXCEPT !.pending = @ \o ms]
Take(st) == [st EXCEPT !.recs = Append(@, st.pending), !.pending = <<>>]
Rows(st, rs) == FlattenSeq(Map(LAMBDA r : st.recs[r], rs))
Save(st) == [st EXCEPT !.files = Append(@, st.pending), !.pending = <<>>]
Write(st, rs) == [st EXCEPT !.files = Append(@, Rows(st, rs))]
Read(st, file, Part(_)) == [st EXCEPT !.recs = Append(@, Map(Part, st.files[file]))]
Fresh == [pending |-> <<>>, recs |-> <<>>, files |-> <<>>]
=============================================================================
