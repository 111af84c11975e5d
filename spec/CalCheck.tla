----------------------------- MODULE CalCheck -----------------------------
(***************************************************************************)
(* The calendar of Cal, checked against a clock that only knows how a day  *)
(* follows another, and the buckets of a search against their definition:  *)
(* those that contain an instant of the range.                             *)
(***************************************************************************)
EXTENDS Cal, FiniteSets

CONSTANTS From, To, Ranges   \* days since 1970 walked; whether ranges are checked too
First == From - 10957
Last  == To - 10957

VARIABLES d, date, wd
vars == <<d, date, wd>>

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == CASE m \in {4, 6, 9, 11} -> 30 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 31

\* the walk starts at many days at once and runs into the next start
Chunk == 25
Init == d \in {First + k * Chunk : k \in 0..((Last - First) \div Chunk)} /\ date = Civil(d) /\ wd = (d - 1) % 7   \* 2000-01-02 was a Sunday

Next ==
  /\ d < Last
  /\ d' = d + 1
  /\ wd' = (wd + 1) % 7
  /\ date' = IF date.d < MonthLen(date.y, date.m) THEN [date EXCEPT !.d = @ + 1]
             ELSE IF date.m < 12 THEN [y |-> date.y, m |-> date.m + 1, d |-> 1]
             ELSE [y |-> date.y + 1, m |-> 1, d |-> 1]
Spec == Init /\ [][Next]_vars

Anchor == Civil(0) = [y |-> 2000, m |-> 1, d |-> 1] /\ Civil(59) = [y |-> 2000, m |-> 2, d |-> 29] /\ Civil(-10957) = [y |-> 1970, m |-> 1, d |-> 1]
Walk == Civil(d) = date /\ DaysOf(date.y, date.m, date.d) = d

\* ranges that start on this day
Starts == {<<d * 86400, 0>>, <<d * 86400 + 3599, 999999999>>, <<d * 86400 + 86399, 999999999>>, <<d * 86400 + 45000, 5>>}
Lens == {<<0, 1>>, <<1, 0>>, <<3599, 999999999>>, <<3600, 0>>, <<86399, 999999999>>, <<86400, 0>>, <<86400 * 30 - 1, 999999999>>,
         <<86400 * 30, 0>>, <<86400 * 360 - 1, 999999999>>, <<86400 * 360, 0>>, <<86400 * 800, 1>>}
Plus(t, x) == IF t[2] + x[2] > 999999999 THEN <<t[1] + x[1] + 1, t[2] + x[2] - 1000000000>> ELSE <<t[1] + x[1], t[2] + x[2]>>

\* instants of [s, e) that meet every bucket: its bounds and every bucket start between them
Meeting(u, s, e) ==
  LET step == CASE u = "H" -> 3600 [] OTHER -> 86400
      k0 == s[1] \div step  k1 == e[1] \div step
  IN  {s, Pred(e)} \cup {t \in {<<k * step, 0>> : k \in k0..k1} : Le(s, t) /\ Lt(t, e)}

Exact ==
  Ranges =>
  \A s \in Starts, x \in Lens :
    LET e == Plus(s, x) q == Search(s, e) u == Granularity(s, e) IN
    /\ {q[i] : i \in DOMAIN q} = {Bucket(u, t) : t \in Meeting(u, s, e)}
    /\ \A i \in 1..(Len(q) - 1) : q[i][2] < q[i + 1][2]
    /\ \A t \in Meeting(u, s, e) : Touches(t, s, e)
    /\ Search(e, s) = <<>> /\ Search(s, s) = <<>>
    /\ (u = "Y") = AtLeast(s, e, 86400 * 360)

\* a bucket of each unit contains those of the next
Nested == Ranges => \A t \in Starts, v \in Starts : \A i \in 1..3 : Bucket(Units[i + 1], t) = Bucket(Units[i + 1], v) => Bucket(Units[i], t) = Bucket(Units[i], v)
=============================================================================
