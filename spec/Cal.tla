------------------------------- MODULE Cal -------------------------------
(***************************************************************************)
(* Time and calendar buckets.                                              *)
(*                                                                         *)
(* An instant is a pair <<s, n>>: s seconds since 2000-01-01T00:00:00Z     *)
(* (TLC integers have 32 bits) and n nanoseconds.  A bucket is a calendar  *)
(* year, month, day or hour in UTC, written <<unit, number>> where number  *)
(* counts units so that consecutive buckets have consecutive numbers.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Units == <<"Y", "M", "D", "H">>

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Le(a, b) == ~Lt(b, a)
MinT(a, b) == IF Lt(b, a) THEN b ELSE a

UnixZero == <<-946684800, 0>>

\* The last instant before t
Pred(t) == IF t[2] > 0 THEN <<t[1], t[2] - 1>> ELSE <<t[1] - 1, 999999999>>

AddS(t, s) == <<t[1] + s, t[2]>>

\* Length b - a compared with d whole seconds: b - a >= d
AtLeast(a, b, d) == Le(AddS(a, d), b)

Day(t) == t[1] \div 86400            \* floored, days since 2000-01-01

(* Civil date of a day number, after the shift of the era to 0000-03-01.   *)
Civil(d) ==
  LET z   == d + 730425              \* 2000-01-01 is day 730425 of the era
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp  == (5 * doy + 2) \div 153
      dd  == doy - ((153 * mp + 2) \div 5) + 1
      mm  == IF mp < 10 THEN mp + 3 ELSE mp - 9
      yy  == yoe + era * 400 + (IF mm <= 2 THEN 1 ELSE 0)
  IN  [y |-> yy, m |-> mm, d |-> dd]

\* Inverse of Civil
DaysOf(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      mp  == IF m > 2 THEN m - 3 ELSE m + 9
      doy == ((153 * mp + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN  era * 146097 + doe - 730425

\* Bucket of an instant
Bucket(u, t) ==
  LET c == Civil(Day(t)) IN
  CASE u = "Y" -> <<u, c.y>>
    [] u = "M" -> <<u, c.y * 12 + (c.m - 1)>>
    [] u = "D" -> <<u, Day(t)>>
    [] u = "H" -> <<u, t[1] \div 3600>>

Buckets(t) == {Bucket(Units[i], t) : i \in 1..4}

Pad(n, w) ==
  LET s == ToString(n) IN
  IF w = 4 THEN (IF n < 10 THEN "000" ELSE IF n < 100 THEN "00" ELSE IF n < 1000 THEN "0" ELSE "") \o s
  ELSE (IF n < 10 THEN "0" ELSE "") \o s

\* Name of a bucket as seen by users of the label listing
BucketName(b) ==
  "std_" \o
  CASE b[1] = "Y" -> Pad(b[2], 4)
    [] b[1] = "M" -> Pad(b[2] \div 12, 4) \o Pad((b[2] % 12) + 1, 2)
    [] b[1] = "D" -> LET c == Civil(b[2]) IN Pad(c.y, 4) \o Pad(c.m, 2) \o Pad(c.d, 2)
    [] b[1] = "H" -> LET c == Civil(b[2] \div 24) IN
                       Pad(c.y, 4) \o Pad(c.m, 2) \o Pad(c.d, 2) \o Pad(b[2] % 24, 2)

\* Granularity of a search over [start, end)
Granularity(start, end) ==
  CASE AtLeast(start, end, 360 * 86400) -> "Y"
    [] AtLeast(start, end, 30 * 86400)  -> "M"
    [] AtLeast(start, end, 86400)       -> "D"
    [] OTHER                            -> "H"

\* Numbers of the first and last bucket touched by the non-empty range [start, end)
SearchSpan(start, end) ==
  LET u == Granularity(start, end) IN
  <<Bucket(u, start)[2], Bucket(u, Pred(end))[2]>>

\* Buckets that contain an instant of [start, end), in order
Search(start, end) ==
  IF ~Lt(start, end) THEN <<>>
  ELSE LET u == Granularity(start, end)
           w == SearchSpan(start, end)
       IN  [i \in 1..(w[2] - w[1] + 1) |-> <<u, w[1] + i - 1>>]

\* Is the bucket of t touched by [start, end)?  Same as membership in Search.
Touches(t, start, end) ==
  /\ Lt(start, end)
  /\ LET u == Granularity(start, end)
         w == SearchSpan(start, end)
         b == Bucket(u, t)[2]
     IN  w[1] <= b /\ b <= w[2]
=============================================================================
