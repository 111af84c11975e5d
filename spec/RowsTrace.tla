----------------------------- MODULE RowsTrace -----------------------------
(***************************************************************************)
(* Judges programs run on real rows (P16). Each point of the specification *)
(* stands for a group of columns; after every operation the driver reports *)
(* every register as the groups it contains.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged, row, val, w, lone
vars == <<l, judged, row, val, w, lone>>

\* Only the meaning of operations is used, not how Rows carries them out.
R == INSTANCE Rows WITH Regs <- {}, Points <- {}, NShards <- 1, Steps <- 0, Freeze <- TRUE, seg <- <<>>, cell <- <<>>, n <- 0

Base == 2097152
Zero == <<0, 0, 0>>
Plus(u, v) ==
  LET lo == u[3] + v[3]
      mi == u[2] + v[2] + lo \div Base
  IN <<u[1] + v[1] + mi \div Base, mi % Base, lo % Base>>
RECURSIVE Pow(_)
Pow(i) == IF i = 0 THEN 1 ELSE 2 * Pow(i - 1)
\* v with bit i set
SetBit(v, i) ==
  LET j == IF i > 41 THEN 1 ELSE 3 - i \div 21  \* the first limb has one bit more
      b == Pow(i - 21 * (3 - j))
  IN IF (v[j] \div b) % 2 = 1 THEN v ELSE [v EXCEPT ![j] = @ + b]
Less(u, v) == u[1] < v[1] \/ (u[1] = v[1] /\ (u[2] < v[2] \/ (u[2] = v[2] /\ u[3] < v[3])))

At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE Zero
NonZero(f) == [p \in {q \in DOMAIN f : f[q] # Zero} |-> f[p]]
BEffect(o, v) ==
  CASE o.o = "binsert" -> [v EXCEPT ![o.d] = NonZero([p \in {o.vs[i].p : i \in DOMAIN o.vs} |-> o.vs[CHOOSE i \in DOMAIN o.vs : o.vs[i].p = p].v])]
    [] o.o = "badd" -> [v EXCEPT ![o.d] = [p \in DOMAIN v[o.a] \cup DOMAIN v[o.b] |-> Plus(At(v[o.a], p), At(v[o.b], p))]]
    [] o.o = "bpoke" -> [v EXCEPT ![o.d] = (o.x :> SetBit(At(v[o.d], o.x), o.i)) @@ @]
    [] OTHER -> v

RECURSIVE Weigh(_)
Weigh(S) == IF S = {} THEN 0 ELSE LET p == CHOOSE p \in S : TRUE IN w[p] + Weigh(S \ {p})

\* one register as reported against the set it should be
RowOk(d, S) ==
  IF d.err # "" THEN d.err
  ELSE IF ToSet(d.pts) # S \/ d.partial # 0 \/ d.stray # 0 THEN "other columns"
  ELSE IF ~d.asc THEN "columns out of order or listed twice"
  ELSE IF d.count # Weigh(S) THEN "wrong count"
  ELSE IF d.empty # (S = {}) \/ d.any # (S # {}) THEN "wrong emptiness"
  ELSE IF ToSet(d.inc) # S \/ d.probe # 0 THEN "wrong membership"
  ELSE IF ~d.same THEN "listings disagree"
  ELSE ""
ValOk(d, f) ==
  IF d.err # "" THEN d.err
  ELSE IF d.stray # 0 \/ d.mixed # 0 THEN "values at other columns"
  ELSE IF {d.vs[i].p : i \in DOMAIN d.vs} # DOMAIN f THEN "other columns with values"
  ELSE IF \E i \in DOMAIN d.vs : d.vs[i].v # f[d.vs[i].p] THEN "wrong value" ELSE ""

\* the pivot lists filter columns from the highest value; columns without a value may be left out
Window(s, lim, off) ==
  LET a == IF off < 0 THEN 0 ELSE off
      b == IF lim < 0 THEN Len(s) ELSE a + lim
  IN SubSeq(s, a + 1, IF b > Len(s) THEN Len(s) ELSE b)
PivotOk(o, res, f) ==
  LET s == SetToSortSeq(ToSet(res.f), LAMBDA p, q : Less(At(f, q), At(f, p)) \/ (At(f, p) = At(f, q) /\ p < q))
      all == Window([i \in DOMAIN s |-> [p |-> s[i], v |-> At(f, s[i])]], o.lim, o.off)
      some == SelectSeq(all, LAMBDA x : x.v # Zero)
  IN IF ~(ToSet(res.f) \subseteq lone) THEN "pivot over other columns"
     ELSE IF res.out = all \/ res.out = some THEN "" ELSE "wrong pivot"

\* ranges <<hi, lo, length>> that do not cross a shard end
ShiftOk(o, res) ==
  IF res.in # res.after THEN "shift changed its operand"
  ELSE IF res.out # [i \in DOMAIN res.in |-> <<res.in[i][1], res.in[i][2] + o.n, res.in[i][3]>>] THEN "wrong shift" ELSE ""

First(f, D, n) == LET bad == {i \in 1..n : f[i] # ""} IN
                  IF bad = {} THEN "" ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j IN D \o ToString(i) \o ": " \o f[i]

Changed(o) == IF o.o = "set" THEN IF o.x \in row[o.d] THEN 0 ELSE w[o.x]
              ELSE IF o.o = "clear" THEN IF o.x \in row[o.d] THEN w[o.x] ELSE 0 ELSE 0

Verdict(e, r2, v2) ==
  CASE e.ev \in {"died", "hung"} -> "the process died"
    [] e.ev = "op" ->
         LET o == e.o
             a == First([i \in 1..Len(e.rows) |-> RowOk(e.rows[i], r2[i])], "row ", Len(e.rows))
             b == First([i \in 1..Len(e.vals) |-> ValOk(e.vals[i], v2[i])], "bsi ", Len(e.vals))
         IN IF e.err # "" THEN "failed: " \o e.err
            ELSE IF o.o \in {"set", "clear"} /\ e.res.changed # Changed(o) THEN "wrong report of change"
            ELSE IF o.o = "meet" /\ e.res.count # Weigh(row[o.a] \cap row[o.b]) THEN "wrong number of common columns"
            ELSE IF o.o = "pivot" /\ PivotOk(o, e.res, val[o.a]) # "" THEN PivotOk(o, e.res, val[o.a])
            ELSE IF o.o = "shift" /\ ShiftOk(o, e.res) # "" THEN ShiftOk(o, e.res)
            ELSE IF a # "" THEN a ELSE b
    [] OTHER -> "-"

TraceInit == l = 1 /\ judged = 0 /\ row = <<>> /\ val = <<>> /\ w = <<>> /\ lone = {}
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         r2 == IF e.ev = "op" THEN R!Effect(e.o, row) ELSE row
         v2 == IF e.ev = "op" THEN BEffect(e.o, val) ELSE val
         v == Verdict(e, r2, v2)
     IN  /\ IF e.ev = "new"
            THEN row' = [i \in 1..e.rows |-> {}] /\ val' = [i \in 1..e.bsis |-> <<>>] /\ w' = e.w /\ lone' = ToSet(e.lone)
            ELSE row' = r2 /\ val' = v2 /\ UNCHANGED <<w, lone>>
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
