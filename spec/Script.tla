------------------------------ MODULE Script ------------------------------
(***************************************************************************)
(* What a script builds: scans described call by call, and the requests    *)
(* issued by them.  A request is                                           *)
(*   [sig, f, limit, rev, now, off, range]                                 *)
(* with now, off and range empty sequences while they are not set.         *)
(***************************************************************************)
EXTENDS Cal

Sub(t, d) ==   \* t - d, d = <<s, n>> with 0 <= n < 10^9
  IF t[2] >= d[2] THEN <<t[1] - d[1], t[2] - d[2]>> ELSE <<t[1] - d[1] - 1, t[2] + 1000000000 - d[2]>>

Blank(sig) == [sig |-> sig, f |-> <<>>, limit |-> 0, rev |-> FALSE, now |-> <<>>, off |-> <<>>, range |-> <<>>]

\* the evaluation time minus the offset
Eval(r, clock) ==
  LET t == IF r.now = <<>> THEN clock ELSE r.now IN
  IF r.off = <<>> THEN t ELSE Sub(t, r.off)

DayStart(t)   == <<Day(t) * 86400, 0>>
\* weeks start on Sunday; 2000-01-02 was one
WeekStart(t)  == <<(Day(t) - ((Day(t) - 1) % 7)) * 86400, 0>>
MonthStart(t) == LET c == Civil(Day(t)) IN <<DaysOf(c.y, c.m, 1) * 86400, 0>>
YearStart(t)  == LET c == Civil(Day(t)) IN <<DaysOf(c.y, 1, 1) * 86400, 0>>

\* numbers of properties are those of the protocol
BaseProps == [resourceSchema |-> 13, scopeSchema |-> 2, scopeName |-> 3, scopeVersion |-> 4, name |-> 6,
              traceId |-> 8, spanId |-> 9, parentSpanId |-> 10, logLevel |-> 11]
AttrProps == [resourceAttr |-> 1, scopeAttr |-> 5, attr |-> 7]
Ranges    == {"today", "thisWeek", "thisMonth", "thisYear", "ago", "latest", "timeRange"}

\* the request after one more call
Apply(r, c, clock) ==
  LET t == Eval(r, clock) IN
  CASE c.m \in DOMAIN BaseProps -> [r EXCEPT !.f = Append(@, [b |-> TRUE, p |-> BaseProps[c.m], k |-> "", v |-> c.v])]
    [] c.m \in DOMAIN AttrProps -> [r EXCEPT !.f = Append(@, [b |-> FALSE, p |-> AttrProps[c.m], k |-> c.k, v |-> c.v])]
    [] c.m = "limit"     -> [r EXCEPT !.limit = c.n]
    [] c.m = "reverse"   -> [r EXCEPT !.rev = TRUE]
    [] c.m = "now"       -> [r EXCEPT !.now = c.t]
    [] c.m = "offset"    -> [r EXCEPT !.off = c.d]
    [] c.m = "timeRange" -> [r EXCEPT !.range = <<c.t, c.t2>>]
    [] c.m = "today"     -> [r EXCEPT !.range = <<DayStart(t), t>>]
    [] c.m = "thisWeek"  -> [r EXCEPT !.range = <<WeekStart(t), t>>]
    [] c.m = "thisMonth" -> [r EXCEPT !.range = <<MonthStart(t), t>>]
    [] c.m = "thisYear"  -> [r EXCEPT !.range = <<YearStart(t), t>>]
    [] c.m = "ago"       -> [r EXCEPT !.range = <<Sub(t, c.d), t>>]
    [] c.m = "latest"    -> [r EXCEPT !.range = <<Sub(t, <<900, 0>>), t>>]

(* A script is a sequence of statements on numbered scan objects:           *)
(*   create (sig, name), call, bad (a call that must fail), query.          *)
(* Exec gives the requests it issues, in order, and whether it completes.   *)
RECURSIVE ExecFrom(_, _, _, _, _)
ExecFrom(stmts, i, objs, issued, clock) ==
  IF i > Len(stmts) THEN [issued |-> issued, ok |-> TRUE]
  ELSE LET s == stmts[i] IN
  CASE s.s = "create" ->
         LET b == Blank(s.sig)
             r == IF s.v = "" THEN b ELSE Apply(b, [m |-> "name", v |-> s.v], clock)
         IN ExecFrom(stmts, i + 1, (s.i :> r) @@ objs, issued, clock)
    [] s.s = "call"  -> ExecFrom(stmts, i + 1, [objs EXCEPT ![s.i] = Apply(@, s.c, clock)], issued, clock)
    [] s.s = "query" -> ExecFrom(stmts, i + 1, objs, Append(issued, objs[s.i]), clock)
    [] s.s = "bad"   -> [issued |-> issued, ok |-> FALSE]

Exec(stmts, clock) == ExecFrom(stmts, 1, <<>>, <<>>, clock)
=============================================================================
