---------------------------- MODULE ColumnsTrace ----------------------------
(***************************************************************************)
(* Judges what builders of columns did (P25).                              *)
(***************************************************************************)
EXTENDS Columns, Json, IOUtils
CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, judged, st
vars == <<l, judged, st>>

\* whether a type can be laid out: it has an end and no maps
RECURSIVE Deep(_, _, _)
Deep(types, name, d) ==
  IF d > 9 THEN FALSE
  ELSE LET t == types[CHOOSE i \in DOMAIN types : types[i].n = name]
       IN \A f \in ToSet(t.fields) : f.k # "map" /\ (f.k = "msg" => Deep(types, f.to, d + 1))

Only(m, fields) == [m EXCEPT !.c = SelectSeq(@, LAMBDA x : x.n \in fields)]
Places(e, rows) == IF e.all THEN rows ELSE Map(LAMBDA p : rows[p], e.places)

Spread(runs) == FlattenSeq(Map(LAMBDA r : [i \in 1..r.times |-> r.m], runs))

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev = "new" -> IF (e.err = "") # Deep(e.types, e.type, 0) THEN "made columns of a type without an end, or none of one that has" ELSE ""
    [] e.ev \in {"gather", "save", "write"} -> IF e.err # "" THEN "failed" ELSE ""
    [] e.ev = "take" -> IF e.err # "" THEN "failed" ELSE IF e.rows # Len(st.pending) THEN "as many rows as messages" ELSE ""
    \* a file of nothing may also have no record to read
    [] e.ev = "read" /\ e.err # "" -> IF st.files[e.file] = <<>> THEN "" ELSE "cannot read"
    [] e.ev = "read" -> IF e.fields # e.want THEN "other columns" ELSE IF e.rows # Len(st.files[e.file]) THEN "as many rows as were written" ELSE ""
    [] e.ev = "proto" -> IF e.err # "" THEN "failed" ELSE IF Spread(e.got) # Places(e, st.recs[e.rec]) THEN "other messages" ELSE ""
    [] e.ev = "cells" -> IF e.got # Map(LAMBDA m : Field(m.c, e.field), st.recs[e.rec]) THEN "other values in the column" ELSE ""
    [] OTHER -> "-"

After(e) ==
  CASE e.ev = "new" -> Fresh
    [] e.ev = "gather" -> Gather(st, [i \in 1..e.times |-> e.m])
    [] e.ev = "take" -> Take(st)
    [] e.ev = "save" -> Save(st)
    [] e.ev = "write" -> Write(st, e.recs)
    [] e.ev = "read" /\ e.err = "" -> Read(st, e.file, LAMBDA m : Only(m, ToSet(e.want)))
    [] OTHER -> st

TraceInit == l = 1 /\ judged = 0 /\ st = Fresh
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
         /\ st' = After(e)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
