-------------------------------- MODULE Self --------------------------------
(***************************************************************************)
(* What the exporters of the server's own telemetry make of what the SDK   *)
(* hands to them (P24).                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
Range_(s) == {s[i] : i \in DOMAIN s}

Scalar == [BOOL |-> "bool", INT64 |-> "int", FLOAT64 |-> "dbl", STRING |-> "str"]
Element == [BOOLSLICE |-> "bool", INT64SLICE |-> "int", FLOAT64SLICE |-> "dbl", STRINGSLICE |-> "str"]
Value(a) == IF a.t \in DOMAIN Scalar THEN [k |-> "one", v |-> <<[k |-> Scalar[a.t], v |-> a.v[1]]>>]
            ELSE [k |-> "arr", v |-> Map(LAMBDA x : [k |-> Element[a.t], v |-> x], a.v)]
Attrs(as) == Map(LAMBDA a : [k |-> a.k, v |-> Value(a)], as)

Exemplar(x) == [x EXCEPT !.a = Attrs(@)]
Temporality(k, t) == IF k \in {"gauge", "summary"} THEN ""
                     ELSE IF t = "DeltaTemporality" THEN "AGGREGATION_TEMPORALITY_DELTA" ELSE "AGGREGATION_TEMPORALITY_CUMULATIVE"
Point(k, p) ==
  CASE k \in {"gauge", "sum"} -> [p EXCEPT !.a = Attrs(@), !.ex = Map(Exemplar, @)]
    [] k \in {"hist", "exp"} -> [p EXCEPT !.a = Attrs(@), !.ex = Map(Exemplar, @), !.sum = <<@>>]
    [] k = "summary" -> [p EXCEPT !.a = Attrs(@)]
Metric(m) == [m EXCEPT !.temp = Temporality(m.kind, @), !.pts = Map(LAMBDA p : Point(m.kind, p), @)]
Resource(r) == [res |-> Attrs(r.res), rs |-> r.rs, scopes |-> Map(LAMBDA s : [s EXCEPT !.ms = Map(Metric, @)], r.scopes)]

\* ----- spans
Kind == [unspecified |-> "SPAN_KIND_UNSPECIFIED", internal |-> "SPAN_KIND_INTERNAL", server |-> "SPAN_KIND_SERVER",
         client |-> "SPAN_KIND_CLIENT", producer |-> "SPAN_KIND_PRODUCER", consumer |-> "SPAN_KIND_CONSUMER"]
Code == [Unset |-> "STATUS_CODE_UNSET", Error |-> "STATUS_CODE_ERROR", Ok |-> "STATUS_CODE_OK"]
Span(s) ==
  [name |-> s.name, tid |-> s.tid, sid |-> s.sid, state |-> s.state, pid |-> IF s.pid = "0000000000000000" THEN "" ELSE s.pid,
   kind |-> Kind[s.kind], st |-> s.st, et |-> s.et, a |-> Attrs(s.a), code |-> Code[s.code], msg |-> s.msg,
   ev |-> Map(LAMBDA x : [x EXCEPT !.a = Attrs(@)], s.ev), ln |-> Map(LAMBDA x : [x EXCEPT !.a = Attrs(@)], s.ln), da |-> s.da, de |-> s.de, dl |-> s.dl]

\* distinct values of F over a sequence, in order of appearance
Firsts(F(_), s) == FoldLeft(LAMBDA o, x : IF F(x) \in Range_(o) THEN o ELSE Append(o, F(x)), <<>>, s)
Res(s) == [res |-> s.res, rs |-> s.rs]
Scope(s) == [sc |-> s.sc, sv |-> s.sv, ss |-> s.ss]
\* one document per resource
Spans(in) == {
  LET mine == SelectSeq(in, LAMBDA s : Res(s) = r) IN
  [res |-> Attrs(r.res), rs |-> r.rs,
   scopes |-> Map(LAMBDA c : [sc |-> c.sc, sv |-> c.sv, ss |-> c.ss, spans |-> Map(Span, SelectSeq(mine, LAMBDA s : Scope(s) = c))], Firsts(Scope, mine))]
  : r \in {Res(in[i]) : i \in DOMAIN in}}

\* each span with where it is from
FlatIn(in) == {[res |-> Attrs(in[i].res), rs |-> in[i].rs, sc |-> in[i].sc, sv |-> in[i].sv, ss |-> in[i].ss, span |-> Span(in[i])] : i \in DOMAIN in}
Flat(docs) == FlattenSeq(Map(LAMBDA d : FlattenSeq(Map(LAMBDA c :
                 Map(LAMBDA s : [res |-> d.res, rs |-> d.rs, sc |-> c.sc, sv |-> c.sv, ss |-> c.ss, span |-> s], c.spans), d.scopes)), docs))
=============================================================================
