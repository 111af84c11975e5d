------------------------------- MODULE Render -------------------------------
(***************************************************************************)
(* What rendering a metrics document shows (P22): its lines without blanks.*)
(* Texts come as sequences of characters, numbers as n / den with den a    *)
(* power of two, or n * 10^x, or n * 1024^x where they are sizes.          *)
(***************************************************************************)
EXTENDS Cal, SequencesExt, FiniteSets

Abs(n) == IF n < 0 THEN -n ELSE n
Cat(ss) == FoldLeft(LAMBDA a, b : a \o b, "", ss)
Join(ss, sep) == IF ss = <<>> THEN "" ELSE FoldLeft(LAMBDA a, b : a \o sep \o b, ss[1], Tail(ss))
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
Flat(ss) == FoldLeft(LAMBDA a, b : a \o b, <<>>, ss)

\* ----- texts
Blank == {" ", "\t", "\n"}
Plain(cs) == Cat(SelectSeq(cs, LAMBDA c : c \notin Blank))
Esc(c) == CASE c = "\"" -> "\\\"" [] c = "\\" -> "\\\\" [] c = "\t" -> "\\t" [] c = "\n" -> "\\n" [] c = " " -> "" [] OTHER -> c
Quoted(cs) == "\"" \o Cat(Map(Esc, cs)) \o "\""

\* ----- numbers
Digit(i) == ToString(i)
Pad2(i) == IF i < 10 THEN "0" \o ToString(i) ELSE ToString(i)
Sign(n) == IF n < 0 THEN "-" ELSE ""
\* quarters as decimals
Frac(r, den) == LET h == (r * 100) \div den IN IF h = 0 THEN <<>> ELSE IF h % 10 = 0 THEN <<h \div 10>> ELSE <<h \div 10, h % 10>>
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<n>> ELSE Append(DigitsOf(n \div 10), n % 10)
RECURSIVE Trim0(_)
Trim0(ds) == IF Len(ds) > 1 /\ ds[Len(ds)] = 0 THEN Trim0(SubSeq(ds, 1, Len(ds) - 1)) ELSE ds
Text(ds) == Cat(Map(Digit, ds))

Zeros(x) == [i \in 1..x |-> 0]
\* the shortest text of n / den, den in 1, 2, 4, or of n * 10^x; from a million on with an exponent
NumX(n, den, x) ==
  LET a == Abs(n)
      int == IF a = 0 THEN <<0>> ELSE DigitsOf(a \div den) \o Zeros(x)
      frac == Frac(a % den, den)
      e == Len(int) - 1
      m == IF frac = <<>> THEN Trim0(int) ELSE int \o frac
  IN  Sign(n) \o (IF e < 6 THEN Text(int) \o (IF frac = <<>> THEN "" ELSE "." \o Text(frac))
                  ELSE Digit(m[1]) \o (IF Len(m) = 1 THEN "" ELSE "." \o Text(Tail(m))) \o "e+" \o Pad2(e))
Num(n, den) == NumX(n, den, 0)

\* ----- durations: <<seconds, nanoseconds>> of |n / den| units
Span(unit, n, den) ==
  LET a == Abs(n) IN
  CASE unit = "h" -> <<a * (3600 \div den), 0>>
    [] unit = "s" -> <<a \div den, (a % den) * (1000000000 \div den)>>
    [] unit = "ms" -> LET us == a * (1000 \div den) IN <<us \div 1000000, (us % 1000000) * 1000>>
    [] unit = "ns" -> <<(a \div den) \div 1000000000, (a \div den) % 1000000000>>

\* r / 10^k without zeros at the end, and with its point
RECURSIVE Point(_, _)
Point(r, k) == IF k = 0 \/ r = 0 THEN "" ELSE
  LET ds == [i \in 1..k |-> (r \div (10 ^ (k - i))) % 10] IN "." \o Text(LET F[j \in 0..k] == IF j = 0 \/ ds[j] # 0 THEN SubSeq(ds, 1, j) ELSE F[j - 1] IN F[k])

\* parts of a span
Parts(d) == [h |-> d[1] \div 3600, m |-> (d[1] \div 60) % 60, s |-> d[1] % 60, n |-> d[2]]
SpanText(d) ==
  LET p == Parts(d) IN
  IF d[1] = 0 THEN
    IF p.n = 0 THEN "0s"
    ELSE IF p.n < 1000 THEN ToString(p.n) \o "ns"
    ELSE IF p.n < 1000000 THEN ToString(p.n \div 1000) \o Point(p.n % 1000, 3) \o "us"
    ELSE ToString(p.n \div 1000000) \o Point(p.n % 1000000, 6) \o "ms"
  ELSE (IF p.h > 0 THEN ToString(p.h) \o "h" ELSE "") \o (IF d[1] >= 60 THEN ToString(p.m) \o "m" ELSE "")
       \o ToString(p.s) \o Point(p.n, 9) \o "s"
\* seconds may come as milliseconds and nanoseconds
SpanX(unit, n, den, x) == IF (unit = "ms" /\ x = 3) \/ (unit = "ns" /\ x = 9) THEN <<Abs(n), 0>>
                          ELSE IF unit = "ns" /\ x = 6 THEN Span("ms", n, 1) ELSE Span(unit, n, den)
Duration(unit, n, den, x) == LET d == SpanX(unit, n, den, x) IN (IF n < 0 /\ d # <<0, 0>> THEN "-" ELSE "") \o SpanText(d)

\* ----- sizes: s bytes, s below 2^30
Power(s) == IF s < 1024 THEN 0 ELSE IF s < 1048576 THEN 1 ELSE 2
\* tenths of the unit, halves up
Tenths(s) == LET e == Power(s)
                 p == IF e = 0 THEN 1 ELSE IF e = 1 THEN 1024 ELSE 1048576
             IN  10 * (s \div p) + (20 * (s % p) + p) \div (2 * p)
\* tenths to whole ones, halves to even
Even(t) == LET q == t \div 10
               r == t % 10
           IN  IF r > 5 \/ (r = 5 /\ q % 2 = 1) THEN q + 1 ELSE q
Size(s, x) == IF s = 0 \/ (s < 10 /\ x = 0) THEN ToString(s) \o "B"
           ELSE LET t == Tenths(s)
                    u == <<"B", "KiB", "MiB", "GiB", "TiB", "PiB">>[Power(s) + 1 + x]
                IN  (IF t < 100 THEN ToString(t \div 10) \o "." \o ToString(t % 10) ELSE ToString(Even(t))) \o u

Value(unit, n, den, x) ==
  CASE unit \in {"h", "s", "ms", "ns"} -> Duration(unit, n, den, x)
    [] unit = "By" -> Size(n \div den, x)
    [] OTHER -> NumX(n, den, x)

\* ----- attributes
Hex(i) == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>[i + 1]
RECURSIVE Attrs(_)
RECURSIVE AnyText(_)
AnyText(v) ==
  CASE v.k = "str" -> Quoted(v.s)
    [] v.k = "bool" -> IF v.b THEN "true" ELSE "false"
    [] v.k = "int" -> ToString(v.n)
    [] v.k = "big" -> v.t
    [] v.k = "dbl" -> Num(v.n, v.den)
    [] v.k = "bytes" -> Cat([i \in DOMAIN v.x |-> Hex(v.x[i] \div 16) \o Hex(v.x[i] % 16)])
    [] v.k = "arr" -> "[" \o Join(Map(AnyText, v.a), ",") \o "]"
    [] v.k = "kv" -> Attrs(v.a)
    [] OTHER -> ""
Attrs(as) == "{" \o Join([i \in DOMAIN as |-> Plain(as[i].key) \o "=" \o AnyText(as[i].v)], ",") \o "}"

\* ----- documents
Time(t) == LET c == Civil(Day(t))
               s == t[1] % 86400
           IN  ToString(c.y) \o "-" \o Pad2(c.m) \o "-" \o Pad2(c.d) \o Pad2(s \div 3600) \o ":" \o Pad2((s \div 60) % 60) \o ":" \o Pad2(s % 60)

Header == <<"TIMESTAMPVALUEATTRIBUTES">>
Metric(m, o) ==
  LET unit == IF m.unit = <<>> /\ m.nanos THEN <<"n", "s">> ELSE m.unit
      u == Cat(unit)
  IN  <<Plain(m.name)>>
      \o (IF o.metrics THEN <<"description" \o Plain(m.desc), "unit" \o Plain(unit)>> ELSE <<>>)
      \o (IF m.kind \in {"gauge", "sum"}
          THEN Header \o [i \in DOMAIN m.pts |-> Time(m.pts[i].t) \o Value(u, m.pts[i].n, m.pts[i].den, m.pts[i].x) \o Attrs(m.pts[i].a)]
          ELSE <<>>)
Scope(s, o) ==
  <<"-->" \o Plain(s.name)>>
  \o (IF o.scope THEN <<"scope.name" \o Plain(s.name), "scope.schema" \o Plain(s.schema), "scope.version" \o Plain(s.ver), "scope.attributes" \o Attrs(s.a)>> ELSE <<>>)
  \o Flat([i \in DOMAIN s.ms |-> Metric(s.ms[i], o)])
Resource(r, o) ==
  <<"===" \o Plain(r.schema)>>
  \o (IF o.resource THEN <<"resource.schema" \o Plain(r.schema), "resource.attributes" \o Attrs(r.a)>> ELSE <<>>)
  \o Flat([i \in DOMAIN r.ss |-> Scope(r.ss[i], o)])
Lines(doc, o) == SelectSeq(Flat([i \in DOMAIN doc |-> Resource(doc[i], o)]), LAMBDA x : x # "")
=============================================================================
