---------------------------- MODULE RenderCheck -----------------------------
(***************************************************************************)
(* The arithmetic of Render over ranges of numbers.                        *)
(***************************************************************************)
EXTENDS Render
CONSTANTS Nums, Dens, From, To
VARIABLES n, den
Nums_ == From..To
Init == n \in Nums /\ den \in Dens
Next == FALSE /\ UNCHANGED <<n, den>>
Spec == Init /\ [][Next]_<<n, den>>

\* the parts of a span are the span
Whole == \A u \in {"h", "s", "ms", "ns"} :
  LET d == Span(u, n, den)
      p == Parts(d)
  IN  p.m < 60 /\ p.s < 60 /\ p.n < 1000000000 /\ <<p.h * 3600 + p.m * 60 + p.s, p.n>> = d
\* longer is longer
Order == n > 0 => \A u \in {"h", "s", "ms"} : Lt(Span(u, n - 1, den), Span(u, n, den))
Units_ == n % 1000 = 0 => Span("s", n \div 1000, 1) = Span("ms", n, 1)
\* a size shown is at most half a tenth off, and never shown as a thousand and more
Near == n >= 10 => LET p == <<1, 1024, 1048576>>[Power(n) + 1] IN
  /\ Abs(Tenths(n) * p - 10 * n) <= p
  /\ Tenths(n) <= 10240 /\ (n % p = 0 => Tenths(n) = 10 * (n \div p))
\* different numbers look different
Differ == n > 0 => Num(n, den) # Num(n - 1, den) /\ Num(-n, den) # Num(n, den)
=============================================================================
