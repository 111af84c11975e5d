----------------------------- MODULE StoreOps -----------------------------
(***************************************************************************)
(* What the store answers, as functions of the sequence of samples saved   *)
(* so far.  A sample is [id, sig, labels, t, doc] where labels and t are   *)
(* Labels(doc) and EarliestOf(doc).                                        *)
(***************************************************************************)
EXTENDS Otlp

MkSample(id, doc) == [id |-> id, sig |-> doc.sig, labels |-> Labels(doc), t |-> EarliestOf(doc), doc |-> doc]

\* Carries the labels asked for
Carries(s, q) == s.sig = q.sig /\ MatchesAll(s.labels, q.sig, q.f)

\* Found by the scan: in a bucket its window touches
Found(s, q) == Carries(s, q) /\ LET w == Window(q) IN Touches(s.t, w[1], w[2])

\* Must be found: its earliest timestamp is in the range itself
Within(s, q) == Carries(s, q) /\ LET w == Window(q) IN Le(w[1], s.t) /\ Lt(s.t, w[2])

SelFound(saved, q) == SelectSeq(saved, LAMBDA s : Found(s, q))

\* n first, or last, elements
Limited(seq, n, rev) ==
  IF n = 0 \/ Len(seq) <= n THEN seq
  ELSE IF rev THEN SubSeq(seq, Len(seq) - n + 1, Len(seq))
  ELSE SubSeq(seq, 1, n)

\* time buckets first, acceptance second
InOrder(seq, q) ==
  LET w  == Window(q)
      u  == Granularity(w[1], w[2])
      ks == [i \in DOMAIN seq |-> [b |-> Bucket(u, seq[i].t)[2], p |-> i]]
      o  == SortSeq(ks, LAMBDA a, b : a.b < b.b \/ (a.b = b.b /\ a.p < b.p))
  IN  [i \in DOMAIN seq |-> seq[o[i].p]]

Docs(seq) == [i \in DOMAIN seq |-> seq[i].doc]

Empty(sig) == [sig |-> sig, r |-> <<>>]

\* The samples a scan uses, in order.  saved is in order of acceptance.
Selected(saved, q) ==
  LET m == SelFound(saved, q) IN
  IF ~q.range THEN IF m = <<>> THEN <<>> ELSE <<m[Len(m)]>>
  ELSE LET o == InOrder(Limited(m, q.limit, q.rev), q) IN
       IF q.rev THEN Reverse(o) ELSE o

Answer(saved, q) ==
  LET s == Selected(saved, q) IN
  IF s = <<>> THEN Empty(q.sig) ELSE Merge(Docs(s))

\* Labels listed for sample id in the bucket named view
Listing(saved, id, view) ==
  UNION { { LabelText(l) : l \in s.labels }
          : s \in { x \in Range(saved) : x.id = id /\ \E b \in Buckets(x.t) : BucketName(b) = view } }
=============================================================================
