------------------------------- MODULE SelfMC -------------------------------
(***************************************************************************)
(* The way of a span: it ends, waits in the queue of the SDK, is exported  *)
(* with others in a batch, grouped one by one under its resource and scope *)
(* as the exporter goes, and what is queued at the shutdown is exported    *)
(* before the exporter ends.                                               *)
(***************************************************************************)
EXTENDS Self
CONSTANTS MaxSpans, Batch,
          Drain,    \* the shutdown waits until the queue is empty
          ByScope   \* scopes are looked up by resource and scope, not by scope alone

VARIABLES ended, queue, docs, phase
vars == <<ended, queue, docs, phase>>

Blank == [tid |-> "1", sid |-> "1", state |-> "", pid |-> "0000000000000000", kind |-> "internal", st |-> <<0, 0>>, et |-> <<0, 0>>, a |-> <<>>,
          code |-> "Unset", msg |-> "", ev |-> <<>>, ln |-> <<>>, da |-> 0, de |-> 0, dl |-> 0, rs |-> "", sv |-> "", ss |-> ""]
Attr(v) == <<[k |-> "a", t |-> "STRING", v |-> <<v>>]>>
New(n, r, s) == [name |-> ToString(n), res |-> Attr(r), sc |-> s] @@ Blank

\* as the exporter does it: docs is a list of documents, where maps a scope to its place
Put(st, s) ==
  LET key == IF ByScope THEN <<Res(s), Scope(s)>> ELSE <<Scope(s)>>
      di == {i \in DOMAIN st.docs : st.docs[i].res = Attrs(s.res) /\ st.docs[i].rs = s.rs}
      d == IF di = {} THEN Len(st.docs) + 1 ELSE CHOOSE i \in di : TRUE
      docs1 == IF di = {} THEN Append(st.docs, [res |-> Attrs(s.res), rs |-> s.rs, scopes |-> <<>>]) ELSE st.docs
  IN IF key \in DOMAIN st.where
     THEN LET w == st.where[key] IN [st EXCEPT !.docs = [docs1 EXCEPT ![w[1]].scopes[w[2]].spans = Append(@, Span(s))]]
     ELSE LET c == Len(docs1[d].scopes) + 1 IN
          [docs |-> [docs1 EXCEPT ![d].scopes = Append(@, [sc |-> s.sc, sv |-> s.sv, ss |-> s.ss, spans |-> <<Span(s)>>])],
           where |-> (key :> <<d, c>>) @@ st.where]
Export(batch) == FoldLeft(Put, [docs |-> <<>>, where |-> <<>>], batch).docs

Init == ended = <<>> /\ queue = <<>> /\ docs = <<>> /\ phase = "up"
End ==
  /\ phase = "up" /\ Len(ended) < MaxSpans
  /\ \E r \in {"r1", "r2"}, s \in {"s1", "s2"} :
       LET x == New(Len(ended) + 1, r, s) IN ended' = Append(ended, x) /\ queue' = Append(queue, x)
  /\ UNCHANGED <<docs, phase>>
Flush(n) == docs' = docs \o Export(SubSeq(queue, 1, n)) /\ queue' = SubSeq(queue, n + 1, Len(queue))
Tick == /\ phase \in {"up", "ending"} /\ queue # <<>>
        /\ Flush(IF Len(queue) < Batch THEN Len(queue) ELSE Batch)
        /\ UNCHANGED <<ended, phase>>
Shut == phase = "up" /\ phase' = "ending" /\ UNCHANGED <<ended, queue, docs>>
Down == /\ phase = "ending" /\ (Drain => queue = <<>>)
        /\ phase' = "down" /\ UNCHANGED <<ended, queue, docs>>
Next == End \/ Tick \/ Shut \/ Down
Spec == Init /\ [][Next]_vars /\ WF_vars(Tick \/ Shut \/ Down)

\* grouping loses nothing and mixes nothing
Grouped == Len(Export(queue)) = Cardinality(Spans(queue)) /\ Range_(Export(queue)) = Spans(queue)
\* whatever was exported was recorded, once
Once == LET g == Flat(docs) IN Cardinality(Range_(g)) = Len(g) /\ Range_(g) \subseteq FlatIn(ended)
Complete == phase = "down" => Len(Flat(docs)) = Len(ended) /\ Range_(Flat(docs)) = FlatIn(ended)
Ends == <>(phase = "down")
=============================================================================
