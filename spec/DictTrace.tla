----------------------------- MODULE DictTrace -----------------------------
(***************************************************************************)
(* Judges what real dictionaries (P09) and the real sequence of sample ids *)
(* (P10) answered.  The history of a data directory, over all restarts and *)
(* crashes, is consistent when every answer fits one growing bijection.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged,
          keyOf,    \* <<dict, number>> -> key, as far as known
          numOf,    \* <<dict, key>> -> number
          running,  \* process -> [d, k, rival]: rival when another insertion of the key overlapped
          bulks,    \* insertions of thousands of keys: [d, kn, nk]
          maybe,    \* <<dict, key>> whose insertion began and was never reported done
          last      \* the highest sample id handed out, <<>> if none
vars == <<l, judged, keyOf, numOf, running, bulks, maybe, last>>

Fresh == bulks = <<>> /\ keyOf = <<>> /\ numOf = <<>> /\ running = <<>> /\ maybe = {} /\ last = <<>>
TraceInit == l = 1 /\ judged = 0 /\ Fresh

\* number n for key k of d fits what is known
Fits(d, k, n) ==
  /\ <<d, k>> \in DOMAIN numOf => numOf[<<d, k>>] = n
  /\ <<d, n>> \in DOMAIN keyOf => keyOf[<<d, n>>] = k
  /\ \A b \in Range(bulks) : b.d = d =>
       /\ k \in DOMAIN b.kn => b.kn[k] = n
       /\ n \in DOMAIN b.nk => b.nk[n] = k

Known(d, k) == <<d, k>> \in DOMAIN numOf \/ \E b \in Range(bulks) : b.d = d /\ k \in DOMAIN b.kn
Numbered(d, n) == <<d, n>> \in DOMAIN keyOf \/ \E b \in Range(bulks) : b.d = d /\ n \in DOMAIN b.nk

\* a lookup that found n for k
FoundOk(d, k, n) ==
  IF ~Fits(d, k, n) THEN "does not agree with an earlier answer"
  ELSE IF ~Known(d, k) /\ <<d, k>> \notin maybe THEN "a key that was never inserted" ELSE ""

Lt(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))

Dict(e) ==
  CASE e.ev = "end" ->
         IF e.err # "" THEN IF running[e.p].rival THEN "" ELSE "insertion failed"
         ELSE IF ~Fits(e.d, e.k, e.n) THEN "the number of an inserted key does not agree with an earlier answer" ELSE ""
    [] e.ev = "find" ->
         IF e.err = "" THEN FoundOk(e.d, e.k, e.n)
         ELSE IF e.err # "unknown" THEN "lookup failed"
         ELSE IF Known(e.d, e.k) THEN "a key is lost" ELSE ""
    [] e.ev = "id" ->
         IF e.err = "" THEN FoundOk(e.d, e.k, e.n)
         ELSE IF e.err # "unknown" THEN "lookup failed"
         ELSE IF Numbered(e.d, e.n) THEN "a number is lost" ELSE ""
    [] e.ev \in {"ids", "again"} ->
         IF e.err # "" THEN "bulk lookup failed"
         ELSE IF Len(e.ks) # Len(e.ns) THEN "bulk lookup lost answers"
         ELSE IF \E i \in DOMAIN e.ks : FoundOk(e.d, e.ks[i], e.ns[i]) # "" THEN "bulk lookup does not agree" ELSE ""
    [] e.ev = "bulk" ->
         IF e.err # "" THEN "insertion failed"
         ELSE IF Cardinality(DOMAIN e.kn) # Cardinality(DOMAIN e.nk) THEN "a number given to two keys"
         ELSE IF \E b \in Range(bulks) : b.d = e.d /\ DOMAIN b.nk \cap DOMAIN e.nk # {} THEN "a number given again"
         ELSE IF \E x \in DOMAIN keyOf : x[1] = e.d /\ x[2] \in DOMAIN e.nk THEN "a number given again" ELSE ""
    [] e.ev = "race" ->
         \* callers that insert the same key at once: conflicts may be reported, but
         \* someone succeeds and all who do are told the same number
         IF \E i \in DOMAIN e.got : e.got[i].err # "" THEN "insertion failed"
         ELSE IF \E i \in DOMAIN e.got : e.got[i].ns = <<>> THEN "nobody could insert a key"
         ELSE IF \E i \in DOMAIN e.got : Cardinality(Range(e.got[i].ns)) # 1 THEN "callers were told different numbers for a key"
         ELSE IF Cardinality({e.got[i].ns[1] : i \in DOMAIN e.got}) # Len(e.got) THEN "a number given to two keys"
         ELSE IF \E i \in DOMAIN e.got : ~Fits(e.d, e.got[i].k, e.got[i].ns[1]) THEN "the number of an inserted key does not agree with an earlier answer" ELSE ""
    [] OTHER -> "-"

Ids(e) ==
  IF e.ev # "take" THEN "-"
  ELSE IF e.err # "" THEN "no sample id"
  ELSE IF ~e.sorted THEN "a caller's ids do not increase"
  ELSE IF \E i \in 1..(Len(e.runs) - 1) : ~Lt(e.runs[i][2], e.runs[i + 1][1]) THEN "ids do not increase, or one was given twice"
  ELSE IF last # <<>> /\ e.runs # <<>> /\ ~Lt(last, e.runs[1][1]) THEN "an id is not above an earlier one" ELSE ""

Verdict(e) ==
  CASE e.ev \in {"died", "hung"} -> "the process " \o e.ev
    [] e.ev \in {"open", "close"} -> IF e.err # "" THEN "cannot " \o e.ev ELSE "-"
    [] OTHER -> IF Prop = "P09" THEN Dict(e) ELSE Ids(e)

Put(d, ks, ns) ==
  LET I == {i \in DOMAIN ks : Fits(d, ks[i], ns[i])} IN
  /\ numOf' = [x \in {<<d, ks[i]>> : i \in I} |-> ns[CHOOSE i \in I : ks[i] = x[2]]] @@ numOf
  /\ keyOf' = [x \in {<<d, ns[i]>> : i \in I} |-> ks[CHOOSE i \in I : ns[i] = x[2]]] @@ keyOf

Step(e) ==
  CASE e.ev = "new" -> keyOf' = <<>> /\ numOf' = <<>> /\ bulks' = <<>> /\ running' = <<>> /\ maybe' = {} /\ last' = <<>>
    [] e.ev = "begin" ->
         LET twin(p) == running[p].d = e.d /\ running[p].k = e.k
             r == \E p \in DOMAIN running : twin(p)
         IN /\ running' = (e.p :> [d |-> e.d, k |-> e.k, rival |-> r]) @@
                          [p \in DOMAIN running |-> [running[p] EXCEPT !.rival = @ \/ twin(p)]]
            /\ maybe' = maybe \cup {<<e.d, e.k>>}
            /\ UNCHANGED <<keyOf, numOf, last, bulks>>
    [] e.ev = "end" ->
         /\ running' = [p \in DOMAIN running \ {e.p} |-> running[p]]
         /\ IF e.err = "" THEN Put(e.d, <<e.k>>, <<e.n>>) ELSE UNCHANGED <<keyOf, numOf>>
         /\ UNCHANGED <<maybe, last, bulks>>
    [] e.ev \in {"find", "id"} ->
         /\ IF e.err = "" THEN Put(e.d, <<e.k>>, <<e.n>>) ELSE UNCHANGED <<keyOf, numOf>>
         /\ UNCHANGED <<running, maybe, last, bulks>>
    [] e.ev = "race" ->
         LET I == {i \in DOMAIN e.got : e.got[i].ns # <<>>} IN
         /\ bulks' = Append(bulks, [d |-> e.d, kn |-> [k \in {e.got[i].k : i \in I} |-> e.got[CHOOSE i \in I : e.got[i].k = k].ns[1]],
                                              nk |-> [n \in {e.got[i].ns[1] : i \in I} |-> e.got[CHOOSE i \in I : e.got[i].ns[1] = n].k]])
         /\ UNCHANGED <<keyOf, numOf, running, maybe, last>>
    [] e.ev = "bulk" -> bulks' = Append(bulks, [d |-> e.d, kn |-> e.kn, nk |-> e.nk]) /\ UNCHANGED <<keyOf, numOf, running, maybe, last>>
    [] e.ev = "take" ->
         /\ last' = IF e.runs # <<>> /\ (last = <<>> \/ Lt(last, e.runs[Len(e.runs)][2])) THEN e.runs[Len(e.runs)][2] ELSE last
         /\ UNCHANGED <<keyOf, numOf, running, maybe, bulks>>
    [] e.ev = "crash" -> running' = <<>> /\ UNCHANGED <<keyOf, numOf, maybe, last, bulks>>
    [] OTHER -> UNCHANGED <<keyOf, numOf, running, maybe, last, bulks>>

TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
