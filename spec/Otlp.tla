------------------------------- MODULE Otlp -------------------------------
(***************************************************************************)
(* Telemetry documents as requiemdb sees them.  All three signals have one *)
(* shape:                                                                  *)
(*                                                                         *)
(*   doc      [sig, r: Seq(resource)]                                      *)
(*   resource [k, schema, a, dig, s: Seq(scope)]                           *)
(*   scope    [k, schema, name, ver, a, dig, g: Seq(group)]                *)
(*   group    [k, name, recs: Seq(record)]                                 *)
(*   record   [u, t, a, name, lvl, tid, sid, pid, dig]                     *)
(*                                                                         *)
(* A group is a metric; the spans or log records of a scope are one group. *)
(* k is the identity that merging goes by, a the attributes with string    *)
(* values as pairs <<key, value>>, dig the full content, u a unique        *)
(* number, t an instant or <<>> when unknown.                              *)
(***************************************************************************)
EXTENDS Cal, FiniteSets, SequencesExt, Functions

Metrics == 1
Traces  == 2
Logs    == 3

(* Label kinds, numbered as in the protocol *)
ResourceSchema == 13
ResourceAttr   == 1
ScopeSchema    == 2
ScopeName      == 3
ScopeVersion   == 4
ScopeAttr      == 5
Name           == 6
Attr           == 7
TraceId        == 8
SpanId         == 9
ParentId       == 10
Level          == 11


(* A flat view of a document: one entry for each record with its owners *)
Flat(doc) ==
  LET rs == doc.r IN
  UNION { UNION { UNION {
    { [i |-> <<i, j, k, l>>, rec |-> rs[i].s[j].g[k].recs[l], res |-> rs[i], sc |-> rs[i].s[j], g |-> rs[i].s[j].g[k]]
      : l \in DOMAIN rs[i].s[j].g[k].recs }
      : k \in DOMAIN rs[i].s[j].g }
      : j \in DOMAIN rs[i].s }
      : i \in DOMAIN rs }

Scopes(doc) == UNION { Range(doc.r[i].s) : i \in DOMAIN doc.r }
Groups(doc) == UNION { Range(s.g) : s \in Scopes(doc) }
Records(doc) == UNION { Range(g.recs) : g \in Groups(doc) }

(***************************************************************************)
(* Labels: what a sample can be found by.  <<signal, kind, key, value>>;   *)
(* a single-valued property has its value as the key.                      *)
(***************************************************************************)
AttrLabels(sig, kind, a) == { <<sig, kind, p[1], p[2]>> : p \in {q \in Range(a) : q[2] # ""} }
BaseLabel(sig, kind, v)  == IF v = "" THEN {} ELSE { <<sig, kind, v, "">> }

RecordLabels(sig, x) ==
  AttrLabels(sig, Attr, x.a) \cup
  CASE sig = Metrics -> {}
    [] sig = Traces  -> BaseLabel(sig, Name, x.name) \cup BaseLabel(sig, TraceId, x.tid)
                          \cup BaseLabel(sig, SpanId, x.sid) \cup BaseLabel(sig, ParentId, x.pid)
    [] sig = Logs    -> BaseLabel(sig, Level, x.lvl) \cup BaseLabel(sig, TraceId, x.tid)
                          \cup BaseLabel(sig, SpanId, x.sid)
    [] OTHER         -> {}

ScopeLabels(sig, s) ==
  BaseLabel(sig, ScopeSchema, s.schema) \cup BaseLabel(sig, ScopeName, s.name)
    \cup BaseLabel(sig, ScopeVersion, s.ver) \cup AttrLabels(sig, ScopeAttr, s.a)

\* every sample carries the label of its signal
SignalLabel(sig) == <<sig, 0, "", "">>

Labels(doc) ==
  LET sig == doc.sig IN
  {SignalLabel(sig)}
  \cup UNION { BaseLabel(sig, ResourceSchema, r.schema) \cup AttrLabels(sig, ResourceAttr, r.a) : r \in Range(doc.r) }
  \cup UNION { ScopeLabels(sig, s) : s \in Scopes(doc) }
  \* metrics are found by their name, even an empty one
  \cup (IF sig = Metrics THEN { <<sig, Name, g.name, "">> : g \in Groups(doc) } ELSE {})
  \cup UNION { RecordLabels(sig, x) : x \in Records(doc) }

\* Label asked for by a filter [b, p, k, v] of a scan of signal sig
FilterLabel(sig, f) == IF f.b THEN <<sig, f.p, f.v, "">> ELSE <<sig, f.p, f.k, f.v>>

(* An attribute filter without value asks for nothing that is indexed.     *)
MatchesFilter(labels, sig, f) ==
  /\ f.b \/ f.v # ""
  /\ FilterLabel(sig, f) \in labels

MatchesAll(labels, sig, fs) ==
  IF fs = <<>> THEN SignalLabel(sig) \in labels
  ELSE \A i \in DOMAIN fs : MatchesFilter(labels, sig, fs[i])

(* Printed form of a label, as listed to users.  = ends the key, so it is  *)
(* escaped within.                                                         *)
RECURSIVE Escape(_)
Escape(s) ==
  IF s = "" THEN ""
  ELSE LET c == SubSeq(s, 1, 1)
           r == Escape(SubSeq(s, 2, Len(s)))
       IN  (IF c = "\\" THEN "\\\\" ELSE IF c = "=" THEN "\\=" ELSE c) \o r

LabelText(l) ==
  ToString(l[1]) \o ":" \o ToString(l[2]) \o ":" \o Escape(l[3]) \o (IF l[4] = "" THEN "" ELSE "=" \o l[4])

(* Earliest known timestamp.  A sample without any is at the unix epoch.   *)
EarliestOf(doc) ==
  LET known == {x.t : x \in {y \in Records(doc) : y.t # <<>>}} IN
  IF known = {} THEN UnixZero ELSE CHOOSE t \in known : \A o \in known : Le(t, o)

(***************************************************************************)
(* Merging documents: resources by identity, then scopes, then groups, in  *)
(* order of first appearance; records are appended in order.               *)
(***************************************************************************)
IndexOfK(seq, k) == LET c == {i \in DOMAIN seq : seq[i].k = k} IN
                    IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j

MergeGroup(gs, g) ==
  LET i == IndexOfK(gs, g.k) IN
  IF i = 0 THEN Append(gs, g)
  ELSE [gs EXCEPT ![i].recs = @ \o g.recs]

MergeScope(ss, s) ==
  LET i == IndexOfK(ss, s.k) IN
  IF i = 0 THEN Append(ss, s)
  ELSE [ss EXCEPT ![i].g = FoldLeft(MergeGroup, @, s.g)]

MergeRes(rs, r) ==
  LET i == IndexOfK(rs, r.k) IN
  IF i = 0 THEN Append(rs, r)
  ELSE [rs EXCEPT ![i].s = FoldLeft(MergeScope, @, r.s)]

\* docs: non-empty sequence of documents of one signal
Merge(docs) ==
  IF Len(docs) = 1 THEN docs[1]
  ELSE [sig |-> docs[1].sig,
        r   |-> FoldLeft(LAMBDA acc, d : FoldLeft(MergeRes, acc, d.r), <<>>, docs)]

\* No identity is repeated within its owner
UniqueK(seq) == \A i, j \in DOMAIN seq : seq[i].k = seq[j].k => i = j
Tidy(doc) ==
  /\ UniqueK(doc.r)
  /\ \A r \in Range(doc.r) : UniqueK(r.s) /\ \A s \in Range(r.s) : UniqueK(s.g)

(***************************************************************************)
(* Owners of a record: what it must be found under, unchanged.             *)
(***************************************************************************)
Owned(doc) ==
  { [u |-> e.rec.u, dig |-> e.rec.dig, res |-> e.res.k, resdig |-> e.res.dig,
     sc |-> e.sc.k, scdig |-> e.sc.dig, g |-> e.g.k] : e \in Flat(doc) }

Uids(doc) == { e.rec.u : e \in Flat(doc) }
NRecords(doc) == Cardinality(Flat(doc))

\* Structure without the content of records: what order and ownership look like
Shape(doc) ==
  [i \in DOMAIN doc.r |-> [k |-> doc.r[i].k, s |->
    [j \in DOMAIN doc.r[i].s |-> [k |-> doc.r[i].s[j].k, g |->
      [m \in DOMAIN doc.r[i].s[j].g |-> [k |-> doc.r[i].s[j].g[m].k, recs |->
        [n \in DOMAIN doc.r[i].s[j].g[m].recs |-> doc.r[i].s[j].g[m].recs[n].u]]]]]]]

(***************************************************************************)
(* Trimming: the records a script gets to see.                             *)
(***************************************************************************)
BaseVals(fs, p) == { fs[i].v : i \in {j \in DOMAIN fs : fs[j].b /\ fs[j].p = p} }
AttrPairs(fs, p) == { <<fs[i].k, fs[i].v>> : i \in {j \in DOMAIN fs : ~fs[j].b /\ fs[j].p = p} }
OneOf(fs, p, v) == BaseVals(fs, p) = {} \/ v \in BaseVals(fs, p)
HasAll(fs, p, a) == \A x \in AttrPairs(fs, p) : \E i \in DOMAIN a : a[i] = x

InRange(t, start, end) ==
  LET x == IF t = <<>> THEN UnixZero ELSE t IN Le(start, x) /\ Lt(x, end)

KeepRes(fs, r)   == OneOf(fs, ResourceSchema, r.schema) /\ HasAll(fs, ResourceAttr, r.a)
KeepScope(fs, s) == /\ OneOf(fs, ScopeSchema, s.schema) /\ OneOf(fs, ScopeName, s.name)
                    /\ OneOf(fs, ScopeVersion, s.ver) /\ HasAll(fs, ScopeAttr, s.a)
KeepRec(sig, fs, x) ==
  /\ HasAll(fs, Attr, x.a)
  /\ sig = Traces => /\ OneOf(fs, Name, x.name) /\ OneOf(fs, TraceId, x.tid)
                     /\ OneOf(fs, SpanId, x.sid) /\ OneOf(fs, ParentId, x.pid)
  /\ sig = Logs   => /\ OneOf(fs, Level, x.lvl) /\ OneOf(fs, TraceId, x.tid) /\ OneOf(fs, SpanId, x.sid)

TrimGroup(sig, fs, start, end, g) ==
  [g EXCEPT !.recs = SelectSeq(@, LAMBDA x : InRange(x.t, start, end) /\ KeepRec(sig, fs, x))]

TrimScope(sig, fs, start, end, s) ==
  LET gs == SelectSeq(s.g, LAMBDA g : sig = Metrics => OneOf(fs, Name, g.name))
      ts == [i \in DOMAIN gs |-> TrimGroup(sig, fs, start, end, gs[i])]
  IN  [s EXCEPT !.g = SelectSeq(ts, LAMBDA g : g.recs # <<>>)]

TrimRes(sig, fs, start, end, r) ==
  LET ss == SelectSeq(r.s, LAMBDA s : KeepScope(fs, s))
      ts == [i \in DOMAIN ss |-> TrimScope(sig, fs, start, end, ss[i])]
  IN  [r EXCEPT !.s = SelectSeq(ts, LAMBDA s : s.g # <<>>)]

Trim(doc, fs, start, end) ==
  LET rs == SelectSeq(doc.r, LAMBDA r : KeepRes(fs, r))
      ts == [i \in DOMAIN rs |-> TrimRes(doc.sig, fs, start, end, rs[i])]
  IN  [doc EXCEPT !.r = SelectSeq(ts, LAMBDA r : r.s # <<>>)]

(***************************************************************************)
(* Scans.  A query is [sig, f, range, start, end, now, off, limit, rev].   *)
(***************************************************************************)
DefaultWindow == 900 \* seconds

Window(q) ==
  IF q.range THEN <<q.start, q.end>>
  ELSE LET t == AddS(q.now, -q.off) IN <<AddS(t, -DefaultWindow), t>>
=============================================================================
