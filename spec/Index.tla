------------------------------- MODULE Index -------------------------------
(***************************************************************************)
(* The index: batches of samples become fragments of entries (P20), which  *)
(* are written shard by shard and looked up by label and bucket (P15).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Batches, Labels, Width, Buckets, MaxSamples, MaxBuilds,
          Carry,        \* a batch keeps its entries after it was built
          SkipMissing   \* a lookup ignores labels of shards that do not exist

Shard(k) == (k - 1) \div Width
Shards == {Shard(k) : k \in Labels}
Low(k) == (k - 1) % Width

VARIABLES pend,    \* batch -> samples added since it was last built
          kept,    \* batch -> entries a careless batch holds on to
          frags,   \* fragments built, sets of entries
          meant,   \* the samples each fragment was built from
          todo,    \* <<fragment, shard>> that are not written yet
          disk,    \* entries written
          next     \* next sample id
vars == <<pend, kept, frags, meant, todo, disk, next>>

Init ==
  /\ pend = [b \in Batches |-> {}] /\ kept = [b \in Batches |-> {}]
  /\ frags = <<>> /\ meant = <<>> /\ todo = {} /\ disk = {} /\ next = 1

\* one entry for each label of a sample, in the bucket of the sample
Entries(S) == UNION {{[shard |-> Shard(k), bucket |-> s.t, id |-> s.id, low |-> Low(k)] : k \in s.ls} : s \in S}

Add(b) ==
  /\ next <= MaxSamples
  /\ \E t \in Buckets, ls \in SUBSET Labels : pend' = [pend EXCEPT ![b] = @ \cup {[id |-> next, t |-> t, ls |-> ls]}]
  /\ next' = next + 1
  /\ UNCHANGED <<kept, frags, meant, todo, disk>>

Build(b) ==
  /\ Len(frags) < MaxBuilds
  /\ LET E == Entries(pend[b]) \cup (IF Carry THEN kept[b] ELSE {}) IN
     /\ frags' = Append(frags, E)
     /\ kept' = [kept EXCEPT ![b] = E]
     /\ todo' = todo \cup {<<Len(frags) + 1, e.shard>> : e \in E}
  /\ meant' = Append(meant, pend[b])
  /\ pend' = [pend EXCEPT ![b] = {}]
  /\ UNCHANGED <<disk, next>>

Reset(b) == pend[b] # {} /\ pend' = [pend EXCEPT ![b] = {}] /\ kept' = [kept EXCEPT ![b] = {}] /\ UNCHANGED <<frags, meant, todo, disk, next>>

Write == \E w \in todo :
  /\ disk' = disk \cup {e \in frags[w[1]] : e.shard = w[2]}
  /\ todo' = todo \ {w}
  /\ UNCHANGED <<pend, kept, frags, meant, next>>

Next == Write \/ \E b \in Batches : Add(b) \/ Build(b) \/ Reset(b)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* A lookup takes the labels of each shard together, in each bucket, and   *)
(* intersects what the shards found.                                       *)
Exists(sh) == \E e \in disk : e.shard = sh
Has(sh, v, id, ks) == \A k \in ks : [shard |-> sh, bucket |-> v, id |-> id, low |-> Low(k)] \in disk
InShard(sh, vs, ks) == {id \in 1..MaxSamples : \E v \in vs : Has(sh, v, id, ks)}
Lookup(vs, ls) ==
  LET need == {Shard(k) : k \in ls}
      S == IF SkipMissing THEN {sh \in need : Exists(sh)} ELSE need
  IN  IF S = {} THEN {}
      ELSE {id \in 1..MaxSamples : \A sh \in S : id \in InShard(sh, vs, {k \in ls : Shard(k) = sh})}

\* what it should find: samples with all labels in a bucket, as far as written
Meant(vs, ls) == UNION {{s.id : s \in {x \in meant[f] : ls \subseteq x.ls /\ x.t \in vs /\ \A k \in ls : <<f, Shard(k)>> \notin todo}} : f \in DOMAIN meant}

Exact == \A ls \in SUBSET Labels \ {{}}, vs \in SUBSET Buckets : Lookup(vs, ls) = Meant(vs, ls)
Own == \A f \in DOMAIN frags : frags[f] = Entries(meant[f])
Grows == [][\A ls \in SUBSET Labels \ {{}} : Lookup(Buckets, ls) \subseteq Lookup(Buckets, ls)']_vars
=============================================================================
