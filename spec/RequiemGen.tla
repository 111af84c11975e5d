----------------------------- MODULE RequiemGen -----------------------------
(***************************************************************************)
(* Random behaviours of RequiemDB, printed as the sequence of steps taken, *)
(* for the driver to repeat with the real code.                            *)
(***************************************************************************)
EXTENDS RequiemDB, Json

CONSTANTS Steps, \* length of a behaviour
          Calm   \* scans and listings only while no save is running

VARIABLE h
gvars == <<vars, h>>

Op(o) == h' = Append(h, o)
Q(q) == [ls |-> SetToSeq1(q.ls), b1 |-> q.b1, b2 |-> q.b2, inst |-> q.inst]
\* drawn anew in each state
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
Quiet == ~Calm \/ (job = None)

GInit == Init /\ h = <<>>

GNext ==
  /\ Len(h) < Steps
  /\ \/ \E ls \in {Some(SUBSET Labels \ {{}})}, b \in {Some(Bs)}, s \in {Some(1..3)} :
          Export(ls, b) /\ Op([o |-> "export", ls |-> SetToSeq1(ls), b |-> b, s |-> s])
     \/ Len(acc) > 0 /\ OneIn(2) /\ BeginSave /\ Op([o |-> "begin"])
     \/ EndSave /\ Op([o |-> "end"])
     \/ \E l \in Labels : Translate(l) /\ Op([o |-> "step"])
     \/ \E b \in Bs : StoreFrame(b) /\ Op([o |-> "step"])
     \/ \E k \in 0..(dcur + 1) : job # None /\ StoreIndex(k) /\ Op([o |-> "step"])
     \/ \E q \in {Some(GoodQueries)} : Quiet /\ BeginScan(q) /\ Op([o |-> "sbegin", q |-> Q(q)])
     \/ \E k \in 0..(dcur + 1) : scan # None /\ ReadShard(k) /\ Op([o |-> "sstep"])
     \/ \E b \in Bs : ReadFrame(b) /\ Op([o |-> "sstep"])
     \/ EndScan /\ Op([o |-> "send"])
     \/ OneIn(5) /\ BeginClose /\ scan = None /\ Op([o |-> "closing"])
     \/ EndClose /\ Op([o |-> "close"])
     \/ Len(acc) > 1 /\ OneIn(IF job = None THEN 15 ELSE 4) /\ Crash /\ Op([o |-> "crash"])
     \/ Open /\ Op([o |-> "open"])

GSpec == GInit /\ [][GNext]_gvars

\* a behaviour is over when nothing more may be added
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
