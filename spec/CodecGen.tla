------------------------------ MODULE CodecGen ------------------------------
(* Random histories of Codec, with what the model leaves out drawn at random. *)
EXTENDS Codec, Json

CONSTANT Steps
VARIABLES h
gvars == <<vars, h>>
Some(S) == RandomElement({x \in S : Len(h) >= 0})
OneIn(k) == Some(1..k) = 1
Log(o) == h' = Append(h, o)
\* how much, and what the bytes are like
Size == Some({0, 1, 2, 100, 4095, 4096, 4097, 9000, 65536, 131072, 200000, 900000})
Like == Some({"zero", "noise", "text", "loop"})

GInit == Init /\ h = <<>>
GNext ==
  /\ Len(h) < Steps
  /\ \/ \E s \in Streams :
          \/ OpenEnc(s) /\ Log([o |-> "enc", s |-> s, fail |-> IF OneIn(6) THEN Some({0, 1, 10, 500, 20000}) ELSE -1])
          \/ \E i \in 1..2 : Write(s) /\ Log([o |-> "write", s |-> s, n |-> Size, like |-> Like, chunk |-> Some({1, 7, 4096, 1000000})])
          \/ Finish(s) /\ Log([o |-> "finish", s |-> s])
          \/ \E of \in Streams \ {s} : OpenDec(s, of) /\ Log([o |-> "dec", s |-> s, of |-> of,
                mode |-> IF OneIn(2) THEN "ok" ELSE Some({"cut", "flip", "fault", "junk"}), x |-> Some(0..1000), chunk |-> Some({1, 100, 4096, 1000000})])
          \/ \E i \in 1..2 : Read(s) /\ Log([o |-> "read", s |-> s, n |-> Size + 1, all |-> OneIn(3), to |-> OneIn(4)])
          \/ OneIn(4) /\ Abandon(s) /\ Log([o |-> "abandon", s |-> s])
          \/ Forget(s) /\ Log([o |-> "forget", s |-> s])
          \/ OneIn(4) /\ ended[s] /\ Log([o |-> "again", s |-> s]) /\ UNCHANGED vars
     \/ OneIn(2) /\ Log([o |-> "api", n |-> Size, like |-> Like, to |-> OneIn(2), x |-> Some(0..1000), fail |-> IF OneIn(4) THEN Some({0, 1, 10, 500, 20000}) ELSE -1]) /\ UNCHANGED vars
     \/ OneIn(4) /\ Log([o |-> "bad", n |-> Size, like |-> Like, mode |-> Some({"cut", "flip", "junk"}), x |-> Some(0..1000)]) /\ UNCHANGED vars
     \/ OneIn(8) /\ Log([o |-> "par", n |-> Some({2, 4, 16}), x |-> Some(0..1000)]) /\ UNCHANGED vars
GSpec == GInit /\ [][GNext]_gvars
Over == (Len(h) = Steps) => PrintT("BEHAVIOUR " \o ToJson(h))
=============================================================================
