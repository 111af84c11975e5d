----------------------------- MODULE CodecTrace -----------------------------
(***************************************************************************)
(* Judges what real streams delivered. Data is a sequence of digests of    *)
(* blocks of 4096 bytes, the digest of the rest, and the length.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANT Prop

Log == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, judged,
          sent    \* number of a compressed text -> the data it stands for
vars == <<l, judged, sent>>

Same(a, b) == a.n = b.n /\ a.blocks = b.blocks /\ a.tail = b.tail
Prefix(a, b) == a.n <= b.n /\ Len(a.blocks) <= Len(b.blocks) /\ a.blocks = SubSeq(b.blocks, 1, Len(a.blocks))

Encoded(e) ==
  IF e.panic THEN "compressing panicked"
  ELSE IF e.hit /\ e.err = "" THEN "a failure of the writer got lost"
  ELSE IF ~e.hit /\ e.err # "" THEN "compressing failed"
  ELSE ""

Decoded(e) ==
  LET s == sent[e.of] IN
  IF e.panic THEN "decompressing panicked"
  ELSE CASE e.mode = "ok" -> IF e.err # "" THEN "decompressing failed"
                             ELSE IF ~Same(e.data, s) THEN "not the same data" ELSE ""
         [] e.mode = "cut" -> IF e.err = "" THEN "a truncated text was accepted" ELSE ""
         [] e.mode = "junk" -> IF e.err = "" THEN "junk was accepted" ELSE ""
         [] e.mode = "flip" -> IF e.err = "" /\ ~Same(e.data, s) THEN "a corrupt text gave other data" ELSE ""
         [] e.mode = "fault" -> IF e.hit /\ e.err = "" THEN "a failure of the reader got lost"
                                ELSE IF ~e.hit /\ (e.err # "" \/ ~Same(e.data, s)) THEN "not the same data"
                                ELSE IF ~Prefix(e.data, s) THEN "other data before the failure" ELSE ""
         [] OTHER -> "unknown mode"

\* the part of a stream that was read before it was given up
Partial(e) ==
  IF e.panic THEN "decompressing panicked"
  ELSE IF e.mode \in {"ok", "fault"} /\ ~Prefix(e.data, sent[e.of]) THEN "other data than was written" ELSE ""

Again(e) ==
  IF e.panic THEN "reading a finished stream panicked"
  ELSE IF e.n # 0 THEN "a finished stream gave more data"
  ELSE IF e.end /\ ~e.eof THEN "a finished stream did not report its end again"
  ELSE IF ~e.end /\ e.err = "" THEN "a failed stream reported no error" ELSE ""

Verdict(e) ==
  CASE e.ev = "died" -> "the process died"
    [] e.ev = "enc" -> Encoded(e)
    [] e.ev = "dec" -> Decoded(e)
    [] e.ev = "part" -> Partial(e)
    [] e.ev = "again" -> Again(e)
    [] OTHER -> "-"

Step(e) ==
  CASE e.ev = "new" -> sent' = <<>>
    [] e.ev = "enc" -> sent' = (e.id :> e.data) @@ sent
    [] OTHER -> UNCHANGED sent

TraceInit == l = 1 /\ judged = 0 /\ sent = <<>>
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET e == Log[l]
         v == Verdict(e)
     IN  /\ Step(e)
         /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
         /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
