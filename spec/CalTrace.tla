----------------------------- MODULE CalTrace -----------------------------
(* Judges what the real code made of times and ranges (P11) with Cal. *)
EXTENDS Cal, Json, IOUtils

CONSTANT Prop
Log == ndJsonDeserialize(IOEnv.TRACE)

Sub(t, d) == IF t[2] >= d[2] THEN <<t[1] - d[1], t[2] - d[2]>> ELSE <<t[1] - d[1] - 1, t[2] + 1000000000 - d[2]>>

Names(q) == [i \in DOMAIN q |-> BucketName(q[i])]
Own(t) == [i \in 1..4 |-> BucketName(Bucket(Units[i], t))]

Bounds(e) ==
  LET t == IF e.now = <<>> THEN e.clock ELSE e.now
      x == IF e.off = <<>> THEN t ELSE Sub(t, e.off)
  IN  IF e.range # <<>> THEN e.range ELSE <<Sub(x, <<900, 0>>), x>>

Judge(e) ==
  CASE e.ev = "died" -> "the process died"
    [] e.ev = "search" ->
         IF e.out # Names(Search(e.s, e.e)) THEN "the buckets searched are not those of the range" ELSE ""
    [] e.ev \in {"std", "quant"} ->
         IF e.err # "" THEN "no buckets for a time" ELSE IF e.out # Own(e.t) THEN "the buckets of a time are wrong" ELSE ""
    [] e.ev = "partial" ->
         IF e.err # "" \/ e.out # <<BucketName(Bucket(e.u, e.t))>> THEN "the bucket of a time is wrong" ELSE ""
    [] e.ev = "again" ->
         IF e.out # <<Bucket("H", e.t)[2] * 3600, 0>> THEN "the hour of a time is wrong" ELSE ""
    [] e.ev = "choose" ->
         IF e.out # Granularity(<<0, 0>>, e.d) THEN "wrong granularity" ELSE ""
    [] e.ev = "bounds" ->
         IF e.out # Bounds(e) THEN "the window of a scan is wrong" ELSE ""
    [] OTHER -> "-"

VARIABLES l, judged
TraceInit == l = 1 /\ judged = 0
TraceNext ==
  /\ l <= Len(Log)
  /\ l' = l + 1
  /\ LET v == Judge(Log[l]) IN
     /\ judged' = judged + (IF v = "-" THEN 0 ELSE 1)
     /\ v \notin {"", "-"} => PrintT(<<"REJECT", l, v>>)
  /\ l' > Len(Log) => PrintT(<<"CONSUMED", Len(Log), judged'>>)
TraceSpec == TraceInit /\ [][TraceNext]_<<l, judged>>
Consumed == TLCGet("stats").diameter - 1 = Len(Log)
=============================================================================
