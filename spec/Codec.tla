------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Streams that compress and decompress with pooled coders (P19).          *)
(* A coder belongs to one stream at a time. It keeps what it was fed until *)
(* it is reset.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Streams, Coders, MaxWrites, MaxReopens,
          Twice,    \* a finished stream returns its coder again when it is closed or read again
          Dirty     \* coders are not reset when a stream starts

VARIABLES kind,    \* stream -> "none", "enc", "dec"
          open,    \* stream -> it was not finished, failed or abandoned
          coder,   \* stream -> its coder, 0 for none
          pool,    \* sequence of idle coders (a coder twice is a defect)
          buf,     \* coder -> what it holds
          sent,    \* stream -> what was written to it
          out,     \* stream -> compressed output, what its coder held when it was finished
          src,     \* decoding stream -> the stream whose output it reads
          got,     \* decoding stream -> what was read from it
          ended,   \* decoding stream -> end was reported
          gen      \* number of openings
vars == <<kind, open, coder, pool, buf, sent, out, src, got, ended, gen>>

Init ==
  /\ kind = [s \in Streams |-> "none"] /\ open = [s \in Streams |-> FALSE] /\ coder = [s \in Streams |-> 0]
  /\ pool = <<>> /\ buf = [c \in Coders |-> <<>>]
  /\ sent = [s \in Streams |-> <<>>] /\ out = [s \in Streams |-> <<>>]
  /\ src = [s \in Streams |-> 0] /\ got = [s \in Streams |-> <<>>] /\ ended = [s \in Streams |-> FALSE] /\ gen = 0

InUse == {coder[s] : s \in Streams} \cup {pool[i] : i \in DOMAIN pool}
\* a coder from the pool, or a new one
Take(c) == \/ pool # <<>> /\ c = Head(pool) /\ pool' = Tail(pool)
           \/ c \in Coders \ InUse /\ pool' = pool

OpenEnc(s) ==
  /\ ~open[s] /\ kind[s] = "none"
  /\ \E c \in Coders :
       /\ Take(c)
       /\ coder' = [coder EXCEPT ![s] = c]
       /\ buf' = [buf EXCEPT ![c] = IF Dirty THEN @ ELSE <<>>]
  /\ kind' = [kind EXCEPT ![s] = "enc"] /\ open' = [open EXCEPT ![s] = TRUE]
  /\ UNCHANGED <<sent, out, src, got, ended, gen>>

Write(s) ==
  /\ open[s] /\ kind[s] = "enc" /\ Len(sent[s]) < MaxWrites
  /\ sent' = [sent EXCEPT ![s] = Append(@, <<s, Len(@)>>)]
  /\ buf' = [buf EXCEPT ![coder[s]] = Append(@, <<s, Len(sent[s])>>)]
  /\ UNCHANGED <<kind, open, coder, pool, out, src, got, ended, gen>>

\* with Twice the stream keeps its coder and can put it back once more
Put(s) ==
  /\ pool' = Append(pool, coder[s])
  /\ coder' = IF Twice THEN coder ELSE [coder EXCEPT ![s] = 0]

Finish(s) ==
  /\ open[s] /\ kind[s] = "enc"
  /\ out' = [out EXCEPT ![s] = buf[coder[s]]]
  /\ open' = [open EXCEPT ![s] = FALSE]
  /\ Put(s)
  /\ UNCHANGED <<kind, buf, sent, src, got, ended, gen>>

OpenDec(s, of) ==
  /\ ~open[s] /\ kind[s] = "none" /\ kind[of] = "enc" /\ ~open[of]
  /\ \E c \in Coders :
       /\ Take(c)
       /\ coder' = [coder EXCEPT ![s] = c]
       /\ buf' = [buf EXCEPT ![c] = (IF Dirty THEN @ ELSE <<>>) \o out[of]]
  /\ kind' = [kind EXCEPT ![s] = "dec"] /\ open' = [open EXCEPT ![s] = TRUE] /\ src' = [src EXCEPT ![s] = of]
  /\ UNCHANGED <<sent, out, got, ended, gen>>

Read(s) ==
  /\ open[s] /\ kind[s] = "dec"
  /\ LET c == coder[s] IN
     IF buf[c] # <<>>
     THEN /\ got' = [got EXCEPT ![s] = Append(@, Head(buf[c]))] /\ buf' = [buf EXCEPT ![c] = Tail(@)]
          /\ UNCHANGED <<open, coder, pool, ended>>
     ELSE /\ ended' = [ended EXCEPT ![s] = TRUE] /\ open' = [open EXCEPT ![s] = FALSE] /\ Put(s)
          /\ UNCHANGED <<got, buf>>
  /\ UNCHANGED <<kind, sent, out, src, gen>>

\* reading a finished stream again tells the end again
ReadAgain(s) ==
  /\ Twice /\ ended[s] /\ coder[s] # 0
  /\ pool' = Append(pool, coder[s]) /\ coder' = [coder EXCEPT ![s] = 0]
  /\ UNCHANGED <<kind, open, buf, sent, out, src, got, ended, gen>>

\* the other end fails: the coder goes back without having produced everything
Fail(s) ==
  /\ open[s]
  /\ open' = [open EXCEPT ![s] = FALSE] /\ Put(s)
  /\ kind' = [kind EXCEPT ![s] = "failed"]
  /\ UNCHANGED <<buf, sent, out, src, got, ended, gen>>

\* nobody cares any more: the coder is garbage
Abandon(s) ==
  /\ open[s]
  /\ open' = [open EXCEPT ![s] = FALSE] /\ kind' = [kind EXCEPT ![s] = "failed"]
  /\ UNCHANGED <<coder, pool, buf, sent, out, src, got, ended, gen>>

\* the slot of a finished stream is used for another one
Forget(s) ==
  /\ ~open[s] /\ kind[s] # "none" /\ gen < MaxReopens
  /\ \A t \in Streams : open[t] => src[t] # s
  /\ kind' = [kind EXCEPT ![s] = "none"] /\ sent' = [sent EXCEPT ![s] = <<>>] /\ out' = [out EXCEPT ![s] = <<>>]
  /\ coder' = IF Twice THEN coder ELSE [coder EXCEPT ![s] = 0]
  /\ got' = [t \in Streams |-> IF t = s \/ src[t] = s THEN <<>> ELSE got[t]]
  /\ ended' = [t \in Streams |-> IF t = s \/ src[t] = s THEN FALSE ELSE ended[t]]
  /\ src' = [src EXCEPT ![s] = 0]
  /\ gen' = gen + 1 /\ UNCHANGED <<open, pool, buf>>

Next == \E s \in Streams : OpenEnc(s) \/ Write(s) \/ Finish(s) \/ Read(s) \/ ReadAgain(s) \/ Fail(s) \/ Abandon(s) \/ Forget(s)
                           \/ \E of \in Streams \ {s} : OpenDec(s, of)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* no coder works for two streams, or for one while it is idle
Exclusive ==
  /\ \A s, t \in Streams : s # t /\ open[s] /\ open[t] => coder[s] # coder[t]
  /\ \A s \in Streams, i \in DOMAIN pool : open[s] => coder[s] # pool[i]
  /\ \A i, j \in DOMAIN pool : i # j => pool[i] # pool[j]
\* what comes out is what went in
Exact == \A s \in Streams : kind[s] = "enc" /\ ~open[s] => out[s] = sent[s]
Round == \A s \in Streams : kind[s] = "dec" /\ src[s] # 0 /\ kind[src[s]] = "enc" =>
           /\ got[s] = SubSeq(sent[src[s]], 1, Len(got[s]))
           /\ ended[s] => got[s] = sent[src[s]]
=============================================================================
