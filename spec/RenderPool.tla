----------------------------- MODULE RenderPool -----------------------------
(***************************************************************************)
(* Renderings that share a pool of buffers: each level of a document takes *)
(* a buffer, writes its own line and then what the level below handed      *)
(* over, hands over a copy and gives the buffer back. The bytes stay in a  *)
(* buffer until they are written over.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Jobs, Buffers, Depth,
          Dirty,   \* whoever takes a buffer writes after what is in it
          Alias    \* levels hand over the buffer itself, not a copy
VARIABLES free, text, stack, got, out
vars == <<free, text, stack, got, out>>
\* stack: buffers of a job, from the outermost level; got: what the level below handed over
None == [ref |-> 0, lines |-> <<>>]
Init == /\ free = Buffers /\ text = [b \in Buffers |-> <<>>] /\ stack = [j \in Jobs |-> <<>>]
        /\ got = [j \in Jobs |-> None] /\ out = [j \in Jobs |-> <<>>]
Done(j) == out[j] # <<>>
Top(j) == stack[j][Len(stack[j])]
Take(j) == /\ ~Done(j) /\ Len(stack[j]) < Depth /\ got[j] = None
           /\ \E b \in free :
                /\ free' = free \ {b}
                /\ stack' = [stack EXCEPT ![j] = Append(@, b)]
                /\ text' = [text EXCEPT ![b] = Append(IF Dirty THEN @ ELSE <<>>, <<j, Len(stack[j]) + 1>>)]
           /\ UNCHANGED <<got, out>>
\* the innermost level hands its text over
Give(j) ==
  /\ stack[j] # <<>> /\ (Len(stack[j]) = Depth \/ got[j] # None)
  /\ LET b == Top(j)
         t == text[b] \o (IF got[j].ref # 0 THEN text[got[j].ref] ELSE got[j].lines)
     IN  /\ stack' = [stack EXCEPT ![j] = SubSeq(@, 1, Len(@) - 1)]
         /\ free' = free \cup {b}
         /\ text' = [text EXCEPT ![b] = t]
         /\ IF Len(stack[j]) = 1
            THEN out' = [out EXCEPT ![j] = t] /\ got' = [got EXCEPT ![j] = None]
            ELSE got' = [got EXCEPT ![j] = IF Alias THEN [ref |-> b, lines |-> <<>>] ELSE [ref |-> 0, lines |-> t]] /\ UNCHANGED out
Next == \E j \in Jobs : Take(j) \/ Give(j)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* everyone gets the own text
Own == \A j \in Jobs : Done(j) => out[j] = [i \in 1..Depth |-> <<j, i>>]
Apart == \A j, k \in Jobs : \A i \in DOMAIN stack[j], m \in DOMAIN stack[k] : <<j, i>> # <<k, m>> => stack[j][i] # stack[k][m] /\ stack[j][i] \notin free
\* with room for all, all are done
Finish == <>(\A j \in Jobs : Done(j))
=============================================================================
