------------------------------- MODULE Growth -------------------------------
(* The machine of Memory.tla, in units of bytes *)
EXTENDS Memory, Sequences, TLC, Json

CONSTANTS Claims,    \* sizes in headers, as decimal text
          Kinds,     \* type words
          Amounts,   \* bytes delivered: the positions where the reader may end
          First,     \* size of the first buffer
          Copies     \* how often a byte is copied on its way into the node

VARIABLES kind, claim, got, cap, total, ended
vars == <<kind, claim, got, cap, total, ended>>

Init == /\ kind \in Kinds /\ claim \in Claims
        /\ got = 0 /\ cap = First /\ total = First /\ ended = FALSE

\* Bytes arrive as far as there is room
Deliver == /\ ~ended
           /\ \E a \in Amounts : /\ a > got
                                 /\ got' = IF a <= cap THEN a ELSE cap
                                 /\ got' > got
           /\ total' = total + Copies * (got' - got)
           /\ UNCHANGED <<kind, claim, cap, ended>>

\* A full buffer is replaced by one of twice the size
Grow == /\ ~ended /\ got = cap
        /\ cap' = 2 * cap
        /\ total' = total + cap'
        /\ UNCHANGED <<kind, claim, got, ended>>

End == /\ ~ended /\ got \in Amounts
       /\ ended' = TRUE
       /\ PrintT(<<"V", ToJson([kind |-> kind, claim |-> claim, n |-> got])>>)
       /\ UNCHANGED <<kind, claim, got, cap, total>>

Next == Deliver \/ Grow \/ End
Spec == Init /\ [][Next]_vars

InBudget == total <= 1024 * Budget(got)
Amortised == total <= 2 * First + (4 + Copies) * got
=============================================================================
