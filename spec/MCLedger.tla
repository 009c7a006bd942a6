------------------------------ MODULE MCLedger ------------------------------
EXTENDS Ledger
MCInit == Init /\ base \in [Kinds -> 0 .. 1]
Next == \E o \in Owners : Make(o) \/ End(o) \/ \E k \in Kinds : Acquire(o, k) \/ GiveBack(o, k) \/ \E p \in Owners : Pass(o, p, k)
Spec == MCInit /\ [][Next]_vars
=============================================================================
