------------------------------- MODULE Ledger -------------------------------
\* What a program holds: blocks of memory, descriptors and threads. Objects and
\* operations in progress acquire some and are replaced by others that take them
\* over; whoever ends gives back all it has. What was there before (base) is not
\* theirs. When none is left, the program holds what it held before.
EXTENDS Integers, FiniteSets
CONSTANTS Owners, Kinds, MaxHeld
VARIABLES base, has, alive
vars == <<base, has, alive>>
Nothing == [k \in Kinds |-> 0]
RECURSIVE Total(_, _)
Total(S, k) == IF S = {} THEN 0 ELSE LET o == CHOOSE o \in S : TRUE IN has[o][k] + Total(S \ {o}, k)
Held == [k \in Kinds |-> base[k] + Total(Owners, k)]

Init == has = [o \in Owners |-> Nothing] /\ alive = {}
Make(o) == o \notin alive /\ alive' = alive \cup {o} /\ UNCHANGED <<base, has>>
Acquire(o, k) == o \in alive /\ has[o][k] < MaxHeld /\ has' = [has EXCEPT ![o][k] = @ + 1] /\ UNCHANGED <<base, alive>>
GiveBack(o, k) == o \in alive /\ has[o][k] > 0 /\ has' = [has EXCEPT ![o][k] = @ - 1] /\ UNCHANGED <<base, alive>>
\* a move, or a completed operation whose handler takes over
Pass(o, p, k) == /\ o \in alive /\ p \in alive /\ o # p /\ has[o][k] > 0 /\ has[p][k] < MaxHeld
                 /\ has' = [has EXCEPT ![o][k] = @ - 1, ![p][k] = @ + 1] /\ UNCHANGED <<base, alive>>
End(o) == o \in alive /\ alive' = alive \ {o} /\ has' = [has EXCEPT ![o] = Nothing] /\ UNCHANGED base
NothingLeft == alive = {} => Held = base
NoneOwedByTheDead == \A o \in Owners \ alive : has[o] = Nothing
=============================================================================
