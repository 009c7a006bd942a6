----------------------------- MODULE MCHandles -----------------------------
EXTENDS Handles, TLC, Json
CONSTANTS Emitting, MaxFd
VARIABLES op, rel
O(x) == op' = x
MCInit == HInit /\ op = <<"init">> /\ rel = <<>>
\* the system hands out the lowest free number
Lowest == CHOOSE n \in 0 .. MaxFd : n \notin tab /\ \A m \in 0 .. n - 1 : m \in tab
Room == Cardinality(tab) <= MaxFd
N == IF Room THEN Lowest ELSE -1
Cl == {<<>>} \cup {<<n>> : n \in 0 .. MaxFd} \cup {<<n, N>> : n \in 0 .. MaxFd}
Next ==
  \E s \in Slots, c \in Cl, ok \in BOOLEAN :
    /\ rel' = c
    /\ \/ Room /\ RawFd(s, N, c) /\ ok /\ O(<<"rawfd", s>>)
       \/ obj[s] = None /\ ok /\ \E k \in {"u", "h"} : New(s, k, c) /\ O(<<"new", s, k>>)
       \/ obj[s] = None /\ ok /\ \E f \in Slots : IsH(f) /\ Free(Fd(f)) /\ Own(s, f, c) /\ O(<<"own", s, f>>)
       \/ Room /\ Made(s, N, ok, TRUE, c) /\ O(<<"uopen", s, ok>>)
       \/ Room /\ \E f \in Slots : IsU(f) /\ (ok => Fd(f) # -1) /\ Made(s, N, ok, TRUE, c) /\ O(<<"udup", s, f, ok>>)
       \/ obj[s] # None /\ Delete(s, c) /\ (ok \/ c # <<>>) /\ O(<<"del", s, ok>>)
       \/ ok /\ \E f \in Slots : MoveCtor(s, f, c) /\ O(<<"mctor", s, f>>)
       \/ \E f \in Slots : MoveAssign(s, f, ok, c) /\ O(<<"massign", s, f, ok>>)
       \/ Room /\ OpenAssign(s, N, ok, c) /\ O(<<"oassign", s, ok>>)
       \/ (IsH(s) => Free(Fd(s))) /\ Close(s, ok, c) /\ O(<<"close", s, ok>>)
       \/ ok /\ Clear(s, c) /\ O(<<"clear", s>>)
       \/ ok /\ IsH(s) /\ \E f \in Slots : (Get(s, f, c) /\ O(<<"get", s, f>>)) \/ (f # s /\ HCopy(s, f, c) /\ O(<<"hcopy", s, f>>))
                                 \/ (Release(s, f, c) /\ O(<<"release", s, f>>))
       \/ \E f \in Slots : IsH(f) /\ Free(Fd(f)) /\ Reset(s, f, ok, c) /\ O(<<"reset", s, f, ok>>)
MCSpec == MCInit /\ [][Next]_<<hvars, op, rel>>
V == <<obj, tab>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* nothing but its owner, or an explicit close of a plain handle, closes a descriptor; a released one stays open
ClosedByOwner == [][\A i \in 1 .. Len(rel') : rel'[i] \in Owned \/ (op'[1] = "close" /\ rel'[i] = Fd(op'[2])) \/ rel'[i] \notin tab]_<<hvars, op, rel>>
ReleaseKeeps == [][op'[1] \in {"release", "get", "hcopy", "clear", "mctor", "own"} => tab' = tab]_<<hvars, op, rel>>
\* no descriptor is lost: what nobody owns any more was released, or never owned
NoLeak == [][\A n \in Owned : n \in Owned' \/ n \notin tab' \/ op'[1] = "release"]_<<hvars, op, rel>>
=============================================================================
