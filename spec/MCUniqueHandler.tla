-------------------------- MODULE MCUniqueHandler --------------------------
EXTENDS UniqueHandler, TLC, Json
CONSTANTS Emitting, MaxH
VARIABLE op
MCInit == Init /\ op = <<"init">>
O(x) == op' = x
Pairs == {<<s, t>> \in Slots \X Slots : s # t}
CallActs == {None, <<"throw">>} \cup {<<x, s>> : x \in {"set", "reset", "complete", "del"}, s \in Slots}
            \cup {<<"move", p[1], p[2]>> : p \in Pairs}
DropActs == {None} \cup {<<x, s>> : x \in {"set", "reset"}, s \in Slots}
Kinds == {<<a, None>> : a \in CallActs} \cup {<<None, d>> : d \in DropActs}
Next ==
  \E s \in Slots :
    \/ Empty(s) /\ O(<<"empty", s>>)
    \/ \E k \in Kinds : Ctor(s, k[1], k[2], 0, FALSE) /\ O(<<"ctor", s, k[1], k[2], 0>>)
    \/ \E k \in Kinds : Set(s, k[1], k[2], 0, FALSE) /\ O(<<"assign", s, k[1], k[2], 0>>)
    \/ Ctor(s, None, None, 0, TRUE) /\ O(<<"ctor", s, None, None, 1>>)
    \/ Set(s, None, None, 0, TRUE) /\ O(<<"assign", s, None, None, 1>>)
    \/ \E t \in Slots : (MoveC(s, t) /\ O(<<"mc", s, t>>)) \/ (s # t /\ MoveAs(s, t) /\ O(<<"ma", s, t>>))
    \/ Call(s) /\ O(<<"complete", s>>)
    \/ Reset(s) /\ O(<<"reset", s>>)
    \/ Del(s) /\ O(<<"del", s>>)
MCSpec == MCInit /\ [][Next]_<<uvars, op>>
View1 == [s \in Slots |-> IF u[s] <= 0 THEN <<u[s]>> ELSE <<hs[u[s]].a, hs[u[s]].d>>]
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
