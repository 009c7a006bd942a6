-------------------------------- MODULE MCCodes --------------------------------
EXTENDS Codes, TLC, Json
CONSTANTS Emitting
VARIABLE op
Vals == {0, 1, 3, 7}
MCInit == CInit /\ op = <<"init">>
O(x) == op' = x
S2 == 0 .. 1
Answers == {<<"v4", 90, 0>>, <<"v4", 91, 0>>, <<"v4", 92, 0>>, <<"v4", 93, 0>>, <<"v4", 90, 4>>, <<"greet", 2, 5>>, <<"greet", 255, 5>>, <<"greet", 2, 4>>,
            <<"login", 0, 1>>, <<"login", 1, 1>>, <<"login", 0, 5>>, <<"v5", 0, 5>>, <<"v5", 1, 5>>, <<"v5", 7, 5>>, <<"v5", 0, 4>>}
Next ==
  \/ \E i \in S2, cat \in Own, v \in 0 .. 7 : v < Len(Names(cat)) /\ Make(i, cat, v) /\ O(<<"make", i, cat, v, "enum">>)
  \/ \E i \in S2, cat \in Cats, v \in {1, 3} : Make(i, cat, v) /\ O(<<"make", i, cat, v, "number">>)
  \/ \E i, j \in S2 : i # j /\ Copy(i, j) /\ (O(<<"copy", i, j>>) \/ O(<<"throw", i, j>>))
  \/ \E i \in S2 : Clear(i) /\ O(<<"clear", i>>)
  \/ \E i \in S2, w \in {"good", "space", "nohost", "port"}, t \in 0 .. 1 : Parse(i, w) /\ O(<<"parse", i, w, t>>)
  \/ \E i \in S2, a \in Answers : Reply(i, a[1], a[2], a[3]) /\ O(<<"socks", i, a[1], a[2], a[3]>>)
MCSpec == MCInit /\ [][Next]_<<code, op>>
\* one code per category and number; codes of different categories never meet
Distinct == \A i, j \in Slots : Equal(i, j) <=> (code[i].cat = code[j].cat /\ code[i].v = code[j].v)
OneName == \A i \in Slots, cat \in Own, v \in 0 .. 7 : v < Len(Names(cat)) /\ SameAs(i, cat, v) => Message(i) = Names(cat)[v + 1] /\ (Set(i) <=> v # 0)
Foreign == \A i \in Slots, v \in 1 .. 133 : code[i].cat \in Own => ~IsErrc(i, v)
View1 == code
Emit == Emitting => PrintT("T " \o ToJson([f |-> code, o |-> op', t |-> code']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(code))
=============================================================================
