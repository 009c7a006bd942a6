----------------------------- MODULE MCWrapper -----------------------------
EXTENDS Wrapper, TLC, Json
CONSTANTS Emitting, Posting, MaxLayers
VARIABLE op
MCInit == Init /\ op = <<"init">>
O(x) == op' = x
A2 == <<1, 2>>
B(a, k) == [k |-> "b", args |-> a, work |-> k]
C(k) == [k |-> "c", args |-> <<>>, work |-> k]
\* what the test driver can build
Layers == {B(<<>>, {}), B(<<>>, {1}), B(<<>>, {2}), B(A2, {}), B(A2, {1, 2}), C({}), C({1}), C({2}), C({1, 2})}
Stacks == {<<x>> : x \in Layers} \cup (IF MaxLayers > 1 THEN {<<x, y>> : x, y \in Layers} ELSE {})
D(k, a) == [k |-> k, args |-> a]
Ds == {D("again", <<>>), D("drop", <<>>), D("bound", <<>>), D("bound", A2), D("complete", <<>>), D("complete", A2)}
Dss == {<<>>} \cup {<<x>> : x \in Ds} \cup {<<x, y>> : x, y \in Ds} \cup
       (IF MaxLayers > 2 THEN {<<x, y, z>> : x, y, z \in Ds} ELSE {})

Next ==
  \E s \in Slots :
    \/ \E ls \in Stacks, ex \in 0 .. NCtx : Make(s, ex, 0, ls) /\ O(<<"make", s, ex, ls>>)
    \/ \E t \in Slots : Move(s, t) /\ O(<<"move", s, t>>)
    \/ Del(s) /\ O(<<"del", s>>)
    \/ \E ds \in Dss : Invoke(s, s, ds) /\ O(<<"invoke", s, s, ds>>)
    \/ Posting /\ \E ds \in Dss, c \in Ctxs : Post(s, c, s, ds) /\ O(<<"post", s, c, s, ds>>)
    \/ posted.h # 0 /\ w[posted.to].h = 0 /\ Poll(posted.at) /\ O(<<"poll", posted.at>>)
MCSpec == MCInit /\ [][Next]_<<wvars, op>>
View1 == <<[s \in Slots |-> IF w[s].h = 0 THEN <<>> ELSE <<hs[w[s].h].ex, w[s].ls>>],
           IF posted.h = 0 THEN <<>> ELSE <<hs[posted.h].ex, posted.ls, posted.at, posted.ds>>>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
