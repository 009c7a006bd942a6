------------------------------ MODULE MCToken ------------------------------
EXTENDS Token, Sequences, TLC, Json
CONSTANTS Emitting
VARIABLE op
MCInit == Init /\ op = <<"init">>
O(x) == op' = x
Next ==
  \/ \E s \in Srcs :
       \/ New(s) /\ O(<<"new", s>>)
       \/ Del(s) /\ O(<<"del", s>>)
       \/ Cancel(s) /\ O(<<"cancel", s>>)
       \/ Destroy(s) /\ O(<<"destroy", s>>)
       \/ src[s] = 0 /\ Reset(s) /\ O(<<"reset", s>>)
       \/ \E d \in Srcs : (MoveC(s, d) /\ O(<<"mc", s, d>>)) \/ (s # d /\ MoveA(s, d) /\ O(<<"ma", s, d>>))
  \/ \E t \in Toks :
       \/ \E s \in Srcs : Issue(t, s) /\ O(<<"issue", t, s>>)
       \/ \E u \in Toks : (TCopy(t, u) /\ O(<<"tcopy", t, u>>)) \/ (TAssign(t, u) /\ O(<<"tassign", t, u>>))
       \/ TDel(t) /\ O(<<"tdel", t>>)
MCSpec == MCInit /\ [][Next]_<<tvars, op>>
\* identities matter only up to who shares them
View1 == <<[s \in Srcs |-> IF src[s] > 0 THEN 1 ELSE src[s]],
           [t \in Toks |-> IF tok[t] = -1 THEN -1 ELSE IF Cancelled(t) THEN 0 ELSE CHOOSE s \in Srcs : src[s] = tok[t]]>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
