----------------------------- MODULE MCDynBuffer -----------------------------
EXTENDS DynBuffer, TLC, Json
CONSTANTS Emitting, MaxLen
VARIABLE op
mcvars == <<vars, op>>
D(n, x) == [i \in 1 .. n |-> x]
O(x) == op' = x
Ns == {0, 1, 2, MaxLen + 1}
Hs == {-1, -2}                       \* the largest representable numbers
Amount == Ns \cup Hs
Val(n) == IF n < 0 THEN 2 * Big ELSE n

MCInit == Init /\ op = <<"init">>
Next ==
  \/ lim < 0 /\ \E n \in 0 .. 2, m \in {2, MaxLen, Big} : Buffer(D(n, 1), m) /\ O(<<"buffer", D(n, 1), m>>)
  \/ \E m \in {2, MaxLen, Big}, p \in {"v1", "v2"} :
        View(m, p) /\ O(<<"view", m, IF p = "v1" THEN 1 ELSE 0>>)
  \/ \E n \in Ns : Prepare(D(n, 2), n, "length_error") /\ O(<<"prepare", D(n, 2), 0>>)
  \/ \E n \in Ns, st \in 0 .. 1 : Prepare(D(n, 2), n, "no_memory") /\ O(<<"prepare_ec", D(n, 2), st>>)
  \/ \E n \in Hs : vmax < Big /\ Prepare(<<>>, Val(n), "length_error") /\ O(<<"prepare", <<>>, 0, n>>)
  \/ \E n \in Hs : vmax < Big /\ Prepare(<<>>, Val(n), "no_memory") /\ O(<<"prepare_ec", <<>>, 0, n>>)
  \/ \E n \in Amount : Commit(Val(n)) /\ O(<<"commit", n>>)
  \/ \E n \in Amount : Consume(Val(n)) /\ O(<<"consume", n>>)
  \/ \E n \in Ns : Grow(D(n, 3), n) /\ O(<<"grow", D(n, 3)>>)
  \/ \E n \in Hs : vmax < Big /\ Grow(<<>>, Val(n)) /\ O(<<"grow", <<>>, n>>)
  \/ \E n \in Amount : Shrink(Val(n)) /\ O(<<"shrink", n>>)
  \/ \E p \in Amount, n \in Amount, c \in 0 .. 1 : Move /\ O(<<"data", p, n, c>>)
  \/ Move /\ O(<<"vmove">>)
MCSpec == MCInit /\ [][Next]_mcvars
Small == Len(inp \o out) <= MaxLen
View1 == vars
Emit == Emitting => PrintT("T " \o ToJson([f |-> vars, o |-> op', t |-> vars']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(vars))
\* what a committed or initial byte may do: only consume (from the front) or shrink removes it
InputStable == [][op'[1] \in {"prepare", "prepare_ec", "data", "vmove", "commit", "grow"} =>
                    SubSeq(inp', 1, Len(inp)) = inp]_mcvars
Atomic == [][ret' # "ok" => UNCHANGED <<inp, out>>]_mcvars
=============================================================================
