------------------------------ MODULE MCConnect ------------------------------
EXTENDS Connect, TLC, Json
CONSTANTS Emitting, MaxEps
VARIABLES op, res
Seqs == UNION {[1 .. n -> Kinds] : n \in 0 .. MaxEps}
O(x) == op' = x
MCInit == CInit /\ op = <<"init">> /\ res = [e |-> "none", r |-> 0, tried |-> 0, plan |-> <<>>]
Q == [host |-> "h", service |-> "s", flags |-> 0]
Next ==
  \/ \E f \in {"sync", "throw", "async"}, p \in Seqs, r \in {"ok"} \cup ResolveErrors, prior \in {0, 1} :
       /\ (r # "ok" => p = <<>>) /\ (f # "async" => \A i \in 1 .. Len(p) : p[i] # "slow")
       /\ (prior = 1 => Len(p) <= 1)
       /\ Start(f, p, r, Q, prior) /\ O(<<"start", f, p, r, prior>>) /\ UNCHANGED res
  \/ Resolve(Q) /\ O(<<"resolve">>) /\ UNCHANGED res
  \/ \E i \in 1 .. MaxEps : Attempt(i) /\ O(<<"attempt">>) /\ UNCHANGED res
  \/ \E a \in {"rcancel", "cancel", "close"} : Intervene(a) /\ O(<<a>>) /\ UNCHANGED res
  \/ \E e \in {"ok", "not_found", "operation_aborted"} \cup ResolveErrors \cup {ErrOf[x] : x \in DOMAIN ErrOf}, r \in 0 .. MaxEps :
       /\ Finish(e, r, r, IF r = 0 THEN {} ELSE {r}, IF r = 0 THEN {} ELSE {r}, 0) /\ O(<<"done">>)
       /\ res' = [e |-> e, r |-> r, tried |-> k, plan |-> plan]
MCSpec == MCInit /\ [][Next]_<<cvars, op, res>>
V == cvars
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* success: the first endpoint that accepts, all before it having been tried and failed
First == [][op'[1] = "done" /\ res'.e = "ok" => LET p == res'.plan IN res'.r = res'.tried /\ p[res'.r] = "ok" /\ \A i \in 1 .. res'.r - 1 : p[i] # "ok"]_<<cvars, op, res>>
\* failure is only reported when nothing that accepts was left untried, unless the caller gave up
Fair == [][op'[1] = "done" /\ res'.e \notin {"ok", "operation_aborted"} /\ res'.plan # <<>> => \A i \in 1 .. Len(res'.plan) : res'.plan[i] # "ok"]_<<cvars, op, res>>
\* an operation that is not waiting for the caller can always go on
Lively == ph = "idle" \/ Outcome # {} \/ ph = "resolving" \/ (ph = "trying" /\ (Waiting \/ (k < Len(plan) /\ Over(k))))
=============================================================================
