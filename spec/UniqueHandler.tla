--------------------------- MODULE UniqueHandler ---------------------------
\* unique_handler objects in slots, the handlers they store, and handlers that
\* act on these objects again when they are invoked or destroyed.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NS
VARIABLES u, hs, calls, dels, ret
\* u[s]: -1 no object, 0 empty, otherwise the handler stored
\* hs[h]: [st, a: what it does when invoked, d: what it does when destroyed without having been invoked]
uvars == <<u, hs, calls, dels, ret>>
Slots == 1 .. NS
None == <<"none">>
Init == u = [s \in Slots |-> -1] /\ hs = <<>> /\ calls = <<>> /\ dels = {} /\ ret = "ok"
S0 == [u |-> u, hs |-> hs, calls |-> <<>>, dels |-> {}]
New(a, d, k) == [st |-> "stored", a |-> a, d |-> d, k |-> k]
Put(S, s, h) == [S EXCEPT !.u[s] = h]

RECURSIVE Drop(_, _), Act(_, _), Complete(_, _), Assign(_, _, _), MoveA(_, _, _)
Bind(SS, Op(_)) == UNION {Op(S) : S \in SS}
\* handler h (if any) is destroyed without having been invoked
Drop(S, h) == IF h <= 0 THEN {S}
              ELSE Act([S EXCEPT !.hs[h].st = "dropped", !.dels = @ \cup {h}], S.hs[h].d)
\* slot s gets the (new) handler h; whether the old one goes first is open
Assign(S, s, h) ==
  Drop(Put(S, s, h), S.u[s]) \cup Bind(Drop(Put(S, s, 0), S.u[s]), LAMBDA X : Drop(Put(X, s, h), X.u[s]))
MoveA(S, s, t) ==
  IF s = t THEN {S} \cup Drop(Put(S, s, 0), S.u[s])
  ELSE Drop(Put(Put(S, t, S.u[s]), s, 0), S.u[t])
       \cup Bind(Drop(Put(S, t, 0), S.u[t]), LAMBDA X : Drop(Put(Put(X, t, X.u[s]), s, 0), X.u[t]))
\* the object is empty and the memory returned before the handler runs
Complete(S, s) ==
  LET h == S.u[s] IN
  IF h = 0 THEN {[S EXCEPT !.calls = Append(@, -1)]}
  ELSE Bind(Act([S EXCEPT !.u[s] = 0, !.hs[h].st = "called", !.calls = Append(@, h)], S.hs[h].a),
            LAMBDA X : {[X EXCEPT !.dels = @ \cup {h}]})
Act(S, a) ==
  CASE a[1] \in {"none", "throw"} -> {S}
    [] a[1] # "none" /\ S.u[a[2]] = -1 -> {S}
    [] a[1] = "set" -> Assign([S EXCEPT !.hs = Append(@, New(None, None, 0))], a[2], Len(S.hs) + 1)
    [] a[1] = "reset" -> Drop(Put(S, a[2], 0), S.u[a[2]])
    [] a[1] = "move" -> IF S.u[a[3]] = -1 THEN {S} ELSE MoveA(S, a[2], a[3])
    [] a[1] = "complete" -> Complete(S, a[2])
    [] a[1] = "del" -> Drop(Put(S, a[2], -1), S.u[a[2]])

Become(SS, r) == /\ \E S \in SS : u' = S.u /\ hs' = S.hs /\ calls' = S.calls /\ dels' = S.dels
                 /\ ret' = r
With(S, a, d, k) == [S EXCEPT !.hs = Append(@, New(a, d, k))]
Lost(S, k) == [S EXCEPT !.hs = Append(@, [New(None, None, k) EXCEPT !.st = "dropped"]), !.dels = @ \cup {Len(S.hs) + 1}]
Empty(s) == u[s] = -1 /\ Become({Put(S0, s, 0)}, "ok")
Ctor(s, a, d, k, fail) ==
  /\ u[s] = -1
  /\ IF fail THEN Become({Lost(S0, k)}, "bad_alloc")
     ELSE Become({Put(With(S0, a, d, k), s, Len(hs) + 1)}, "ok")
Set(s, a, d, k, fail) ==
  /\ u[s] # -1
  /\ IF fail THEN Become({Lost(S0, k)} \cup Drop(Put(Lost(S0, k), s, 0), u[s]), "bad_alloc")
     ELSE Become(Assign(With(S0, a, d, k), s, Len(hs) + 1), "ok")
MoveC(s, t) == s # t /\ u[s] # -1 /\ u[t] = -1 /\ Become({Put(Put(S0, t, u[s]), s, 0)}, "ok")
MoveAs(s, t) == u[s] # -1 /\ u[t] # -1 /\ Become(MoveA(S0, s, t), "ok")
Call(s) == /\ u[s] # -1
           /\ Become(Complete(S0, s), IF u[s] = 0 THEN "bad_function_call" ELSE IF hs[u[s]].a = <<"throw">> THEN "throw" ELSE "ok")
Reset(s) == u[s] # -1 /\ Become(Drop(Put(S0, s, 0), u[s]), "ok")
Del(s) == u[s] # -1 /\ Become(Drop(Put(S0, s, -1), u[s]), "ok")

\* --- what must hold
OneOwner == \A s, t \in Slots : (s # t /\ u[s] > 0) => u[s] # u[t]
Stored == {h \in 1 .. Len(hs) : hs[h].st = "stored"}
NothingLost == Stored = {u[s] : s \in Slots} \ {-1, 0}
AtMostOnce == \A i, j \in 1 .. Len(calls) : (i # j /\ calls[i] > 0) => calls[i] # calls[j]
Final == [][\A h \in 1 .. Len(hs) : hs[h].st # "stored" => hs'[h].st = hs[h].st]_uvars
=============================================================================
