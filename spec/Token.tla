------------------------------- MODULE Token -------------------------------
\* Cancellation token sources and the tokens they issue. A live source has an
\* identity that its tokens carry; cancelling gives it a new one.
EXTENDS Integers, FiniteSets
CONSTANTS NSrc, NTok
VARIABLES src, tok
tvars == <<src, tok>>
Srcs == 1 .. NSrc
Toks == 1 .. NTok
\* src[s]: -1 no object, 0 destroyed, otherwise its identity; tok[t]: -1 no object, otherwise the identity it carries
Live == {src[s] : s \in Srcs} \ {-1, 0}
Used == Live \cup {tok[t] : t \in Toks}
Fresh == CHOOSE n \in 1 .. (NSrc + NTok + 1) : n \notin Used
Cancelled(t) == tok[t] \notin Live
Init == src = [s \in Srcs |-> -1] /\ tok = [t \in Toks |-> -1]

Set(s, v) == src' = [src EXCEPT ![s] = v] /\ UNCHANGED tok
New(s) == src[s] = -1 /\ Set(s, Fresh)
Del(s) == src[s] # -1 /\ Set(s, -1)
Cancel(s) == src[s] # -1 /\ Set(s, IF src[s] = 0 THEN 0 ELSE Fresh)
Destroy(s) == src[s] # -1 /\ Set(s, 0)
\* what reset() does to the tokens of a source that is not destroyed is left open
Reset(s) == src[s] # -1 /\ \/ Set(s, Fresh)
                           \/ src[s] # 0 /\ UNCHANGED tvars
MoveC(s, d) == /\ s # d /\ src[s] # -1 /\ src[d] = -1
               /\ src' = [src EXCEPT ![d] = src[s], ![s] = 0] /\ UNCHANGED tok
\* self-assignment may keep the source or leave it destroyed
MoveA(s, d) == /\ src[s] # -1 /\ src[d] # -1 /\ UNCHANGED tok
               /\ IF s = d THEN src' = src \/ src' = [src EXCEPT ![s] = 0]
                  ELSE src' = [src EXCEPT ![d] = src[s], ![s] = 0]
SetT(t, v) == tok' = [tok EXCEPT ![t] = v] /\ UNCHANGED src
Issue(t, s) == tok[t] = -1 /\ src[s] # -1 /\ SetT(t, src[s])
TCopy(t, u) == tok[t] # -1 /\ tok[u] = -1 /\ SetT(u, tok[t])
TAssign(t, u) == tok[t] # -1 /\ tok[u] # -1 /\ SetT(u, tok[t])
TDel(t) == tok[t] # -1 /\ SetT(t, -1)

\* --- what must hold
\* once cancelled, a token stays so; nothing but cancel, destroy, reset, a move onto or the end of its own source does it
Stays == [][\A t \in Toks : (tok[t] # -1 /\ tok'[t] = tok[t] /\ Cancelled(t)) => Cancelled(t)']_tvars
Identities == \A s, d \in Srcs : (s # d /\ src[s] > 0) => src[s] # src[d]
OnlyOwnSource == [][\A t \in Toks : (tok[t] # -1 /\ tok'[t] = tok[t] /\ ~Cancelled(t) /\ Cancelled(t)')
                      => \E s \in Srcs : src[s] = tok[t] /\ src'[s] # src[s]]_tvars
=============================================================================
