---------------------------- MODULE TraceHandles ----------------------------
EXTENDS Handles, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == HInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
S == E.s
Ok == E.err = "ok"
C == E.closed
Tab == {E.tab[i] : i \in 1 .. Len(E.tab)}
\* only what fails may be reported as failed
Honest == Ok \/ E.inj > 0
Action ==
  \/ Is("rawfd") /\ RawFd(S, E.own[S], <<>>)
  \/ Is("new") /\ New(S, E.k, C)
  \/ Is("own") /\ Own(S, E.from, C)
  \/ Is("uopen") /\ Honest /\ Made(S, E.own[S], Ok, E.kinds[S] = "u", C)
  \/ Is("udup") /\ (Ok \/ E.inj > 0 \/ Fd(E.from) = -1) /\ Made(S, E.own[S], Ok, E.kinds[S] = "u", C)
  \/ Is("del") /\ Delete(S, C)
  \/ Is("mctor") /\ MoveCtor(S, E.from, C)
  \/ Is("massign") /\ Honest /\ MoveAssign(S, E.from, Ok, C)
  \/ Is("oassign") /\ \E n \in {E.own[S], IF Len(C) > 0 THEN C[Len(C)] ELSE -1} :
       /\ OpenAssign(S, n, Ok, C) /\ (Ok \/ E.inj > 0) /\ (n = -1 => E.open # "ok" /\ E.inj > 0) /\ (n # -1 => E.open = "ok")
  \/ Is("close") /\ (Ok <=> E.inj = 0) /\ Close(S, Ok, C)
  \/ Is("clear") /\ Clear(S, C)
  \/ Is("get") /\ Get(S, E.from, C)
  \/ Is("hcopy") /\ HCopy(S, E.from, C)
  \/ Is("release") /\ Release(S, E.from, C)
  \/ Is("reset") /\ Honest /\ Reset(S, E.from, Ok, C)
Observed ==
  /\ Tab = tab'
  /\ \A s \in Slots : E.kinds[s] = obj'[s].k /\ E.own[s] = obj'[s].fd /\ E.isopen[s] = (obj'[s].fd # -1)
  /\ OneOwner' /\ OwnedOpen'
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ (IF "badclose" \in DOMAIN E THEN E.badclose = 0 ELSE Is("rawfd")) /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<hvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
