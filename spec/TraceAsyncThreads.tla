------------------------ MODULE TraceAsyncThreads ------------------------
EXTENDS AsyncThreads, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == TInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
\* the handler saw what its outcome says: the whole transfer, or nothing
DataOK == IF E.ec = "ok" THEN E.n = E.want /\ E.data = "done" ELSE E.n = 0 /\ E.data = "untouched"
Fresh(o) == o = Len(op) + 1
Action ==
  \/ Is("new") /\ E.r = "ok" /\ Make(E.t, E.s, E.c, FALSE)
  \/ Is("ctor") /\ E.r = "ok" /\ Make(E.t, E.s, E.c, TRUE)
  \/ Is("open") /\ E.r = "ok" /\ Open(E.t, E.s)
  \/ Is("start") /\ Fresh(E.o) /\ Start(E.t, E.s, E.w, E.hc, E.takes)
  \/ Is("next") /\ Fresh(E.o) /\ Next1(E.from, FALSE)
  \/ Is("endfile") /\ EndFile(E.o)
  \/ Is("cancel") /\ E.r = "ok" /\ Cancel(E.t, E.s)
  \/ Is("close") /\ E.r = "ok" /\ Close(E.t, E.s)
  \/ Is("del") /\ Del(E.t, E.s)
  \/ Is("mc") /\ MoveC(E.t, E.s, E.d)
  \/ Is("ma") /\ MoveA(E.t, E.s, E.d)
  \/ Is("call") /\ ~E.inside /\ DataOK /\ Call(E.o, E.ec, E.c)
  \/ Is("drop") /\ Discard(E.o)
  \/ Is("drained") /\ Drained
  \/ Is("stop") /\ Stop
  \/ Is("gone") /\ Gone
  \/ Is("end") /\ phase = "gone" /\ UNCHANGED tvars
       /\ E.badclose = 0 /\ E.leaked = 0
       /\ \A o \in 1 .. Len(op) : op[o].w => E.written[o] \in Written(o)
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
