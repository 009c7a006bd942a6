----------------------------- MODULE TraceConnect -----------------------------
EXTENDS Connect, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == CInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
Set(q) == {q[i] : i \in 1 .. Len(q)}
QueryOf == [host |-> E.host, service |-> E.service, flags |-> E.flags]
Action ==
  \/ Is("start") /\ Start(E.form, E.plan, E.rerr, QueryOf, E.held)
  \/ Is("resolve") /\ Resolve(QueryOf)
  \/ Is("attempt") /\ Attempt(E.i)
  \/ Is("user") /\ Intervene(E.a)
  \/ Is("done") /\ Finish(E.e, E.ep, E.remote, Set(E.seen), Set(E.alive), E.prior) /\ ~E.inl /\ E.times = 1 /\ Len(E.seen) = Cardinality(Set(E.seen))
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<cvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
