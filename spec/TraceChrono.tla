----------------------------- MODULE TraceChrono -----------------------------
EXTENDS Chrono, TLC, Json, IOUtils, FiniteSets
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == ChInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
Action ==
  \/ Is("dec") /\ Split(E.v, E.pd, E.pf, E.ps, E.rf, E.rs, E.m # Zero, E.ok, E.f, E.s, E.q, E.r) /\ (E.m # Zero => Mul(E.m, E.ps) = E.pd)
  \/ Is("cmp") /\ Join(E.f, E.s, E.pd, E.pf, E.ps, E.rd, E.ok, E.v)
  \* putting back together what was split: the same time again
  \/ Is("back") /\ E.ok /\ E.v = E.was /\ last = <<"split", E.f, E.s>> /\ Join(E.f, E.s, E.pd, E.pf, E.ps, E.rd, E.ok, E.v)
  \/ Is("cast") /\ Cast(E.v, E.pi, E.po, E.ro, E.num, E.den, E.ok, E.o)
  \/ Is("from") /\ FromTimeT(E.t, E.p)
  \/ Is("to") /\ ToTimeT(E.p, E.t)
  \/ Is("now") /\ Now(E.a, E.n, E.b)
  \/ Is("round") /\ E.t = E.u /\ Note(<<"round">>)
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<last, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
