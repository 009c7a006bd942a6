--------------------------- MODULE TraceWholeFile ---------------------------
EXTENDS WholeFile, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == WFInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
F == E.f
Inj == [i \in 1 .. Len(E.injerr) |-> <<E.injfn[i], E.injerr[i]>>]
Action ==
  \/ Is("file") /\ Put(F, E.files[F])
  \/ Is("rraw") /\ ReadRaw(F, E.path, E.from, E.max, E.grows, Inj, E.got, E.err, E.at)
  \/ Is("rbuf") /\ ReadBuf(F, E.path, E.from, E.tot, Inj, E.got, E.err, E.at) /\ ~E.over
  \/ Is("write") /\ Write(F, E.q, Inj, E.intr > 0, E.err, E.files[F])
Observed == \A f \in Names : E.files[f] = file'[f]
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ (IF "left" \in DOMAIN E THEN E.left = 0 /\ E.badclose = 0 ELSE TRUE) /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<wfvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
