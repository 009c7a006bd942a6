--------------------------- MODULE TraceFileOpen ---------------------------
EXTENDS FileOpen, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == tid \in 1 .. Len(Traces) /\ l = 1 /\ fs = [n \in Names |-> Absent]
Seen(n) == IF n \in DOMAIN E.fs THEN E.fs[n] ELSE Absent
Action ==
  \/ E.op \in {"mk", "rm"}
  \/ /\ E.op = "lopen"
     /\ Validity(E.flags, E.valid, E.argsvalid)
     /\ \/ Open(E.name, E.flags, E.perms, E.umask, E.err, E)
        \/ E.inj > 0 /\ Refused(E.err, E)
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ fs' = [n \in Names |-> Seen(n)] /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<fs, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
