---------------------------- MODULE TraceFileMeta ----------------------------
EXTENDS FileMeta, TLC, Json, IOUtils
VARIABLES tid, l, pos
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == mode = {} /\ atime = Epoch /\ mtime = Epoch /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ pos = <<>>
Is(o) == E.op = o
\* the preparations, made by the harness
Prep == E.op \in {"mkf1", "open"}
Action ==
  \/ Prep /\ mode' = Bits(E.mode) /\ atime' = E.atime /\ mtime' = E.mtime
  \/ Is("rawtimes") /\ Elsewhere(E.atime, E.mtime)
  \/ Is("setperm") /\ SetPerm(Bits(E.perms), E.opt, E.err)
  \/ Is("getperm") /\ GetPerm(Bits(E.ret), E.err) /\ E.ret < 4096
  \/ Is("settimes") /\ SetTimes(E.a, E.m, E.err)
  \/ Is("gettimes") /\ GetTimes(E.a, E.m, E.err) /\ E.eq
  \/ Is("attrs") /\ Attributes(E.ret, E.err)
  \/ Is("seek") /\ E.err = "ok" /\ UNCHANGED mtvars
Observed ==
  /\ Bits(E.mode) = mode' /\ E.atime = atime' /\ E.mtime = mtime'
  /\ E.size = 10 /\ E.content = <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57>>
  /\ (~Prep /\ ~Is("seek") => E.pos = pos)
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ pos' = E.pos /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<mtvars, tid, l, pos>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
