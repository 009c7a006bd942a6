--------------------------- MODULE TraceDynBuffer ---------------------------
EXTENDS DynBuffer, TLC, Json, IOUtils, FiniteSets
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o

Step ==
  \/ Is("view") /\ View(E.max, IF E.v1 THEN "v1" ELSE "v2")
  \/ Is("vmove") /\ Move
  \/ Is("prepare") /\ Prepare(E.d, E.n, "length_error") /\ (ret' = "ok" => E.got = E.n /\ E.win)
  \/ Is("prepare_ec") /\ Prepare(E.d, E.n, "no_memory")
       /\ (ret' = "ok" => E.got = E.n /\ E.win) /\ (ret' # "ok" => E.got = 0)
  \/ Is("commit") /\ Commit(E.n)
  \/ Is("consume") /\ Consume(E.n)
  \/ Is("grow") /\ Grow(E.d, E.n) /\ (ret' = "ok" => E.got = E.n /\ E.win)
  \/ Is("shrink") /\ Shrink(E.n)
  \/ Is("data") /\ Move /\ E.v = Region(E.pos, E.n) /\ E.got = Len(E.v) /\ E.win

Observed ==
  /\ E.r = ret'
  /\ E.size = Len(inp') /\ E.dsize = Len(inp') /\ E.cdsize = Len(inp')
  /\ E.inp = inp' /\ E.same /\ E.in
  /\ E.vmax = vmax'
  /\ E.cap = Min(E.lbcap, vmax') /\ E.cap >= Len(inp' \o out')
  /\ E.lb = inp' \o out'

TraceNext == /\ l <= Len(Ev)
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ \/ Is("buffer") /\ Buffer(E.d, E.max)
                \/ Step /\ Observed
             /\ WithinLimit'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
