------------------------------ MODULE TraceSocks ------------------------------
EXTENDS Socks, TLC, Json, IOUtils
CONSTANT Aspect                          \* "request", "verdict" or "consumed": the part that is judged
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == SInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
OpOf == [k |-> E.k, cmd |-> E.cmd, addr |-> E.addr, port |-> E.port, host |-> E.host, user |-> E.user, pass |-> E.pass, meths |-> E.meths]
Action ==
  \/ Is("start") /\ Start(OpOf)
  \/ Is("peer") /\ Peer(E.b)
  \/ Is("w") /\ Write(E.b) /\ (Aspect = "request" => WriteOk(E.b) /\ fault = "none")
  \/ Is("r") /\ Read(E.b)
  \/ Is("fail") /\ Fail(E.e)
  \/ Is("done") /\ Done
       /\ (Aspect = "request" => DoneRequest(E.e))
       /\ (Aspect = "verdict" => DoneVerdict(E.e, E.m) /\ ~E.inl /\ E.times = 1)
       /\ (Aspect = "consumed" => DoneConsumed(E.e))
  \* the operation is still waiting when the peer has nothing more to say
  \/ Is("end") /\ UNCHANGED svars /\ (E.pending <=> Busy) /\ (E.pending /\ Aspect \in {"verdict", "consumed"} => Waits) /\ (E.pending /\ Aspect = "request" => Requested) /\ (Aspect = "consumed" => inq = E.b) /\ E.bad = 0
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
