------------------------------- MODULE TraceUrl -------------------------------
EXTENDS Url, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == UInit /\ tid \in 1 .. Len(Traces) /\ l = 1
\* "x##y": whether the second # belongs to the fragment is left open
RECURSIVE NoHash(_)
NoHash(f) == IF f # <<>> /\ f[1] = Hash THEN NoHash(Tail(f)) ELSE f
Result == LET P == Parse(E.in) IN
  /\ E.same /\ E.inside /\ E.blank /\ E.copied /\ E.truth = E.valid
  /\ IF E.ok
     THEN /\ P.v # "reject"
          /\ E.scheme = P.scheme /\ E.userinfo = P.userinfo /\ E.host = P.host /\ E.path = P.path /\ E.query = P.query
          /\ E.fragment \in {P.fragment, NoHash(P.fragment)}
          /\ PortOk(P, E.port, E.pv)
          /\ (E.in # <<>> => E.valid)
     ELSE /\ P.v # "accept" /\ ~E.valid /\ ~E.badcat
          /\ E.scheme = <<>> /\ E.userinfo = <<>> /\ E.host = <<>> /\ E.path = <<>> /\ E.query = <<>> /\ E.fragment = <<>> /\ E.port = <<>> /\ E.pv = 0
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED <<tid, uvars>> /\ E.op = "url" /\ Result
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
