------------------------------ MODULE TraceCodes ------------------------------
EXTENDS Codes, FiniteSets, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == tid \in 1 .. Len(Traces) /\ l = 2 /\ Traces[tid].ev[1].op = "new" /\ CInit
Is(o) == E.op = o
R(b) == E.r = (IF b THEN 1 ELSE 0)
Look ==
  /\ E.v = code[E.i].v /\ E.cat = code[E.i].cat /\ E.set = Set(E.i)
  /\ code[E.i].cat \in Own => E.msg = Message(E.i) /\ E.name = CatName(E.i) /\ E.told
Action ==
  \/ Is("make") /\ Make(E.i, E.cat, E.v)
  \/ Is("copy") /\ Copy(E.i, E.j)
  \/ Is("throw") /\ Copy(E.i, E.j)
  \/ Is("clear") /\ Clear(E.i)
  \/ Is("parse") /\ Parse(E.i, E.what)
  \/ Is("socks") /\ Reply(E.i, E.what, E.reply, E.version)
  \/ Is("same") /\ UNCHANGED code /\ R(SameAs(E.i, E.cat, E.v))
  \/ Is("equal") /\ UNCHANGED code /\ R(Equal(E.i, E.j))
  \/ Is("errc") /\ UNCHANGED code /\ (code[E.i].cat \in Own => ~E.r)
  \/ Is("look") /\ UNCHANGED code /\ Look
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action
TraceSpec == TraceInit /\ [][TraceNext]_<<code, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
