------------------------- MODULE TraceUniqueHandler -------------------------
EXTENDS UniqueHandler, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
Action ==
  \/ Is("empty") /\ Empty(E.s)
  \/ Is("ctor") /\ Ctor(E.s, E.a, E.d, E.k, E.fail)
  \/ Is("assign") /\ Set(E.s, E.a, E.d, E.k, E.fail)
  \/ Is("mc") /\ MoveC(E.s, E.t)
  \/ Is("ma") /\ MoveAs(E.s, E.t)
  \/ Is("complete") /\ Call(E.s)
  \/ Is("reset") /\ Reset(E.s)
  \/ Is("del") /\ Del(E.s)
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
Tracked == {h \in 1 .. Len(hs') : hs'[h].st = "stored" /\ hs'[h].k # 2}
Observed ==
  /\ E.r = ret'
  /\ E.calls = calls'
  /\ SeqSet(E.dels) = dels' /\ Len(E.dels) = Cardinality(dels')
  /\ \A s \in Slots : E.u[s] = IF u'[s] > 0 THEN 1 ELSE u'[s]
  /\ SeqSet(E.mem) = Tracked /\ Len(E.mem) = Cardinality(Tracked)
  /\ E.bad = <<>>
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<uvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
