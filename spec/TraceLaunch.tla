----------------------------- MODULE TraceLaunch -----------------------------
EXTENDS Launch, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == tid \in 1 .. Len(Traces) /\ l = 2 /\ Traces[tid].ev[1].op = "new" /\ LInit(Traces[tid].ev[1].init)
Is(o) == E.op = o
Silent == E.wire = <<>> /\ E.acc = <<>>
Action ==
  \/ Is("start") /\ E.tok \in Eager /\ StartEager(E.id, E.o, E.tok, E.res, E.mem, E.wire, E.acc)
  \/ Is("start") /\ E.tok \in Lazy /\ StartLazy(E.id, E.o, E.tok) /\ Silent
  \/ Is("spoil") /\ Spoil(E.id) /\ Silent
  \/ Is("drop") /\ Drop(E.id) /\ Silent /\ E.times = 0
  \/ Is("launch") /\ Run(E.id, E.bound, E.keep, E.res, E.mem, E.wire, E.acc)
  \/ Is("put") /\ Put(E.b) /\ Silent
  \/ Is("cancel") /\ Cancel /\ Silent
  \/ Is("reopen") /\ Reopen /\ Silent
  \/ Is("take") /\ Take(E.n) /\ Silent
  \/ Is("feed") /\ Feed(E.b) /\ Silent
Seen == disk' = E.disk /\ pos' = E.pos /\ wb' = E.wb /\ rb' = E.rb /\ ~E.fp
  \* the memory SOCKS operations share holds nothing while none of them is running
  /\ E.scratch = 0
  \* the socket of an operation that has not been launched is as it was
  /\ E.touched = 0
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Seen
TraceSpec == TraceInit /\ [][TraceNext]_<<lvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
