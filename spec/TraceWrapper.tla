---------------------------- MODULE TraceWrapper ----------------------------
\* What: "identity" compares what is exposed, called, passed and destroyed;
\* "work" compares which contexts are kept running.
EXTENDS Wrapper, TLC, Json, IOUtils
CONSTANT What
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
Stack(ls) == [i \in 1 .. Len(ls) |-> [k |-> ls[i].k, args |-> ls[i].args, work |-> SeqSet(ls[i].work)]]
Action ==
  \/ Is("make") /\ Make(E.s, E.ex, E.al, Stack(E.ls))
  \/ Is("move") /\ Move(E.s, E.t)
  \/ Is("del") /\ Del(E.s)
  \/ Is("invoke") /\ Invoke(E.s, E.to, E.ds)
  \/ Is("post") /\ Post(E.s, E.c, E.to, E.ds)
  \/ Is("poll") /\ Poll(E.c)
Identity ==
  /\ \A s \in Slots : E.u[s] = IF w'[s].h = 0 THEN <<-1, -1, -1>>
                                  \* a handler with an allocator has the cancellation slot of the same number, one without has none
                                  ELSE <<hs'[w'[s].h].ex, hs'[w'[s].h].al, hs'[w'[s].h].al>>
  /\ Len(E.calls) = Len(calls')
  /\ \A i \in 1 .. Len(calls') : /\ E.calls[i].h = calls'[i].h /\ E.calls[i].args = calls'[i].args
                                 /\ E.calls[i].ctx = calls'[i].ctx
  /\ Len(E.impls) = Len(impls')
  /\ \A i \in 1 .. Len(impls') : E.impls[i].args = impls'[i].args /\ E.impls[i].ctx = impls'[i].ctx
  /\ SeqSet(E.dels) = dels' /\ Len(E.dels) = Cardinality(dels')
  /\ E.copies = IF Is("make") /\ E.lv THEN 1 ELSE 0
  /\ E.mem = 0
  /\ E.bad = <<>>
BusySet == {c \in Ctxs : Busy(c)}
KeepsBusy ==
  /\ E.probed => SeqSet(E.busy) = BusySet
  \* a wrapper whose handler was called holds no work any more, even before it is destroyed
  /\ E.kept => SeqSet(E.after) = BusySet
  \* all its work is still there while the handler runs
  /\ (Is("invoke") /\ E.probed) =>
        \A i \in 1 .. Len(calls') : calls'[i].work \subseteq SeqSet(E.calls[i].busy)
Observed == IF What = "identity" THEN Identity ELSE KeepsBusy
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<wvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
