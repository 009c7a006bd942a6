------------------------ MODULE TraceBufferedStream ------------------------
EXTENDS BufferedStream, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
D(d) == [id |-> d.id, n |-> d.n, err |-> d.err, ctx |-> d.ctx]
Action ==
  \/ Is("new") /\ New(E.mw, E.mr)
  \/ Is("append") /\ Append_(E.n, E.r = "ok") /\ E.r \in {"ok", "length_error"}
  \/ Is("flush") /\ Flush(Len(E.out), E.ret, E.seen) /\ wbn' = Len(E.wb)
  \/ Is("fill") /\ Fill(E.ret.n, E.ret, E.seen)
  \/ Is("aflush") /\ AFlush(E.id, E.ex) /\ wbn' = Len(E.wb)
  \/ Is("afill") /\ AFill(E.id, E.ex)
  \/ Is("fstep") /\ FStep(E.n, E.err)
  \/ Is("rstep") /\ RStep(E.n, E.err)
  \/ Is("consume") /\ Consume(E.n)
  \/ Is("cancel") /\ Cancel(E.id, E.won, E.ron, E.whit, E.rhit)
  \/ Is("close") /\ CloseS /\ E.r = "ok"
  \/ Is("reopen") /\ Reopen
  \/ Is("poll") /\ Poll({D(E.done[i]) : i \in 1 .. Len(E.done)})
Observed ==
  /\ E.out = out'
  /\ E.wb = WrSeq(app' - wbn', app')
  /\ (fi'.id = 0) => E.rb = rb'
  /\ E.can = (fl'.id = 0 /\ app' > base')
  /\ E.pend = (fl'.id # 0)
  /\ Len(E.done) = Cardinality(done')
  /\ \A i \in 1 .. Len(E.done) : ~E.done[i].inl
  /\ E.bad = <<>>
  /\ NeverAhead'
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
