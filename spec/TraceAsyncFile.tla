--------------------------- MODULE TraceAsyncFile ---------------------------
EXTENDS AsyncFile, TLC, Json, IOUtils
CONSTANT Check
VARIABLES tid, l
InitialDisk == <<<<97, 98, 99>>, <<119, 120, 121, 122>>, <<>>>>
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))

Action ==
  \/ Is("ctx") /\ Ctxs(E.n)
  \/ Is("new") /\ New(E.s, E.c, E.x)
  \/ Is("nat") /\ Adopt(E.s, E.c, E.x, E.p)
  \/ Is("ctor") /\ Ctor(E.s, E.c, E.x, E.p, E.thr)
  \/ Is("open") /\ (Open(E.s, E.p, E.thr) \/ Reopen(E.s, E.p, E.thr))
  \/ Is("close") /\ Close(E.s, E.thr)
  \/ Is("cancel") /\ Cancel(E.s, E.thr)
  \/ Is("mc") /\ MoveC(E.s, E.t)
  \/ Is("ma") /\ MoveA(E.s, E.t)
  \/ Is("del") /\ Del(E.s)
  \/ Is("rd") /\ E.h = Len(ops) + 1 /\ Start(E.s, FALSE, E.off, <<>>, Sum(E.sizes), E.hc, E.ht, E.own = 2)
  \/ Is("wr") /\ E.h = Len(ops) + 1 /\ Start(E.s, TRUE, E.off, E.data, Sum(E.sizes), E.hc, E.ht, E.own = 2)
  \/ Is("step") /\ Step(E.c, [f |-> E.f, k |-> E.k])
  \/ Is("begin") /\ Begin(E.c, E.held)
  \/ Is("commit") /\ Commit(E.c, E.held)
  \/ Is("end") /\ End(E.c)
  \/ Is("poll") /\ Poll(E.c)
  \/ Is("drop") /\ Drop(E.c)
  \/ Is("steal") /\ Steal

\* --- observations
Delivered == {j \in 1 .. Len(ops') : ops'[j].st = "called" /\ (j > Len(ops) \/ ops[j].st # "called")}
Gone == {j \in 1 .. Len(ops') : ~Active(ops'[j]) /\ (j > Len(ops) \/ Active(ops[j]))}
Ids(hs) == {hs[i].h : i \in 1 .. Len(hs)}
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
HandlerOK ==
  /\ Ids(E.hs) = Delivered /\ Len(E.hs) = Cardinality(Delivered)
  /\ \A i \in 1 .. Len(E.hs) :
       LET h == E.hs[i] IN h.ctx = ops'[h.h].hc /\ h.tag = ops'[h.h].ht /\ ~h.init
BusyOK == Is("poll") => E.busy = Busy(E.c)
Known == {i \in 1 .. Len(E.hs) : E.hs[i].h \in Delivered}
ResultOK == \A i \in Known :
  LET h == E.hs[i] o == ops'[h.h] IN ~o.canc => h.ec = o.ec /\ h.n = o.rn /\ h.buf = o.buf
CancelOK == \A i \in Known :
  LET h == E.hs[i] o == ops'[h.h] IN (h.ec = "aborted") = o.canc /\ (o.canc => h.n = 0 /\ h.buf = o.buf)
DelsOK == SeqSet(E.dels) = Gone /\ Len(E.dels) = Cardinality(Gone)
DiskOK == E.disk = disk'
DecoyOK == E.decoy \in {"none", "ok"}
RetOK == "r" \in DOMAIN E => E.r = ret'
Files == {slot'[s] : s \in {t \in Slots : slot'[t].p # 0}}
           \cup {ops'[j].own : j \in {k \in 1 .. Len(ops') : Active(ops'[k]) /\ ops'[k].own.p # 0}}
StateOK ==
  /\ \A s \in Slots :
       LET f == slot'[s] o == E.slots[s] IN
       IF f.c = 0 THEN o = -2
       ELSE IF f.p = 0 THEN o = -1
       ELSE o >= 0 /\ \E i \in 1 .. Len(E.fds) : E.fds[i] = <<o, f.p, f.pos>>
  /\ \A s, t \in Slots : (s # t /\ E.slots[s] >= 0) => E.slots[s] # E.slots[t]
  /\ Len(E.fds) = Cardinality(Files)
  /\ \A f \in Files : Cardinality({g \in Files : g.p = f.p /\ g.pos = f.pos})
       = Cardinality({i \in 1 .. Len(E.fds) : E.fds[i][2] = f.p /\ E.fds[i][3] = f.pos})
  /\ E.badclose = 0
  /\ Is("nat") => E.slots[E.s] = E.fd
\* the executor a file reports is the one it was made with, and moves with it
ExecOK == \A s \in Slots : slot'[s].c # 0 => E.exs[s] = <<slot'[s].c, slot'[s].x>>

Observed ==
  /\ "exec" \in Check => ExecOK
  /\ "handler" \in Check => HandlerOK
  /\ "busy" \in Check => BusyOK
  /\ "result" \in Check => ResultOK
  /\ "cancel" \in Check => CancelOK
  /\ "dels" \in Check => DelsOK
  /\ "disk" \in Check => DiskOK
  /\ "decoy" \in Check => DecoyOK
  /\ "ret" \in Check => RetOK
  /\ "state" \in Check => StateOK

TraceNext ==
  /\ l <= Len(Ev)
  /\ \/ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
     \/ Is("drop") /\ Late(E.c) /\ UNCHANGED <<tid, l>>
  /\ Safe'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
