--------------------------- MODULE MCAsyncThreads ---------------------------
\* The pool made explicit: at most NPool operations of a context run at a time, in
\* the order they were queued, each checking for cancellation when it is picked up.
EXTENDS AsyncThreads, TLC, Json
CONSTANTS NCtx, NPool, MaxOp, Emitting
VARIABLES pool, last
mvars == <<tvars, pool, last>>
MCInit == TInit /\ pool = <<>> /\ last = <<"init">>
O(x) == last' = x
Same == UNCHANGED pool
N == Len(op)
More == N < MaxOp
\* cancelling reaches what the pool has not picked up
PoolCancel(tok) == pool' = [o \in 1 .. N |->
  IF op[o].tok = tok /\ pool[o].st = "queued" THEN [pool[o] EXCEPT !.canc = TRUE] ELSE pool[o]]
Q(c) == pool' = Append(pool, [st |-> "queued", svc |-> c, canc |-> FALSE])
Busy(c) == {o \in 1 .. Len(pool) : pool[o].st = "running" /\ pool[o].svc = c}
Waiting(c) == {o \in 1 .. Len(pool) : pool[o].st = "queued" /\ pool[o].svc = c}
PickUp(o) == /\ o \in 1 .. Len(pool) /\ pool[o].st = "queued"
  /\ Cardinality(Busy(pool[o].svc)) < NPool
  /\ \A x \in Waiting(pool[o].svc) : o <= x
  /\ pool' = [pool EXCEPT ![o].st = IF pool[o].canc THEN "aborted" ELSE "running"]
  /\ UNCHANGED tvars /\ O(<<"pool">>)
Finish(o) == /\ o \in 1 .. Len(pool) /\ pool[o].st = "running" /\ pool' = [pool EXCEPT ![o].st = "ok"]
  /\ UNCHANGED tvars /\ O(<<"pool">>)
Deliver(o) == /\ o \in 1 .. N /\ pool[o].st \in {"ok", "aborted"}
  /\ \E c \in 1 .. NCtx : Call(o, pool[o].st, c) /\ Same /\ O(<<"call">>)
User == \E t \in Thr, s \in Slots :
  \/ \E c \in 1 .. NCtx, o \in BOOLEAN : Make(t, s, c, o) /\ Same /\ O(<<IF o THEN "ctor" ELSE "new", s, c>>)
  \/ Open(t, s) /\ Same /\ O(<<"open", s>>)
  \/ \E w \in BOOLEAN, hc \in 0 .. NCtx : More /\ Start(t, s, w, hc, FALSE) /\ Q(slot[t][s].c)
       /\ O(<<IF w THEN "wr" ELSE "rd", s, hc>>)
  \/ More /\ Start(t, s, FALSE, 0, TRUE) /\ Q(slot[t][s].c) /\ O(<<"take", s>>)
  \/ Cancel(t, s) /\ PoolCancel(slot[t][s].tok) /\ O(<<"cancel", s>>)
  \/ Close(t, s) /\ PoolCancel(slot[t][s].tok) /\ O(<<"close", s>>)
  \/ phase = "run" /\ Exists(t, s) /\ Del(t, s) /\ PoolCancel(slot[t][s].tok) /\ O(<<"del", s>>)
  \/ \E d \in Slots : MoveC(t, s, d) /\ Same /\ O(<<"mc", s, d>>)
  \/ \E d \in Slots : MoveA(t, s, d) /\ PoolCancel(slot[t][d].tok) /\ O(<<"ma", s, d>>)
Handlers == \E o \in 1 .. N :
  \/ More /\ Next1(o, FALSE) /\ Q(own[o].c) /\ O(<<"next">>)
  \/ EndFile(o) /\ Same /\ O(<<"endfile">>)
Teardown ==
  \/ Stop /\ Same /\ O(<<"stop">>)
  \/ phase = "stopping" /\ \E t \in Thr, s \in Slots : Exists(t, s) /\ Del(t, s) /\ PoolCancel(slot[t][s].tok)
       /\ O(<<"del">>)
  \/ \E o \in 1 .. N : pool[o].st # "running" /\ Discard(o) /\ Same /\ O(<<"drop">>)
  \/ Gone /\ Same /\ O(<<"gone">>)
PoolStep == \E o \in 1 .. MaxOp : PickUp(o) \/ Finish(o)
DeliverStep == \E o \in 1 .. MaxOp : Deliver(o)
MCNext == User \/ Handlers \/ Teardown \/ PoolStep \/ DeliverStep
MCSpec == MCInit /\ [][MCNext]_mvars
MCFair == MCSpec /\ WF_mvars(PoolStep) /\ WF_mvars(DeliverStep)
\* the set of outcomes a caller is told to expect always contains the real one
Promise == \A o \in 1 .. N : pool[o].st \in {"ok", "aborted"} => pool[o].st \in op[o].may
PoolSize == \A c \in 1 .. NCtx : Cardinality(Busy(c)) <= NPool
\* a transfer never meets a file that has been closed or destroyed
RunsOnOpen == phase = "run" => \A o \in 1 .. N : pool[o].st = "running" =>
  \/ \E t \in Thr, s \in Slots : slot[t][s].tok = op[o].tok /\ slot[t][s].open
  \/ \E x \in 1 .. N : own[x].tok = op[o].tok /\ own[x].open
Once == \A o \in 1 .. N : op[o].st = "called" => op[o].res \in {"ok", "aborted"}
\* while nobody stops the contexts, every operation comes back
Completes == \A o \in 1 .. MaxOp : (o <= N /\ op[o].st = "pending") ~> (phase # "run" \/ (o <= N /\ op[o].st = "called"))
\* to generate what one thread may do: operations just come back
GenNext == User \/ \E o \in 1 .. N, c \in 1 .. NCtx : Call(o, "ok", c) /\ Same /\ O(<<"call">>)
GenSpec == MCInit /\ [][GenNext]_mvars
StateView == <<tvars, pool>>
Shape(f) == [c |-> f.c, open |-> f.open, n |-> Cardinality(PendingOn(f.tok))]
View1 == [t \in Thr |-> [s \in Slots |-> Shape(slot[t][s])]]
Small == phase = "run" /\ (\A t \in Thr, s \in Slots : Cardinality(PendingOn(slot[t][s].tok)) <= 2)
         /\ \A o \in 1 .. N : ~(op[o].st = "called" /\ own[o].c # 0)
Emit == (Emitting /\ Small') => PrintT("T " \o ToJson([f |-> View1, o |-> last', t |-> View1']))
EmitI == (Emitting /\ last = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
