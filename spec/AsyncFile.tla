----------------------------- MODULE AsyncFile -----------------------------
\* Asynchronous files on a thread pool service.
\*
\* Contexts own one file service each. A service's pool thread runs the
\* operations queued on it in order (Step); a finished operation's handler waits
\* in the context of its executor until that context is polled (Poll). Files sit
\* in slots; one may also be owned by the handler of its own pending operation.
\* An operation belongs to a file by identity (tok): moving a file moves its
\* pending operations with it.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NSlot, NCtx, Disk0, LateTransfers
VARIABLES alive, slot, disk, ops, ret
vars == <<alive, slot, disk, ops, ret>>

NoFile == [c |-> 0, x |-> 0, p |-> 0, pos |-> 0, tok |-> 0]
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
Slots == 1 .. NSlot
Active(o) == o.st \in {"queued", "committed", "running", "done"}
Exists(s) == slot[s].c # 0
IsOpen(f) == f.p # 0

Used == {slot[s].tok : s \in Slots} \cup {ops[j].tok : j \in {k \in 1 .. Len(ops) : Active(ops[k])}}
          \cup {ops[j].own.tok : j \in {k \in 1 .. Len(ops) : Active(ops[k])}}
Fresh == CHOOSE n \in 1 .. (Cardinality(Used) + 1) : n \notin Used

Init == /\ alive = {} /\ slot = [s \in Slots |-> NoFile] /\ disk = Disk0 /\ ops = <<>> /\ ret = "ok"

\* every operation of the files toks that is still waiting for the pool; one that is
\* past that but has not made its transfer remembers what happened to its file
Reach(os, toks, how) == [j \in 1 .. Len(os) |->
  IF os[j].tok \notin toks THEN os[j]
  ELSE IF os[j].st = "queued" THEN [os[j] EXCEPT !.canc = TRUE]
  ELSE IF os[j].st = "committed" /\ os[j].late # "closed" THEN [os[j] EXCEPT !.late = how]
  ELSE os[j]]
CancelTok(os, toks) == Reach(os, toks, "closed")

Ctxs(n) == /\ alive = {} /\ alive' = 1 .. n /\ ret' = "ok" /\ UNCHANGED <<slot, disk, ops>>

Put(s, c, x, p) == slot' = [slot EXCEPT ![s] = [c |-> c, x |-> x, p |-> p, pos |-> 0, tok |-> Fresh]]
New(s, c, x) == /\ c \in alive /\ ~Exists(s) /\ Put(s, c, x, 0) /\ ret' = "ok" /\ UNCHANGED <<alive, disk, ops>>
Adopt(s, c, x, p) == /\ c \in alive /\ ~Exists(s) /\ p # 0 /\ Put(s, c, x, p)
                   /\ ret' = "ok" /\ UNCHANGED <<alive, disk, ops>>
Fail(r, thr) == IF thr /\ r # "ok" THEN "throw:" \o r ELSE r
Ctor(s, c, x, p, thr) ==
  /\ c \in alive /\ ~Exists(s)
  /\ IF p = 0 /\ thr THEN UNCHANGED slot ELSE Put(s, c, x, p)
  /\ ret' = IF p = 0 THEN Fail("noent", thr) ELSE "ok"
  /\ UNCHANGED <<alive, disk, ops>>
Open(s, p, thr) ==
  /\ Exists(s) /\ ~IsOpen(slot[s])
  /\ slot' = [slot EXCEPT ![s].p = p, ![s].pos = 0]
  /\ ret' = IF p = 0 THEN Fail("noent", thr) ELSE "ok"
  /\ UNCHANGED <<alive, disk, ops>>
\* A file that is open already is left alone, or closed first (the documentation says the latter).
Reopen(s, p, thr) ==
  /\ Exists(s) /\ IsOpen(slot[s])
  /\ \/ ret' = Fail("already_open", thr) /\ UNCHANGED <<slot, ops>>
     \/ /\ slot' = [slot EXCEPT ![s].p = p, ![s].pos = 0]
        /\ ops' = CancelTok(ops, {slot[s].tok})
        /\ ret' = IF p = 0 THEN Fail("noent", thr) ELSE "ok"
  /\ UNCHANGED <<alive, disk>>
Close(s, thr) ==
  /\ Exists(s)
  /\ slot' = [slot EXCEPT ![s].p = 0, ![s].pos = 0]
  /\ ops' = IF IsOpen(slot[s]) THEN CancelTok(ops, {slot[s].tok}) ELSE ops
  /\ ret' \in IF IsOpen(slot[s]) THEN {"ok"} ELSE {"ok", Fail("badf", thr)}
  /\ UNCHANGED <<alive, disk>>
Pending(tok) == \E j \in 1 .. Len(ops) : ops[j].st = "queued" /\ ops[j].tok = tok
Cancel(s, thr) ==
  /\ Exists(s) /\ (IsOpen(slot[s]) \/ ~Pending(slot[s].tok))
  /\ ops' = Reach(ops, {slot[s].tok}, "cancel")
  /\ ret' = IF IsOpen(slot[s]) THEN "ok" ELSE Fail("badf", thr)
  /\ UNCHANGED <<alive, disk, slot>>
Moved(f) == [f EXCEPT !.p = 0, !.pos = 0, !.tok = Fresh]
MoveC(s, t) ==
  /\ Exists(s) /\ ~Exists(t)
  /\ slot' = [slot EXCEPT ![t] = slot[s], ![s] = Moved(slot[s])]
  /\ ret' = "ok" /\ UNCHANGED <<alive, disk, ops>>
MoveA(s, t) ==
  /\ Exists(s) /\ Exists(t)
  /\ IF s = t THEN UNCHANGED <<slot, ops>>
     ELSE /\ slot' = [slot EXCEPT ![t] = slot[s], ![s] = Moved(slot[s])]
          /\ ops' = CancelTok(ops, {slot[t].tok})
  /\ ret' = "ok" /\ UNCHANGED <<alive, disk>>
Del(s) ==
  /\ slot' = [slot EXCEPT ![s] = NoFile]
  /\ ops' = IF Exists(s) THEN CancelTok(ops, {slot[s].tok}) ELSE ops
  /\ ret' = "ok" /\ UNCHANGED <<alive, disk>>

\* w: write data, otherwise read n bytes; off = -1: at the file position;
\* hc = 0: the handler has no executor of its own; own: the handler takes the file
Start(s, w, off, data, n, hc, ht, own) ==
  /\ Exists(s) /\ (hc = 0 \/ hc \in alive)
  /\ LET f == slot[s] IN
     ops' = Append(ops, [tok |-> f.tok, svc |-> f.c, p |-> f.p, w |-> w, off |-> off, data |-> data, n |-> n,
                         hc |-> IF hc = 0 THEN f.c ELSE hc, ht |-> IF hc = 0 THEN f.x ELSE ht,
                         own |-> IF own THEN f ELSE NoFile, st |-> "queued", canc |-> FALSE, late |-> "no",
                         ec |-> "none", rn |-> 0, buf |-> <<>>])
  /\ slot' = IF own THEN [slot EXCEPT ![s] = NoFile] ELSE slot
  /\ ret' = "ok" /\ UNCHANGED <<alive, disk>>

\* --- running an operation
\* places further away than any file can be long (beyond 31 or 32 bits)
Far == 1000000
Filler(n) == [i \in 1 .. n |-> 238]
Owner(tok) == IF \E s \in Slots : slot[s].tok = tok THEN slot[CHOOSE s \in Slots : slot[s].tok = tok]
              ELSE ops[CHOOSE j \in 1 .. Len(ops) : Active(ops[j]) /\ ops[j].own.tok = tok].own
Splice(c, at, d) == [i \in 1 .. Max(Len(c), at + Len(d)) |->
  IF i > at /\ i <= at + Len(d) THEN d[i - at] ELSE IF i <= Len(c) THEN c[i] ELSE 0]
OpenFiles == {slot[s] : s \in {t \in Slots : IsOpen(slot[t])}}
             \cup {ops[j].own : j \in {k \in 1 .. Len(ops) : Active(ops[k]) /\ IsOpen(ops[k].own)}}
\* The known finding (A02): a transfer whose file was closed after the operation had been taken up
\* goes to whatever file has got the descriptor number since.
Elsewhere == IF LateTransfers THEN OpenFiles ELSE {}
\* What the operation o may do to disk d: [ec, n, buf, adv, disk]. A fault f meets
\* its transfer: an I/O error, an interruption, or at most k bytes go through.
NoFault == [f |-> "none", k |-> 0]
Effects(o, d, ft) ==
  LET blank == IF o.w THEN o.data ELSE Filler(o.n)
      none(ec) == [ec |-> ec, n |-> 0, buf |-> blank, adv |-> 0, tok |-> o.tok, disk |-> d]
      injected == IF ft.f = "err" THEN {none("io")} ELSE IF ft.f = "intr" THEN {none("intr")} ELSE {}
      \* the transfer between the buffers and the file f
      done(f) ==
        LET at == IF o.off < 0 THEN f.pos ELSE o.off
            c == d[f.p]
            want == IF ft.f = "cap" THEN Min(ft.k, o.n) ELSE o.n
            k == Min(want, Max(0, Len(c) - at))
        IN IF o.w /\ o.off >= Far /\ want > 0 THEN none("fbig")
           ELSE IF o.w
           THEN [ec |-> "ok", n |-> want, buf |-> o.data, adv |-> IF o.off < 0 THEN want ELSE 0, tok |-> f.tok,
                 disk |-> IF want = 0 THEN d ELSE [d EXCEPT ![f.p] = Splice(c, at, SubSeq(o.data, 1, want))]]
           ELSE IF o.n > 0 /\ k = 0 THEN none("eof")
           ELSE [ec |-> "ok", n |-> k, buf |-> [i \in 1 .. o.n |-> IF i <= k THEN c[at + i] ELSE 238],
                 adv |-> IF o.off < 0 THEN k ELSE 0, tok |-> f.tok, disk |-> d]
  IN IF o.canc THEN {none("aborted")}
     ELSE IF o.late = "closed" THEN {none("aborted"), none("badf")} \cup {done(f) : f \in Elsewhere}
     ELSE IF o.p = 0 THEN {none("badf")} \cup injected
     ELSE IF ft.f = "err" /\ o.n > 0 THEN injected
     ELSE {done(Owner(o.tok))} \cup injected \cup (IF o.late = "cancel" THEN {none("aborted")} ELSE {})
Queue(c) == {j \in 1 .. Len(ops) : ops[j].st = "queued" /\ ops[j].svc = c}
Running(c) == {j \in 1 .. Len(ops) : ops[j].st \in {"running", "committed"} /\ ops[j].svc = c}
First(S) == CHOOSE j \in S : \A k \in S : j <= k
\* the pool runs operation j, up to its transfer (st = "running") or to its end
Ran(j, ft, st) == \E r \in Effects(ops[j], disk, ft) :
  LET adv(f) == IF f.tok = r.tok /\ f.c # 0 /\ r.adv # 0 THEN [f EXCEPT !.pos = @ + r.adv] ELSE f
  IN /\ disk' = r.disk
     /\ slot' = [s \in Slots |-> adv(slot[s])]
     /\ ops' = [i \in 1 .. Len(ops) |->
          LET o == [ops[i] EXCEPT !.own = IF Active(ops[i]) THEN adv(@) ELSE @]
          IN IF i = j THEN [o EXCEPT !.st = st, !.ec = r.ec, !.rn = r.n, !.buf = r.buf, !.canc = (r.ec = "aborted"), !.late = "no"] ELSE o]
Step(c, ft) ==
  /\ c \in alive /\ Running(c) = {} /\ ret' = "ok" /\ UNCHANGED alive
  /\ IF Queue(c) = {} THEN UNCHANGED <<slot, disk, ops>> ELSE Ran(First(Queue(c)), ft, "done")
\* an operation that makes no transfer cannot be stopped in one
Begin(c, held) ==
  /\ c \in alive /\ Running(c) = {} /\ ret' = "ok" /\ UNCHANGED alive
  /\ IF Queue(c) = {} THEN ~held /\ UNCHANGED <<slot, disk, ops>>
     ELSE LET o == ops[First(Queue(c))] IN
          /\ held => ~o.canc
          /\ ~held => (o.canc \/ o.p = 0 \/ o.n = 0)
          /\ Ran(First(Queue(c)), NoFault, IF held THEN "running" ELSE "done")
\* the pool takes up an operation, which finds that it has not been cancelled, but makes no transfer yet
Commit(c, held) ==
  /\ c \in alive /\ Running(c) = {} /\ ret' = "ok" /\ UNCHANGED <<alive, slot, disk>>
  /\ IF Queue(c) = {} THEN ~held /\ UNCHANGED ops
     ELSE LET o == ops[First(Queue(c))] IN
          /\ held /\ ~o.canc /\ o.p # 0 /\ o.n > 0
          /\ ops' = [ops EXCEPT ![First(Queue(c))].st = "committed"]
Committed(c) == {j \in Running(c) : ops[j].st = "committed"}
End(c) ==
  /\ c \in alive /\ ret' = "ok" /\ UNCHANGED alive
  /\ IF Committed(c) # {} THEN Ran(First(Committed(c)), NoFault, "done")
     ELSE /\ UNCHANGED <<slot, disk>>
          /\ ops' = [j \in 1 .. Len(ops) |-> IF j \in Running(c) THEN [ops[j] EXCEPT !.st = "done"] ELSE ops[j]]

\* --- delivering handlers
Ready(c) == {j \in 1 .. Len(ops) : ops[j].st = "done" /\ ops[j].hc = c}
\* handlers of J have been called or dropped: files they owned are gone
Finish(os, J, st) ==
  CancelTok([j \in 1 .. Len(os) |-> IF j \in J THEN [os[j] EXCEPT !.st = st, !.own = NoFile] ELSE os[j]],
            {os[j].own.tok : j \in {k \in J : os[k].own.c # 0}})
Poll(c) ==
  /\ c \in alive /\ ops' = Finish(ops, Ready(c), "called")
  /\ ret' = "ok" /\ UNCHANGED <<alive, slot, disk>>
Busy(c) == \E j \in 1 .. Len(ops') : Active(ops'[j]) /\ ops'[j].hc = c

\* --- destroying a context
CanDrop(c) ==
  /\ c \in alive /\ (\A j \in 1 .. Len(ops) : ops[j].st # "committed")
  /\ \A s \in Slots : slot[s].c # c
  /\ \A j \in 1 .. Len(ops) : Active(ops[j]) =>
       /\ (ops[j].svc # c /\ ops[j].hc = c) => ops[j].st = "done"
       /\ (ops[j].svc = c /\ ops[j].hc # c) => ops[j].own.c = 0
\* Operations waiting in the pool are destroyed; those of them whose handler
\* belongs to another context may instead have been let through, aborted.
Drop(c) ==
  /\ CanDrop(c)
  /\ \E through \in SUBSET {j \in Queue(c) : ops[j].hc # c} :
       LET gone == Ready(c) \cup (Queue(c) \ through) \cup {j \in Running(c) : ops[j].hc = c}
           e == [j \in 1 .. Len(ops) |-> IF j \in Running(c) THEN [ops[j] EXCEPT !.st = "done"] ELSE ops[j]]
           a == CancelTok(e, {ops[j].tok : j \in Queue(c)})
           b == [j \in 1 .. Len(a) |-> IF j \in through
                   THEN [a[j] EXCEPT !.st = "done", !.ec = "aborted", !.buf = IF a[j].w THEN a[j].data ELSE Filler(a[j].n)]
                   ELSE a[j]]
       IN ops' = Finish(b, gone, "dropped")
  /\ alive' = alive \ {c} /\ ret' = "ok" /\ UNCHANGED <<slot, disk>>
\* the context may be slow to stop its pool: the next operation still runs
Late(c) == /\ CanDrop(c) /\ UNCHANGED <<alive, ret>>
           /\ \/ Running(c) # {} /\ UNCHANGED <<slot, disk>>
                /\ ops' = [j \in 1 .. Len(ops) |-> IF j \in Running(c) THEN [ops[j] EXCEPT !.st = "done"] ELSE ops[j]]
              \/ Running(c) = {} /\ Queue(c) # {} /\ Ran(First(Queue(c)), NoFault, "done")

Steal == UNCHANGED <<alive, slot, disk, ops>> /\ ret' = "ok"

\* --- what must hold
\* one owner per file identity
OneOwner ==
  LET S == {s \in Slots : Exists(s)}
      J == {k \in 1 .. Len(ops) : Active(ops[k]) /\ ops[k].own.c # 0}
  IN /\ Cardinality({slot[s].tok : s \in S} \cup {ops[j].own.tok : j \in J}) = Cardinality(S) + Cardinality(J)
\* an operation that will touch a file finds the file it was started on, open
ActsOnItsFile == \A j \in 1 .. Len(ops) :
  (ops[j].st \in {"queued", "committed"} /\ ~ops[j].canc /\ ops[j].late # "closed" /\ ops[j].p # 0) =>
     /\ \E f \in OpenFiles : f.tok = ops[j].tok
     /\ Owner(ops[j].tok).p = ops[j].p
\* exactly one outcome, and a cancelled operation never reports data
Outcome == \A j \in 1 .. Len(ops) :
  /\ ops[j].st \in {"running", "done", "called"} => ops[j].ec # "none"
  /\ (ops[j].st \in {"running", "done", "called"} /\ ops[j].canc) => ops[j].ec = "aborted" /\ ops[j].rn = 0
  /\ ops[j].ec = "aborted" => ops[j].canc
NothingInDeadContexts == \A j \in 1 .. Len(ops) : Active(ops[j]) => ops[j].hc \in alive
TypeOK == \A s \in Slots : slot[s].c # 0 => slot[s].c \in alive
Safe == OneOwner /\ ActsOnItsFile /\ Outcome /\ NothingInDeadContexts /\ TypeOK
=============================================================================
