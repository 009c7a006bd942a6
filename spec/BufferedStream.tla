--------------------------- MODULE BufferedStream ---------------------------
\* A buffered stream over a next layer that accepts and produces bytes
\* piecemeal and fails. Bytes are numbered: the k-th byte appended is Wr(k), the
\* k-th byte produced by the next layer is Rd(k).
EXTENDS Integers, Sequences, FiniteSets
VARIABLES lim,    \* limits of the write and read buffer (0: none)
          app,    \* bytes appended (or written) so far
          base,   \* of these, the bytes that close() has discarded or that were sent
          wbn,    \* size of write_buffer() as last seen: the tail of what is not sent
          fl,     \* pending flush: id, ex (context of its handler), n bytes moved, err, q (bytes there at
                  \* the start), cl (closed meanwhile), cx (cancelled meanwhile), old (read buffer at that time)
          prod,   \* bytes the next layer has produced so far
          rb,     \* the read buffer: bytes produced and not consumed
          fi,     \* pending fill
          refused,\* flushes started while another one was pending: [id, ex]
          closed, \* the next layer is closed
          done,   \* completions since the last step: [id, err, n]
          out     \* bytes the next layer accepted during the last step
svars == <<lim, app, base, wbn, fl, prod, rb, fi, closed, refused, done, out>>
NewOp(id, ex, q) == [id |-> id, ex |-> ex, n |-> 0, err |-> "ok", q |-> q, cl |-> FALSE, cx |-> FALSE, old |-> <<>>]
NoOp == NewOp(0, 0, 0)
Wr(k) == (k - 1) % 251
Rd(k) == (k - 1) % 241
WrSeq(a, b) == [i \in 1 .. (b - a) |-> Wr(a + i)]          \* bytes a+1 .. b
RdSeq(a, b) == [i \in 1 .. (b - a) |-> Rd(a + i)]
Queue == app - base                                        \* bytes not sent yet
MaxW == lim[1]
MaxR == lim[2]
Init == /\ lim = <<0, 0>> /\ app = 0 /\ base = 0 /\ wbn = 0 /\ fl = NoOp /\ prod = 0 /\ rb = <<>> /\ fi = NoOp
        /\ closed = FALSE /\ refused = {} /\ done = {} /\ out = <<>>
Flushing == fl.id # 0
Filling == fi.id # 0
\* the write buffer holds the last bytes appended, and whatever is not in it is in flight or left over
WbOk == wbn' \in 0 .. (app' - base')
NoIO == out' = <<>> /\ done' = {}

New(mw, mr) == lim' = <<mw, mr>> /\ NoIO /\ UNCHANGED <<app, base, wbn, fl, prod, rb, fi, closed, refused>>
Append_(n, ok) ==
  /\ ok = (MaxW = 0 \/ wbn + n <= MaxW)
  /\ app' = IF ok THEN app + n ELSE app
  /\ wbn' = IF ok THEN wbn + n ELSE wbn
  /\ NoIO /\ UNCHANGED <<lim, base, fl, prod, rb, fi, closed, refused>>

\* the next layer took n bytes in order
Sent(n) == n <= Queue /\ base' = base + n /\ out' = WrSeq(base, base + n)

\* err: what the next layer reported during the call ("ok" if nothing)
Flush(n, ret, err) ==
  /\ UNCHANGED <<lim, app, prod, rb, fi, closed, fl, refused>> /\ done' = {}
  /\ IF Flushing
     THEN n = 0 /\ ret = [n |-> 0, err |-> "already_started"] /\ out' = <<>> /\ base' = base /\ wbn' = wbn
     ELSE /\ ret = [n |-> n, err |-> err] /\ Sent(n) /\ WbOk /\ wbn' <= wbn
          /\ (err = "ok" /\ Queue > 0) => n > 0
\* starting: the flush may take hold of anything appended so far
AFlush(id, ex) ==
  /\ UNCHANGED <<lim, app, base, prod, rb, fi, closed>> /\ NoIO
  /\ IF Flushing THEN refused' = refused \cup {[id |-> id, ex |-> ex]} /\ fl' = fl /\ wbn' = wbn
     ELSE fl' = NewOp(id, ex, Queue) /\ wbn' \in 0 .. wbn /\ refused' = refused
\* the next layer takes n bytes for the pending flush, or fails it
FStep(n, err) ==
  /\ Flushing /\ fl.err = "ok"
  /\ Sent(n) /\ (err # "ok" => n = 0)
  /\ fl' = [fl EXCEPT !.n = @ + n, !.err = err]
  /\ done' = {} /\ UNCHANGED <<lim, app, wbn, prod, rb, fi, closed, refused>> /\ WbOk
\* a flush may end when it failed, has written something, or had nothing to write; it has to when nothing is left
FlushMust == fl.err # "ok" \/ fl.cl \/ closed \/ Queue = 0 \/ fl.q = 0
FlushMay == FlushMust \/ fl.n > 0

\* k: bytes of room; n = 0 without an error only if there is no room
Fill(n, ret, err) ==
  /\ ~Filling /\ UNCHANGED <<lim, app, base, wbn, fl, fi, closed, refused>> /\ NoIO
  /\ ret = [n |-> n, err |-> err]
  /\ prod' = prod + n /\ rb' = rb \o RdSeq(prod, prod + n)
  /\ MaxR # 0 => Len(rb') <= MaxR
  /\ (err = "ok" /\ n = 0) => (MaxR # 0 /\ Len(rb) = MaxR)
  /\ err # "ok" => n = 0
AFill(id, ex) ==
  /\ ~Filling /\ fi' = NewOp(id, ex, 0)
  /\ NoIO /\ UNCHANGED <<lim, app, base, wbn, fl, prod, rb, closed, refused>>
RStep(n, err) ==
  /\ Filling /\ fi.err = "ok" /\ fi.n = 0
  /\ err # "ok" => n = 0
  /\ prod' = prod + n /\ rb' = rb \o RdSeq(prod, prod + n)
  /\ fi' = [fi EXCEPT !.n = n, !.err = err]
  /\ NoIO /\ UNCHANGED <<lim, app, base, wbn, fl, closed, refused>>
FillMust == fi.err # "ok" \/ fi.n > 0 \/ (MaxR # 0 /\ Len(rb) = MaxR) \/ fi.cl \/ closed

Consume(n) == /\ ~Filling /\ n <= Len(rb) /\ rb' = SubSeq(rb, n + 1, Len(rb))
              /\ NoIO /\ UNCHANGED <<lim, app, base, wbn, fl, prod, fi, closed, refused>>
\* close() drops what is buffered, and fails what is pending
CloseS ==
  /\ base' = app /\ wbn' = 0 /\ rb' = <<>> /\ closed' = TRUE /\ NoIO
  /\ fl' = IF Flushing THEN [fl EXCEPT !.cl = TRUE] ELSE fl
  /\ fi' = IF Filling THEN [fi EXCEPT !.cl = TRUE, !.old = rb] ELSE fi
  /\ UNCHANGED <<lim, app, prod, refused>>
\* the cancellation slot of one operation's handler asks to end it: a transfer that is pending in the next
\* layer is given up, one that is on its way back may say so if there is more to do. Nothing else is affected.
Cancel(id, won, ron, whit, rhit) ==
  /\ NoIO /\ UNCHANGED <<lim, app, base, wbn, prod, rb, closed, refused>>
  /\ whit = (won /\ Flushing /\ id = fl.id) /\ rhit = (ron /\ Filling /\ id = fi.id)
  /\ fl' = IF ~(Flushing /\ id = fl.id) THEN fl
           ELSE [fl EXCEPT !.cx = TRUE, !.err = IF whit THEN "operation_aborted" ELSE @]
  /\ fi' = IF ~(Filling /\ id = fi.id) THEN fi
           ELSE [fi EXCEPT !.cx = TRUE, !.err = IF rhit THEN "operation_aborted" ELSE @]
\* the next layer is opened again
Reopen == /\ closed /\ ~Flushing /\ ~Filling /\ closed' = FALSE /\ NoIO
          /\ UNCHANGED <<lim, app, base, wbn, fl, prod, rb, fi, refused>>
\* an operation that was pending when the stream was closed may report that
Ends(o, d) == /\ d.n = o.n /\ d.ctx = o.ex
              /\ \/ d.err = o.err
                 \/ o.cx /\ o.err = "ok" /\ d.err = "operation_aborted" /\ Queue > 0 /\ o.id = fl.id
                 \/ (o.cl \/ closed) /\ o.err = "ok" /\ d.err \in {"operation_aborted", "bad_descriptor"}
\* contexts run until nothing is left to do: ds are the handlers called
Poll(ds) ==
  /\ done' = {d.id : d \in ds} /\ Cardinality(done') = Cardinality(ds)
  /\ \A d \in ds : \/ Flushing /\ d.id = fl.id /\ FlushMay /\ Ends(fl, d)
                   \/ Filling /\ d.id = fi.id /\ FillMust /\ Ends(fi, d)
                   \/ [id |-> d.id, ex |-> d.ctx] \in refused /\ d.n = 0 /\ d.err = "already_started"
  /\ (Flushing /\ FlushMust) => fl.id \in done'
  /\ (Filling /\ FillMust) => fi.id \in done'
  /\ \A x \in refused : x.id \in done'
  /\ refused' = {}
  /\ fl' = IF Flushing /\ fl.id \in done' THEN NoOp ELSE fl
  /\ fi' = IF Filling /\ fi.id \in done' THEN NoOp ELSE fi
  \* what a fill that was pending during close() leaves in the read buffer is not settled
  /\ IF Filling /\ fi.id \in done' /\ fi.cl THEN rb' \in {<<>>, fi.old} ELSE rb' = rb
  /\ out' = <<>> /\ UNCHANGED <<lim, app, base, prod, closed, wbn>>
CanFlush == ~Flushing /\ Queue > 0

\* --- what must hold
NeverAhead == base <= app /\ wbn <= Queue
ReadInOrder == \A i \in 1 .. Len(rb) : rb[i] = Rd(prod - Len(rb) + i)
InOrder == [][out' # <<>> => out' = WrSeq(base, base')]_svars
=============================================================================
