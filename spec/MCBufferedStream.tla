-------------------------- MODULE MCBufferedStream --------------------------
EXTENDS BufferedStream, TLC, Json
CONSTANTS Emitting, MaxQ, LimW, LimR
VARIABLE op
MCInit == Init /\ op = <<"init">>
O(x) == op' = x
Errs == {"connection_reset", "eof"}
\* what a sync flush over that plan can have done
Sends(plan) == {n \in 0 .. Queue : TRUE}
Next ==
  IF lim = <<0, 0>> THEN New(LimW, LimR) /\ O(<<"new", LimW, LimR>>) ELSE
  \/ \E n \in 1 .. 2 : Append_(n, TRUE) /\ app' - base' <= MaxQ /\ O(<<"append", n>>)
  \/ \E n \in 1 .. 2 : Append_(n, FALSE) /\ O(<<"append", n>>)
  \/ \E n \in 0 .. Queue : Flushing /\ Flush(n, [n |-> 0, err |-> "already_started"], "ok") /\ O(<<"flush", 9>>)
  \/ \E n \in 0 .. Queue : ~Flushing /\ ~closed /\ Flush(n, [n |-> n, err |-> "ok"], "ok") /\ n \in {wbn, Queue - wbn, Queue} /\ O(<<"flush", 9>>)
  \/ \E n \in 0 .. Queue, e \in {"connection_reset"} : ~Flushing /\ ~closed /\ Queue > 0 /\ n <= 1
        /\ Flush(n, [n |-> n, err |-> e], e) /\ O(IF n = 0 THEN <<"flush", e>> ELSE <<"flush", 1, e>>)
  \/ closed /\ ~Flushing /\ Flush(0, [n |-> 0, err |-> "bad_descriptor"], "bad_descriptor") /\ O(<<"flush", 9>>)
  \/ AFlush(IF Flushing THEN 3 ELSE 1, 1) /\ O(<<"aflush", IF Flushing THEN 3 ELSE 1>>)
  \/ \E n \in 1 .. Queue : FStep(n, "ok") /\ O(<<"fstep", n>>)
  \/ FStep(0, "connection_reset") /\ O(<<"fstep", "connection_reset">>)
  \/ \E n \in 1 .. 2 : ~closed /\ prod - Len(rb) + n >= 0 /\ Fill(n, [n |-> n, err |-> "ok"], "ok") /\ O(<<"fill", n>>)
  \/ ~closed /\ Fill(0, [n |-> 0, err |-> "ok"], "ok") /\ O(<<"fill", 1>>)
  \/ \E e \in {"eof"} : ~closed /\ Fill(0, [n |-> 0, err |-> e], e) /\ O(<<"fill", e>>)
  \/ AFill(2, 1) /\ O(<<"afill", 2>>)
  \/ \E n \in 1 .. 2 : RStep(n, "ok") /\ (MaxR # 0 => Len(rb') <= MaxR) /\ O(<<"rstep", n>>)
  \/ RStep(0, "eof") /\ O(<<"rstep", "eof">>)
  \/ Len(rb) > 0 /\ Consume(1) /\ O(<<"consume", 1>>)
  \/ Flushing /\ fl.err = "ok" /\ \E h \in BOOLEAN : (h \/ fl.n > 0) /\ Cancel(fl.id, h, FALSE, h, FALSE) /\ O(<<"cancel", fl.id>>)
  \/ Filling /\ fi.err = "ok" /\ \E h \in BOOLEAN : (h = (fi.n = 0)) /\ Cancel(fi.id, FALSE, h, FALSE, h) /\ O(<<"cancel", fi.id>>)
  \/ ~closed /\ CloseS /\ O(<<"close">>)
  \/ Reopen /\ O(<<"reopen">>)
  \/ \E a, b \in BOOLEAN, e1, e2 \in {"ok", "bad_descriptor", "operation_aborted", "connection_reset", "eof"} :
       Poll((IF a THEN {[id |-> fl.id, n |-> fl.n, err |-> e1, ctx |-> fl.ex]} ELSE {}) \cup
            (IF b THEN {[id |-> fi.id, n |-> fi.n, err |-> e2, ctx |-> fi.ex]} ELSE {}) \cup
            {[id |-> x.id, n |-> 0, err |-> "already_started", ctx |-> x.ex] : x \in refused})
       /\ (a => e1 = fl.err \/ fl.cl \/ fl.cx) /\ (b => e2 = fi.err \/ fi.cl) /\ O(<<"poll">>)
MCSpec == MCInit /\ [][Next]_<<svars, op>>
\* one flush refused at most
Few == Cardinality(refused) <= 1
V(o) == <<o.id, o.n, o.err, o.q, o.cl, o.cx>>
View1 == <<lim, Queue, wbn, V(fl), Len(rb), V(fi), closed, refused # {}>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
