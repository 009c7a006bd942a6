---------------------------- MODULE AsyncThreads ----------------------------
\* Asynchronous files used from several threads at once. Each thread works on
\* files of its own (slots); a file may also travel inside the handler of its
\* own operation, which starts the next operation from the thread that runs the
\* handler. All files of a context share its service and the service's pool.
\*
\* Operations run on the pool at any moment after they have been started, so
\* what a caller may see of one is a set of outcomes (may): an operation that is
\* still pending when its file is cancelled may finish either way.
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NThr, NSlot
VARIABLES phase, slot, op, own
tvars == <<phase, slot, op, own>>

Thr == 1 .. NThr
Slots == 1 .. NSlot
NoFile == [c |-> 0, open |-> FALSE, tok |-> 0]
TInit ==
  /\ phase = "run" /\ op = <<>> /\ own = <<>>
         /\ slot = [t \in Thr |-> [s \in Slots |-> NoFile]]
Toks == {slot[t][s].tok : t \in Thr, s \in Slots} \cup {op[o].tok : o \in {x \in 1 .. Len(op) : op[x].st = "pending"}}
          \cup {own[o].tok : o \in {x \in 1 .. Len(own) : own[x].c # 0}}
\* (new identities: any two numbers not in use)
New1 == CHOOSE n \in 1 .. (Cardinality(Toks) + 1) : n \notin Toks
PendingOn(tok) == {o \in 1 .. Len(op) : op[o].st = "pending" /\ op[o].tok = tok}
Exists(t, s) == slot[t][s].c # 0
CancelOps(tok) == [o \in 1 .. Len(op) |->
  IF op[o].st = "pending" /\ op[o].tok = tok THEN [op[o] EXCEPT !.may = @ \cup {"aborted"}] ELSE op[o]]
Keep == UNCHANGED phase

Make(t, s, c, o) ==
  /\ phase = "run" /\ ~Exists(t, s)
  /\ slot' = [slot EXCEPT ![t][s] = [c |-> c, open |-> o, tok |-> New1]]
  /\ Keep /\ UNCHANGED <<op, own>>
Open(t, s) ==
  /\ phase = "run" /\ Exists(t, s) /\ ~slot[t][s].open
  /\ slot' = [slot EXCEPT ![t][s].open = TRUE] /\ Keep /\ UNCHANGED <<op, own>>
Begin(f, w, hc) == Append(op, [tok |-> f.tok, c |-> IF hc = 0 THEN f.c ELSE hc, w |-> w, st |-> "pending", may |-> {"ok"}, res |-> "none"])
\* an operation on the file in a slot; the file may go into the handler
Start(t, s, w, hc, takes) ==
  /\ phase = "run" /\ Exists(t, s) /\ slot[t][s].open /\ (takes => PendingOn(slot[t][s].tok) = {})
  /\ op' = Begin(slot[t][s], w, hc)
  /\ own' = Append(own, IF takes THEN slot[t][s] ELSE NoFile)
  /\ slot' = IF takes THEN [slot EXCEPT ![t][s] = NoFile] ELSE slot
  /\ Keep
\* the handler of o is running and starts the next operation on the file it owns
Next1(o, w) ==
  /\ phase # "gone" /\ o \in 1 .. Len(op) /\ op[o].st = "called" /\ own[o].c # 0
  /\ op' = Begin(own[o], w, 0)
  /\ own' = Append([own EXCEPT ![o] = NoFile], own[o])
  /\ UNCHANGED slot /\ Keep
\* ... or destroys that file
EndFile(o) ==
  /\ o \in 1 .. Len(op) /\ op[o].st # "pending" /\ own[o].c # 0
  /\ own' = [own EXCEPT ![o] = NoFile] /\ UNCHANGED <<slot, op>> /\ Keep
Cancel(t, s) ==
  /\ phase = "run" /\ Exists(t, s) /\ slot[t][s].open
  /\ op' = CancelOps(slot[t][s].tok) /\ Keep /\ UNCHANGED <<slot, own>>
\* closing, destroying and assigning over a file are done when its operations have finished
Idle(t, s) == PendingOn(slot[t][s].tok) = {}
Close(t, s) ==
  /\ phase = "run" /\ Exists(t, s) /\ Idle(t, s)
  /\ slot' = [slot EXCEPT ![t][s].open = FALSE] /\ Keep /\ UNCHANGED <<op, own>>
Del(t, s) ==
  /\ Exists(t, s) /\ (phase = "run" => Idle(t, s))
  /\ slot' = [slot EXCEPT ![t][s] = NoFile] /\ op' = CancelOps(slot[t][s].tok) /\ Keep /\ UNCHANGED own
MoveC(t, s, d) ==
  /\ phase = "run" /\ Exists(t, s) /\ ~Exists(t, d)
  /\ slot' = [slot EXCEPT ![t][d] = slot[t][s], ![t][s] = [slot[t][s] EXCEPT !.open = FALSE, !.tok = New1]]
  /\ Keep /\ UNCHANGED <<op, own>>
MoveA(t, s, d) ==
  /\ phase = "run" /\ Exists(t, s) /\ Exists(t, d) /\ s # d /\ Idle(t, d)
  /\ slot' = [slot EXCEPT ![t][d] = slot[t][s], ![t][s] = [slot[t][s] EXCEPT !.open = FALSE, !.tok = New1]]
  /\ Keep /\ UNCHANGED <<op, own>>
\* the handler of o runs, once, in o's context
Call(o, ec, c) ==
  /\ phase # "gone" /\ o \in 1 .. Len(op) /\ op[o].st = "pending" /\ ec \in op[o].may /\ c = op[o].c
  /\ op' = [op EXCEPT ![o].st = "called", ![o].res = ec] /\ UNCHANGED <<slot, own>> /\ Keep
\* the handler of o is destroyed without having run
Discard(o) ==
  /\ phase = "stopping" /\ o \in 1 .. Len(op) /\ op[o].st = "pending"
  /\ op' = [op EXCEPT ![o].st = "dropped", ![o].may = @ \cup {"aborted"}]
  /\ UNCHANGED <<slot, own>> /\ Keep
\* every context has run out of work
Drained ==
  /\ phase = "run" /\ \A o \in 1 .. Len(op) : op[o].st # "pending"
  /\ UNCHANGED tvars
Stop == phase = "run" /\ phase' = "stopping" /\ UNCHANGED <<slot, op, own>>
\* the contexts have been destroyed
Gone ==
  /\ phase # "gone" /\ phase' = "gone" /\ UNCHANGED <<slot, op, own>>
  /\ \A t \in Thr, s \in Slots : ~Exists(t, s)
  /\ \A o \in 1 .. Len(op) : op[o].st # "pending" /\ own[o].c = 0

\* what a write has left in the file: 0 nothing, 1 all of it
Written(o) == IF op[o].st = "called" THEN (IF op[o].res = "ok" THEN {1} ELSE {0}) ELSE {0, 1}
=============================================================================
