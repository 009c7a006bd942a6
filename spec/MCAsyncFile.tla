---------------------------- MODULE MCAsyncFile ----------------------------
\* Behaviours of AsyncFile up to what operations read and write (the test
\* driver fills in offsets, sizes, bytes, paths and executor tags).
EXTENDS AsyncFile, TLC, Json
CONSTANTS Emitting, MaxActive, Acts, Depth
VARIABLES op, hist
mcvars == <<vars, op, hist>>
D0 == <<<<1>>, <<>>, <<>>>>
Can(a) == a \in Acts
O(x) == op' = x
ActiveN == Cardinality({j \in 1 .. Len(ops) : Active(ops[j])})
MCInit == Init /\ op = <<"init">> /\ hist = <<>>
\* a transfer whose file has been closed under it ends before anything else happens (see DESIGN.md, A02)
Late1 == {j \in 1 .. Len(ops) : ops[j].st = "committed" /\ ops[j].late = "closed"}
Next ==
  IF Late1 # {} THEN \E c \in alive : Committed(c) # {} /\ End(c) /\ O(<<"end", c>>) ELSE
  \/ Ctxs(NCtx) /\ O(<<"ctx", NCtx>>)
  \/ \E s \in Slots, c \in alive :
       \/ Can("new") /\ New(s, c, 1) /\ O(<<"new", s, c>>)
       \/ Can("nat") /\ Adopt(s, c, 1, 1) /\ O(<<"nat", s, c>>)
       \/ Can("ctor") /\ \E p \in 0 .. 1, thr \in BOOLEAN : Ctor(s, c, 1, p, thr) /\ O(<<"ctor", s, c, p, IF thr THEN 1 ELSE 0>>)
  \/ \E s \in Slots :
       \/ Can("open") /\ Open(s, 1, FALSE) /\ O(<<"open", s, 1>>)
       \/ Can("openfail") /\ Open(s, 0, FALSE) /\ O(<<"open", s, 0>>)
       \/ Can("close") /\ (Can("closed") \/ IsOpen(slot[s])) /\ Close(s, FALSE) /\ O(<<"close", s>>)
       \/ Can("cancel") /\ (Can("closed") \/ IsOpen(slot[s])) /\ Cancel(s, FALSE) /\ O(<<"cancel", s>>)
       \/ Can("del") /\ Exists(s) /\ Del(s) /\ O(<<"del", s>>)
       \/ \E t \in Slots :
            \/ Can("mc") /\ MoveC(s, t) /\ O(<<"mc", s, t>>)
            \/ Can("ma") /\ MoveA(s, t) /\ O(<<"ma", s, t>>)
       \/ \E hc \in {0} \cup alive, own \in BOOLEAN :
            /\ Can("start") /\ ActiveN < MaxActive
            /\ own => Can("own")
            /\ Can("closed") \/ IsOpen(slot[s])
            /\ Start(s, TRUE, -1, <<1>>, 1, hc, 1, own)
            /\ O(<<"start", s, slot[s].c, hc, IF own THEN 2 ELSE 0>>)
  \/ \E c \in alive :
       \/ Queue(c) # {} /\ Step(c, NoFault) /\ O(<<"step", c>>)
       \/ Can("run") /\ Queue(c) # {} /\ Begin(c, TRUE) /\ O(<<"begin", c>>)
       \/ Can("commit") /\ Queue(c) # {} /\ Commit(c, TRUE) /\ O(<<"commit", c>>)
       \/ Running(c) # {} /\ End(c) /\ O(<<"end", c>>)
       \/ Can("fault") /\ Queue(c) # {} /\ \E f \in {"err", "intr", "cap"} :
            /\ Step(c, [f |-> f, k |-> 1]) /\ O(<<"step", c, f>>)
       \/ Ready(c) # {} /\ Poll(c) /\ O(<<"poll", c>>)
       \/ Can("drop") /\ Drop(c) /\ O(<<"drop", c>>)
MCSpec == MCInit /\ [][Next /\ hist' = IF Depth > 0 THEN Append(hist, op') ELSE hist]_mcvars
\* file identities are named by their owner, finished operations forgotten
Who(tok) == IF \E s \in Slots : slot[s].c # 0 /\ slot[s].tok = tok THEN CHOOSE s \in Slots : slot[s].c # 0 /\ slot[s].tok = tok
            ELSE LET J == {j \in 1 .. Len(ops) : Active(ops[j]) /\ ops[j].own.c # 0 /\ ops[j].own.tok = tok}
                 IN IF J = {} THEN 0
                    ELSE 10 + Cardinality({k \in 1 .. Len(ops) : Active(ops[k]) /\ k <= CHOOSE j \in J : TRUE})
Abs(f) == IF f.c = 0 THEN 0 ELSE 2 * f.c + IF f.p = 0 THEN 0 ELSE 1
View1 == <<alive, [s \in Slots |-> Abs(slot[s])],
           [j \in 1 .. Len(SelectSeq(ops, Active)) |->
              LET o == SelectSeq(ops, Active)[j]
              IN IF o.st = "committed" THEN <<o.st, o.svc, o.hc, Abs(o.own), Who(o.tok), o.p, o.late>>
                 ELSE IF o.st # "queued" THEN <<o.st, o.svc, o.hc, Abs(o.own)>>
                 ELSE <<IF o.canc THEN "c" ELSE "q", o.svc, o.hc, Abs(o.own), Who(o.tok), o.p>>]>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
\* simulation: print complete behaviours
EmitH == (Depth > 0 /\ Len(hist) = Depth) => PrintT("H " \o ToJson(hist))
\* a handler's outcome never changes once decided, and no operation is forgotten
OnceDone == [][\A j \in 1 .. Len(ops) :
   /\ Len(ops') >= Len(ops)
   /\ ops[j].st \in {"called", "dropped"} => ops'[j].st = ops[j].st
   /\ ops[j].st \in {"running", "done"} => ops'[j].st # "queued" /\ ops'[j].ec = ops[j].ec]_mcvars
\* only the pool touches files
OnlyPoolWrites == [][disk' # disk => op'[1] \in {"step", "begin", "end"}]_mcvars
=============================================================================
