------------------------------- MODULE MCLaunch -------------------------------
EXTENDS Launch, TLC, Json
CONSTANTS Emitting, MaxLen, MaxIds
VARIABLE op
W == {<<9>>, <<8, 7>>}
Ops == {[k |-> "rd", off |-> 0, data |-> <<>>, sizes |-> <<1, 1>>], [k |-> "rdat", off |-> 1, data |-> <<>>, sizes |-> <<2>>],
        [k |-> "wr", off |-> 0, data |-> <<9>>, sizes |-> <<1>>], [k |-> "wrat", off |-> 2, data |-> <<8, 7>>, sizes |-> <<1, 1>>],
        [k |-> "flush"], [k |-> "fill"], [k |-> "conn", dest |-> 1], [k |-> "conn", dest |-> 3],
        [k |-> "login", cmd |-> 0, addr |-> <<>>, port |-> 0, host |-> <<>>, user |-> <<5>>, pass |-> <<6>>, meths |-> <<>>, grant |-> 1]}
MCInit == LInit(<<1, 2>>) /\ op = <<"init">>
O(x) == op' = x
\* every outcome the operation can have now
Outcome(o) ==
  CASE o.k = "rd" -> [ec |-> ReadErr(o, pos), n |-> ReadN(o, pos), mem |-> ReadMem(o, pos), wire |-> <<>>, acc |-> <<>>]
    [] o.k = "rdat" -> [ec |-> ReadErr(o, o.off), n |-> ReadN(o, o.off), mem |-> ReadMem(o, o.off), wire |-> <<>>, acc |-> <<>>]
    [] o.k \in {"wr", "wrat"} -> [ec |-> "ok", n |-> Len(o.data), mem |-> <<>>, wire |-> <<>>, acc |-> <<>>]
    [] o.k = "flush" -> [ec |-> "ok", n |-> Len(wb), mem |-> <<>>, wire |-> wb, acc |-> <<>>]
    [] o.k = "fill" -> [ec |-> IF feed = <<>> THEN "eof" ELSE "ok", n |-> Len(feed), mem |-> <<>>, wire |-> <<>>, acc |-> <<>>]
    [] o.k = "conn" -> [ec |-> IF o.dest = 3 THEN "connection_refused" ELSE "ok", n |-> IF o.dest = 3 THEN 0 ELSE o.dest, mem |-> <<>>, wire |-> <<>>, acc |-> IF o.dest = 3 THEN <<>> ELSE <<o.dest>>]
    [] OTHER -> [ec |-> "ok", n |-> 0, mem |-> <<>>, wire |-> S!Encode(o), acc |-> <<>>]
R(o, where) == [times |-> 1, ec |-> Outcome(o).ec, n |-> Outcome(o).n, where |-> where, inl |-> FALSE]
LazyFor(o) == IF o.k = "conn" THEN Lazy ELSE {"lazy", "await"}
Next ==
  \/ \E id \in 1 .. MaxIds, o \in Ops, t \in Eager \ {"detached"} : id = 1 /\ StartEager(id, o, t, R(o, IF t = "bound" THEN 2 ELSE 1), Outcome(o).mem, Outcome(o).wire, Outcome(o).acc) /\ O(<<"start", id, o, t>>)
  \/ \E id \in 1 .. MaxIds, o \in Ops : \E t \in LazyFor(o) : StartLazy(id, o, t) /\ O(<<"start", id, o, t>>)
  \/ \E id \in 1 .. MaxIds, how \in 0 .. 1 : Spoil(id) /\ O(<<"spoil", id, how>>)
  \/ \E id \in 1 .. MaxIds : Drop(id) /\ O(<<"drop", id>>)
  \/ \E id \in 1 .. MaxIds, b \in 0 .. 1, k \in BOOLEAN :
       /\ kept[id] # None
       /\ LET o == kept[id].op IN (k => o.k \in {"rd", "wr", "rdat", "wrat", "flush"}) /\ Run(id, b, k, R(o, IF b = 1 THEN 2 ELSE 1), Outcome(o).mem, Outcome(o).wire, Outcome(o).acc)
       /\ O(<<"launch", id, b, k>>)
  \/ Cancel /\ O(<<"cancel">>)
  \/ Reopen /\ O(<<"reopen">>)
  \/ wb = <<>> /\ Put(<<4, 5>>) /\ O(<<"put", <<4, 5>>>>)
  \/ feed = <<>> /\ rb = <<>> /\ Feed(<<3>>) /\ O(<<"feed", <<3>>>>)
Bound == pos <= MaxLen /\ Len(disk) <= MaxLen /\ Len(rb) <= 1
MCSpec == MCInit /\ [][Next]_<<lvars, op>>
\* only an operation that runs changes anything
Quiet == [][(op' # op /\ op'[1] \in {"spoil", "drop", "cancel"}) => UNCHANGED World]_<<lvars, op>>
LazyQuiet == [][(op'[1] = "start" /\ op'[4] \in Lazy) => UNCHANGED World]_<<lvars, op>>
\* an operation that is kept is the one that was asked for
Same == [][\A id \in Ids : (kept[id] # None /\ kept'[id] # None) => kept'[id] = kept[id]]_<<lvars, op>>
View1 == <<disk, pos, wb, feed, rb, kept>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> View1']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
