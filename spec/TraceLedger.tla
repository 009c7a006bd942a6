---------------------------- MODULE TraceLedger ----------------------------
\* A recorded behaviour: what the program held before it ("ledger_before"), and what it held when every object and
\* operation of it had ended ("ledger_after").
EXTENDS Ledger, Sequences, TLC, Json, IOUtils
VARIABLES tid, l, ref
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
Seen == [k \in Kinds |-> E[k]]
TraceInit == Init /\ base = Nothing /\ ref = <<>> /\ tid \in 1 .. Len(Traces) /\ l = 1
TraceNext ==
  /\ l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ CASE E.op = "ledger_before" -> base' = Seen /\ UNCHANGED <<has, alive, ref>>
       \* the same objects are there, and nothing is in progress: the same is held, however often that comes about
       [] E.op = "ledger_mark" -> ref \in {<<>>, Seen} /\ ref' = Seen /\ UNCHANGED vars
       [] OTHER -> E.op = "ledger_after" /\ alive = {} /\ Seen = Held /\ UNCHANGED <<vars, ref>>
  /\ NothingLeft'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l, ref>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
