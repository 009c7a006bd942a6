----------------------------- MODULE TraceToken -----------------------------
EXTENDS Token, Sequences, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
Action ==
  \/ Is("new") /\ New(E.s)
  \/ Is("del") /\ Del(E.s)
  \/ Is("cancel") /\ Cancel(E.s)
  \/ Is("destroy") /\ Destroy(E.s)
  \/ Is("reset") /\ Reset(E.s)
  \/ Is("mc") /\ MoveC(E.s, E.d)
  \/ Is("ma") /\ MoveA(E.s, E.d)
  \/ Is("issue") /\ Issue(E.s, E.d)
  \/ Is("tcopy") /\ TCopy(E.s, E.d)
  \/ Is("tassign") /\ TAssign(E.s, E.d)
  \/ Is("tdel") /\ TDel(E.s)
Now == [t \in Toks |-> IF tok[t] = -1 THEN -1 ELSE IF Cancelled(t) THEN 1 ELSE 0]
\* other threads watched token t (through copies of their own) while the operation ran
Watched(t) == LET w == E.watch[t] IN
  /\ w.seen1 => Now'[t] = 1 \/ Now[t] = 1
  /\ w.seen0 => Now[t] = 0
  /\ ~w.back
  /\ w.last >= 0 => w.last = Now'[t]
Observed ==
  /\ E.c = Now'
  /\ "watch" \in DOMAIN E => \A t \in Toks : (tok[t] # -1 /\ tok'[t] = tok[t]) => Watched(t)
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
