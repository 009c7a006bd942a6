-------------------------- MODULE TraceLinearBuffer --------------------------
(* Decides traces recorded from the real buffers against LinearBuffer. *)
EXTENDS LinearBuffer, TLC, Json, IOUtils
CONSTANT Focus      \* "content": byte sequences and views (B01); "limits": bounds, failures, ledger (B02)
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)

TraceInit == Init /\ tid \in 1 .. Len(Traces) /\ l = 1

Is(o) == E.op = o
St(s) == E.st[s]
Cap(s) == IF St(s).live THEN St(s).cap ELSE 0
Max(s) == IF St(s).live THEN St(s).max ELSE 0

(* The observation after the step, against the state the specification reaches. *)
SlotOk(s, b) ==
  /\ St(s).live = b.live
  /\ b.live => /\ Len(St(s).c) = Len(b.c)
               /\ St(s).cap = b.cap
               /\ St(s).max = b.max
               /\ Focus = "content" => St(s).c = b.c /\ St(s).views
               /\ (E.r # "ok" /\ l > 1) => (Ev[l-1].st[s].live /\ St(s).c = Ev[l-1].st[s].c)
LedgerOk(f) == Focus = "limits" =>
  /\ E.bad = 0
  /\ \A al \in Allocs : E.led[al + 1] = Outstanding(al, f)
Observed == /\ E.r = ret'
            /\ \A s \in Slots : SlotOk(s, buf'[s])
            /\ LedgerOk(buf')
\* bytes stay in place unless the storage was replaced or handed over
InPlace(S) == Focus = "content" => \A s \in Slots : (s \in S /\ Live(s) /\ buf'[s].live /\ buf'[s].cap = buf[s].cap) => ~St(s).mv

Step ==
  \/ Is("new") /\ New(E.s, E.a)
  \/ Is("newn") /\ NewN(E.s, E.a, E.d, E.max, E.fail, Cap(E.s))
  \/ Is("del") /\ Destroy(E.s)
  \/ Is("cctor") /\ \E al \in Allocs : CopyConstruct(E.s, E.t, E.fail, Cap(E.s), al)
  \/ Is("mctor") /\ MoveConstruct(E.s, E.t, Max(E.t))
  \/ Is("cassign") /\ CopyAssign(E.s, E.t, E.fail, Cap(E.s)) /\ InPlace(Slots)
  \/ Is("massign") /\ MoveAssign(E.kind, E.s, E.t, Cap(E.s), Max(E.t))
  \/ Is("append") /\ Append1(E.s, E.d, E.fail, Cap(E.s)) /\ InPlace(Slots)
  \/ Is("insert") /\ Insert(E.s, E.pos, E.d, E.fail, Cap(E.s)) /\ InPlace(Slots)
  \/ Is("erase") /\ Erase(E.s, E.f, E.l) /\ InPlace(Slots)
  \/ Is("resize") /\ Resize(E.s, E.n, E.fill, E.fail, Cap(E.s)) /\ InPlace(Slots)
  \/ Is("reserve") /\ Reserve(E.s, E.n, E.fail, Cap(E.s)) /\ InPlace(Slots)
  \/ Is("huge") /\ Huge(E.s) /\ InPlace(Slots)
  \/ Is("clear") /\ Clear(E.s) /\ InPlace(Slots)

End == /\ Is("end")
       /\ buf' = [s \in Slots |-> Dead] /\ ret' = "ok"
       /\ \A s \in Slots : ~St(s).live
       /\ LedgerOk(buf')

TraceNext == /\ l <= Len(Ev)
             /\ l' = l + 1 /\ UNCHANGED tid
             /\ ((Step /\ Observed) \/ End) /\ Bounded'
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tid, l>>

Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete(i)})>>)
=============================================================================
