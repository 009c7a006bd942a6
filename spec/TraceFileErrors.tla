--------------------------- MODULE TraceFileErrors ---------------------------
EXTENDS FileErrors, TLC, Json, IOUtils
VARIABLES tid, l, snap, at
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == FEInit /\ tid \in 1 .. Len(Traces) /\ l = 1 /\ snap = "" /\ at = ""
Is(o) == E.op = o
S == E.s
Ok == E.err = "ok"
Inj == E.injerr
Intr == E.intr > 0
Arg(p) == IF p[1] < 0 \/ p[2] < 0 THEN "neg" ELSE "ok"
Zero == <<0, 0>>
Plain(f, a) == Call(S, f, a, Inj, Intr, E.err)
Transfer(f, a, n) == IF n = 0 THEN CallNothing(S, f, a, Inj, Intr, E.err) /\ E.n = 0
                    ELSE Plain(f, a) /\ (Ok <=> E.n > 0)
Action ==
  \/ Is("obj") /\ Object(S, E.kind, E.cls)
  \/ Is("drop") /\ Drop(S)
  \/ Is("size") /\ Plain("size", "ok") /\ (Ok \/ E.ret = Zero)
  \/ Is("pos") /\ Plain("pos", "ok") /\ (Ok \/ E.ret = Zero)
  \/ Is("seek") /\ Plain("seek", Arg(E.off)) /\ (Ok \/ E.ret = Zero)
  \/ Is("trunc") /\ Plain("trunc", Arg(E.to))
  \/ Is("read") /\ Transfer("read", "ok", E.tot)
  \/ Is("write") /\ Transfer("write", "ok", Len(E.data))
  \/ Is("readat") /\ Transfer("readat", Arg(E.off), E.tot)
  \/ Is("writeat") /\ Transfer("writeat", Arg(E.off), Len(E.data))
  \/ Is("getperm") /\ Plain("getperm", "ok") /\ (Ok \/ E.ret = 0)
  \/ Is("setperm") /\ Plain("setperm", "ok")
  \/ Is("gettimes") /\ Plain("gettimes", "ok") /\ (Ok \/ (E.a = <<0, 0, 0>> /\ E.m = <<0, 0, 0>>))
  \/ Is("settimes") /\ Plain("settimes", "ok")
  \/ Is("attrs") /\ Plain(IF E.how = "get" THEN "getattr" ELSE "setattr", "ok") /\ (Ok \/ E.ret = 0)
  \/ Is("cancel") /\ Plain("cancel", "ok")
  \/ Is("close") /\ Close(S, Inj, Intr, E.err)
  \/ Is("dup") /\ Dup(S, E.from, Inj, E.err)
  \/ Is("fopen") /\ Open(S, E.path, Inj, E.err)
  \/ Is("std") /\ Std(E.err) /\ E.ret = (CASE E.which = "in" -> 0 [] E.which = "out" -> 1 [] E.which = "err" -> 2)
\* what failed did nothing, and asking does nothing either
Asking == {"size", "pos", "getperm", "gettimes", "std", "cancel"}
Keeps ==
  /\ ("err" \in DOMAIN E /\ E.op # "close" /\ ~Ok) \/ E.op \in Asking => snap' = snap
  /\ "err" \in DOMAIN E /\ ~Ok /\ E.op \in {"settimes", "setperm"} => at' = at
  /\ \A s \in Slots : E.isopen[s] = (kind'[s] \notin {"none", "closed"})
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ snap' = E.snap /\ at' = E.at
             /\ (IF "badclose" \in DOMAIN E THEN E.badclose = 0 ELSE TRUE) /\ Action /\ Keeps
TraceSpec == TraceInit /\ [][TraceNext]_<<fevars, tid, l, snap, at>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
