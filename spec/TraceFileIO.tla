---------------------------- MODULE TraceFileIO ----------------------------
EXTENDS FileIO, TLC, Json, IOUtils
VARIABLES tid, l
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
TraceInit == IOInit /\ tid \in 1 .. Len(Traces) /\ l = 1
Is(o) == E.op = o
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
Pad == 238
Action ==
  \/ Is("open") /\ OpenSlot(E.s, E.f, E.acc)
  \/ Is("drop") /\ Drop(E.s)
  \/ Is("dup") /\ E.err = "ok" /\ E.isopen /\ Dup(E.s, E.from)
  \/ Is("read") /\ ~E.over /\ Read(E.s, E.tot, E.n, E.err, E.buf, Pad)
  \/ Is("readat") /\ ~E.over /\ PRead(E.s, E.off, E.tot, E.n, E.err, E.buf, Pad)
  \/ Is("write") /\ Write(E.s, E.data, E.n, E.err)
  \/ Is("writeat") /\ PWrite(E.s, E.off, E.data, E.n, E.err)
  \/ Is("lread") /\ LRead(E.s, E.tot, E.n, E.err, SeqSet(E.nz), E.clean)
  \/ Is("lreadat") /\ LPRead(E.s, E.off, E.tot, E.n, E.err, SeqSet(E.nz), E.clean)
  \/ Is("lwrite") /\ LWrite(E.s, E.tot, SeqSet(E.nz), E.n, E.err)
  \/ Is("lwriteat") /\ LPWrite(E.s, E.off, E.tot, SeqSet(E.nz), E.n, E.err)
  \/ Is("seek") /\ Seek(E.s, E.org, E.off, E.ret, E.err)
  \/ Is("pos") /\ Position(E.s, E.ret, E.err)
  \/ Is("size") /\ Size(E.s, E.ret, E.err)
  \/ Is("trunc") /\ Truncate(E.s, E.to, E.err)
  \/ E.op \in {"lread", "lreadat", "lwrite", "lwriteat"} /\ Closed(E.s, E.err) /\ E.n = 0 /\ (E.op \in {"lread", "lreadat"} => E.clean /\ E.nz = <<>>)
  \/ E.op \in {"read", "readat", "write", "writeat", "seek", "pos", "size", "trunc"} /\ Closed(E.s, E.err)
     /\ (E.op \in {"read", "readat", "write", "writeat"} => E.n = 0)
     /\ (E.op \in {"read", "readat"} => \A i \in 1 .. E.tot : E.buf[i] = Pad)
Observed ==
  /\ \A f \in Files : E.files[f].sz = (IF E.files[f].sz[1] = -1 THEN <<-1, 0>> ELSE size'[f]) /\ SeqSet(E.files[f].data) = data'[f]
  /\ \A s \in Slots : E.at[s] = IF of'[s] = 0 THEN <<-1, 0>> ELSE desc'[of'[s]].pos
  /\ Inside' /\ Functional'
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed
TraceSpec == TraceInit /\ [][TraceNext]_<<iovars, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
