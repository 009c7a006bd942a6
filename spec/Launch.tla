-------------------------------- MODULE Launch --------------------------------
(* Completion tokens: every operation of the library started through a token  *)
(* that runs it at once or hands it out to be launched (or dropped) later.    *)
(* The world is one file, one stream to a SOCKS server, two listeners and one *)
(* buffered stream; an operation is a record made from the arguments the      *)
(* initiating function was called with.                                       *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES disk, pos, wb, feed, rb, kept
lvars == <<disk, pos, wb, feed, rb, kept>>
S == INSTANCE Socks WITH cur <- 0, sent <- <<>>, got <- <<>>, inq <- <<>>, fault <- "none"

None == [k |-> "none"]
Ids == 1 .. 3
Eager == {"fn", "bound", "future", "detached"}
Lazy == {"lazy", "await", "deferred"}
SocksKinds == {"v4e", "v4h", "greet", "login", "v5e", "v5h"}
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE Head(q) + Sum(Tail(q))
Min(a, b) == IF a < b THEN a ELSE b
Fresh(n) == [i \in 1 .. n |-> 238]                       \* memory nothing was read into
Zeros(n) == [i \in 1 .. n |-> 0]

LInit(d) == disk = d /\ pos = 0 /\ wb = <<>> /\ feed = <<>> /\ rb = <<>> /\ kept = [i \in Ids |-> None]

\* reading and writing at an offset
Avail(at) == IF at >= Len(disk) THEN 0 ELSE Len(disk) - at
ReadN(o, at) == Min(Sum(o.sizes), Avail(at))
ReadErr(o, at) == IF Sum(o.sizes) > 0 /\ ReadN(o, at) = 0 THEN "eof" ELSE "ok"
ReadMem(o, at) == SubSeq(disk, at + 1, at + ReadN(o, at)) \o Fresh(Sum(o.sizes) - ReadN(o, at))
Written(data, at) ==
  IF data = <<>> THEN disk
  ELSE LET base == IF at > Len(disk) THEN disk \o Zeros(at - Len(disk)) ELSE disk
       IN SubSeq(base, 1, at) \o data \o (IF at + Len(data) < Len(base) THEN SubSeq(base, at + Len(data) + 1, Len(base)) ELSE <<>>)

Refusal(k) == CASE k \in {"v4e", "v4h"} -> "generic" [] k = "greet" -> "no_acceptable_auth_method" [] k = "login" -> "login_failed" [] OTHER -> "connection_refused"
World == <<disk, pos, wb, feed, rb>>
\* what running o now does: ec, n: what the completion says; mem: what it read; wire: what went to the server or the
\* next layer; acc: the listeners that were reached
Effect(o, ec, n, mem, wire, acc) ==
  CASE o.k = "rd" -> /\ ec = ReadErr(o, pos) /\ n = ReadN(o, pos) /\ mem = ReadMem(o, pos) /\ wire = <<>> /\ acc = <<>>
                     /\ pos' = pos + n /\ UNCHANGED <<disk, wb, feed, rb>>
    [] o.k = "rdat" -> /\ ec = ReadErr(o, o.off) /\ n = ReadN(o, o.off) /\ mem = ReadMem(o, o.off) /\ wire = <<>> /\ acc = <<>>
                       /\ UNCHANGED World
    [] o.k = "wr" -> /\ ec = "ok" /\ n = Len(o.data) /\ mem = <<>> /\ wire = <<>> /\ acc = <<>>
                     /\ disk' = Written(o.data, pos) /\ pos' = pos + n /\ UNCHANGED <<wb, feed, rb>>
    [] o.k = "wrat" -> /\ ec = "ok" /\ n = Len(o.data) /\ mem = <<>> /\ wire = <<>> /\ acc = <<>>
                       /\ disk' = Written(o.data, o.off) /\ UNCHANGED <<pos, wb, feed, rb>>
    [] o.k = "flush" -> /\ ec = "ok" /\ n = Len(wb) /\ mem = <<>> /\ wire = wb /\ acc = <<>>
                        /\ wb' = <<>> /\ UNCHANGED <<disk, pos, feed, rb>>
    [] o.k = "fill" -> /\ mem = <<>> /\ wire = <<>> /\ acc = <<>> /\ UNCHANGED <<disk, pos, wb>>
                       /\ IF feed = <<>> THEN ec = "eof" /\ n = 0 /\ UNCHANGED <<feed, rb>>
                          ELSE ec = "ok" /\ n \in 1 .. Len(feed)
                               /\ rb' = rb \o SubSeq(feed, 1, n) /\ feed' = SubSeq(feed, n + 1, Len(feed))
    [] o.k = "conn" -> /\ mem = <<>> /\ wire = <<>> /\ UNCHANGED World
                       /\ IF o.dest \in {1, 2} THEN ec = "ok" /\ n = o.dest /\ acc = <<o.dest>>
                          ELSE ec = "connection_refused" /\ n = 0 /\ acc = <<>>
    [] o.k \in SocksKinds ->
         /\ mem = <<>> /\ acc = <<>> /\ UNCHANGED World
         /\ Len(wire) = Len(S!Encode(o)) /\ S!Matches(wire, S!Encode(o))
         /\ ec = (IF o.grant = 1 THEN "ok" ELSE Refusal(o.k))
         /\ o.k = "greet" /\ o.grant = 1 => n = o.meths[1]
\* the handler is invoked once, where it asked for, and never from the function that starts the operation
Delivered(r, where) == r.times = 1 /\ r.where \in where /\ ~r.inl
Where(tok) == CASE tok = "fn" -> {1} [] tok = "bound" -> {2} [] OTHER -> {0, 1, 2}
\* what comes with an error code through an exception is not visible
N(o, tok, ec, n) == n
StartEager(id, o, tok, r, mem, wire, acc) ==
  /\ kept[id] = None /\ tok \in Eager /\ UNCHANGED kept
  /\ IF tok = "detached" THEN \E ec \in {"ok", "eof", "generic", "no_acceptable_auth_method", "login_failed", "connection_refused"}, n \in 0 .. 255 : Effect(o, ec, n, mem, wire, acc) /\ r.times = 0
     ELSE /\ Delivered(r, Where(tok))
          /\ \E n \in 0 .. 255 : Effect(o, r.ec, n, mem, wire, acc) /\ (n = r.n \/ (o.k \in SocksKinds /\ r.ec # "ok") \/ (tok = "future" /\ r.ec # "ok"))
\* nothing happens until it is launched
StartLazy(id, o, tok) == kept[id] = None /\ tok \in Lazy /\ kept' = [kept EXCEPT ![id] = [op |-> o, tok |-> tok]] /\ UNCHANGED World
\* the objects the arguments came from are changed or destroyed
Spoil(id) == kept[id] # None /\ UNCHANGED lvars
Drop(id) == kept[id] # None /\ kept' = [kept EXCEPT ![id] = None] /\ UNCHANGED World
Run(id, bound, keep, r, mem, wire, acc) ==
  /\ kept[id] # None /\ (keep => kept[id].tok = "lazy")
  /\ kept' = IF keep THEN kept ELSE [kept EXCEPT ![id] = None]
  /\ Delivered(r, {IF bound = 1 THEN 2 ELSE 1})
  /\ \E n \in 0 .. 255 : Effect(kept[id].op, r.ec, n, mem, wire, acc) /\ (n = r.n \/ (kept[id].op.k \in SocksKinds /\ r.ec # "ok") \/ (kept[id].tok = "await" /\ r.ec # "ok"))
Put(b) == wb' = wb \o b /\ UNCHANGED <<disk, pos, feed, rb, kept>>
\* cancelling and reopening the file concerns operations that were started: one that is launched later finds the file
\* as it is then
Cancel == UNCHANGED lvars
Reopen == pos' = 0 /\ UNCHANGED <<disk, wb, feed, rb, kept>>
\* the program uses what was filled
Take(n) == n <= Len(rb) /\ rb' = SubSeq(rb, n + 1, Len(rb)) /\ UNCHANGED <<disk, pos, wb, feed, kept>>
Feed(b) == feed' = feed \o b /\ UNCHANGED <<disk, pos, wb, rb, kept>>
=============================================================================
