------------------------------- MODULE FileIO -------------------------------
(* Reading, writing, seeking and resizing files through synchronous handles (F01).
   A position is <<g, d>>, standing for g * 2^32 + d with d small, so that positions beyond
   32 bits are part of the model. A file's content is the set of its non-zero bytes. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Files, Slots
VARIABLES data, size,        \* file -> {<<g, d, byte>>}, file -> position
          of,                \* slot -> open file description, 0 if the slot holds none
          desc               \* open file descriptions: sequence of [f, pos, rd, wr]
iovars == <<data, size, of, desc>>

Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
Le(p, q) == p = q \/ Lt(p, q)
Add(p, n) == <<p[1], p[2] + n>>
Plus(p, q) == <<p[1] + q[1], p[2] + q[2]>>
MaxP(p, q) == IF Lt(p, q) THEN q ELSE p
Zero == <<0, 0>>
Small == 100000
\* how many of the next n bytes after p lie before the end e
Avail(p, e, n) == IF Le(e, p) THEN 0 ELSE IF p[1] < e[1] THEN n ELSE IF e[2] - p[2] < n THEN e[2] - p[2] ELSE n
ByteAt(f, p, i) == LET S == {x \in data[f] : x[1] = p[1] /\ x[2] = p[2] + i} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[3]
Bytes(f, p, n) == [i \in 1 .. n |-> ByteAt(f, p, i - 1)]
Put(f, p, q) == {x \in data[f] : ~(x[1] = p[1] /\ x[2] >= p[2] /\ x[2] < p[2] + Len(q))}
                \cup {<<p[1], p[2] + i - 1, q[i]>> : i \in {j \in 1 .. Len(q) : q[j] # 0}}

IOInit == data = [f \in Files |-> {}] /\ size = [f \in Files |-> Zero] /\ of = [s \in Slots |-> 0] /\ desc = <<>>
D(s) == desc[of[s]]
Open(s) == of[s] # 0
At(s) == D(s).pos

OpenSlot(s, f, acc) ==
  /\ of[s] = 0
  /\ desc' = Append(desc, [f |-> f, pos |-> Zero, rd |-> acc # "w", wr |-> acc # "r"])
  /\ of' = [of EXCEPT ![s] = Len(desc')]
  /\ UNCHANGED <<data, size>>
Drop(s) == of' = [of EXCEPT ![s] = 0] /\ UNCHANGED <<data, size, desc>>
\* a duplicate shares the position
Dup(s, t) == of[s] = 0 /\ Open(t) /\ of' = [of EXCEPT ![s] = of[t]] /\ UNCHANGED <<data, size, desc>>

\* A read of tot bytes at p, returning n of them and err, leaving buf in the buffers (pad where nothing was read).
\* The system may always transfer less than it could, but something.
ReadAt(s, p, tot, n, err, buf, pad) ==
  /\ Open(s)
  /\ Len(buf) = tot
  /\ IF ~D(s).rd \/ p[1] < 0
       THEN n = 0 /\ (err \notin {"ok", "eof"} \/ (tot = 0 /\ err = "ok")) /\ \A i \in 1 .. tot : buf[i] = pad
     ELSE LET av == Avail(p, size[D(s).f], tot)
          IN IF tot = 0 THEN n = 0 /\ err = "ok"
             ELSE IF av = 0 THEN n = 0 /\ err = "eof" /\ \A i \in 1 .. tot : buf[i] = pad
             ELSE /\ n \in 1 .. av
                  /\ err = "ok"
                  /\ buf = Bytes(D(s).f, p, n) \o [i \in 1 .. tot - n |-> pad]
  /\ UNCHANGED <<data, size, of>>
Read(s, tot, n, err, buf, pad) ==
  /\ ReadAt(s, At(s), tot, n, err, buf, pad)
  /\ desc' = [desc EXCEPT ![of[s]].pos = Add(@, n)]
PRead(s, p, tot, n, err, buf, pad) == ReadAt(s, p, tot, n, err, buf, pad) /\ UNCHANGED desc

WriteAt(s, p, q, n, err) ==
  /\ Open(s)
  /\ LET tot == Len(q)
         f == D(s).f
     IN IF ~D(s).wr \/ p[1] < 0
          THEN n = 0 /\ (err \notin {"ok", "eof"} \/ (tot = 0 /\ err = "ok")) /\ UNCHANGED <<data, size>>
        ELSE IF tot = 0 THEN n = 0 /\ err = "ok" /\ UNCHANGED <<data, size>>
        ELSE /\ n \in 1 .. tot
             /\ err = "ok"
             /\ data' = [data EXCEPT ![f] = Put(f, p, SubSeq(q, 1, n))]
             /\ size' = [size EXCEPT ![f] = MaxP(@, Add(p, n))]
  /\ UNCHANGED of
Write(s, q, n, err) ==
  /\ WriteAt(s, At(s), q, n, err)
  /\ desc' = [desc EXCEPT ![of[s]].pos = Add(@, n)]
PWrite(s, p, q, n, err) == WriteAt(s, p, q, n, err) /\ UNCHANGED desc

\* Long transfers, the same rules: nz are the places and values of the bytes other than zero. A long read leaves what it
\* did not fill alone (clean).
LReadAt(s, p, tot, n, err, nz, clean) ==
  /\ Open(s) /\ tot > 0 /\ clean
  /\ IF ~D(s).rd \/ p[1] < 0
       THEN n = 0 /\ err \notin {"ok", "eof"} /\ nz = {}
     ELSE LET f == D(s).f
              av == Avail(p, size[f], tot)
          IN IF av = 0 THEN n = 0 /\ err = "eof" /\ nz = {}
             ELSE /\ n \in 1 .. av
                  /\ err = "ok"
                  /\ nz = {<<x[2] - p[2], x[3]>> : x \in {y \in data[f] : y[1] = p[1] /\ y[2] >= p[2] /\ y[2] < p[2] + n}}
  /\ UNCHANGED <<data, size, of>>
LRead(s, tot, n, err, nz, clean) == LReadAt(s, At(s), tot, n, err, nz, clean) /\ desc' = [desc EXCEPT ![of[s]].pos = Add(@, n)]
LPRead(s, p, tot, n, err, nz, clean) == LReadAt(s, p, tot, n, err, nz, clean) /\ UNCHANGED desc
LWriteAt(s, p, tot, nz, n, err) ==
  /\ Open(s) /\ tot > 0
  /\ LET f == D(s).f
     IN IF ~D(s).wr \/ p[1] < 0 THEN n = 0 /\ err \notin {"ok", "eof"} /\ UNCHANGED <<data, size>>
        ELSE /\ n \in 1 .. tot
             /\ err = "ok"
             /\ data' = [data EXCEPT ![f] = {x \in @ : ~(x[1] = p[1] /\ x[2] >= p[2] /\ x[2] < p[2] + n)}
                                           \cup {<<p[1], p[2] + y[1], y[2]>> : y \in {z \in nz : z[1] < n}}]
             /\ size' = [size EXCEPT ![f] = MaxP(@, Add(p, n))]
  /\ UNCHANGED of
LWrite(s, tot, nz, n, err) == LWriteAt(s, At(s), tot, nz, n, err) /\ desc' = [desc EXCEPT ![of[s]].pos = Add(@, n)]
LPWrite(s, p, tot, nz, n, err) == LWriteAt(s, p, tot, nz, n, err) /\ UNCHANGED desc

Origin(s, org) == CASE org = "begin" -> Zero [] org = "current" -> At(s) [] org = "end" -> size[D(s).f]
Seek(s, org, off, ret, err) ==
  /\ Open(s)
  /\ LET to == Plus(Origin(s, org), off)
     IN IF Lt(to, Zero)
          THEN err \notin {"ok", "eof"} /\ UNCHANGED desc
          ELSE err = "ok" /\ ret = to /\ desc' = [desc EXCEPT ![of[s]].pos = to]
  /\ UNCHANGED <<data, size, of>>
Position(s, ret, err) == Open(s) /\ err = "ok" /\ ret = At(s) /\ UNCHANGED iovars
Size(s, ret, err) == Open(s) /\ err = "ok" /\ ret = size[D(s).f] /\ UNCHANGED iovars
Truncate(s, to, err) ==
  /\ Open(s)
  /\ IF ~D(s).wr \/ to[1] < 0
       THEN err \notin {"ok", "eof"} /\ UNCHANGED <<data, size>>
       ELSE /\ err = "ok"
            /\ size' = [size EXCEPT ![D(s).f] = to]
            /\ data' = [data EXCEPT ![D(s).f] = {x \in @ : Lt(<<x[1], x[2]>>, to)}]
  /\ UNCHANGED <<of, desc>>
\* a handle that holds no descriptor: everything fails and nothing happens
Closed(s, err) == of[s] = 0 /\ err \notin {"ok", "eof"} /\ UNCHANGED iovars

\* ---- what the model promises
Inside == \A f \in Files : \A x \in data[f] : Lt(<<x[1], x[2]>>, size[f]) /\ x[3] # 0 /\ Le(Zero, <<x[1], x[2]>>)
PosOk == \A k \in 1 .. Len(desc) : Le(Zero, desc[k].pos)
\* one byte per place
Functional == \A f \in Files : \A x, y \in data[f] : (x[1] = y[1] /\ x[2] = y[2]) => x = y
=============================================================================
