------------------------------ MODULE MCFileIO ------------------------------
EXTENDS FileIO, TLC, Json
CONSTANTS Emitting, MaxSize, MaxPos, NDesc
VARIABLE op
O(x) == op' = x
MCInit == IOInit /\ op = <<"init">>
Sizes == {<<>>, <<1>>, <<2>>, <<0, 1, 2>>}
Sum(q) == IF q = <<>> THEN 0 ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] + q[2] + q[3]
Lens == {<<>>, <<1>>, <<1, 1>>}
Ones(n) == [i \in 1 .. n |-> 1]
Buf(s, p, tot, n) == IF Open(s) /\ D(s).rd /\ p[1] >= 0 THEN Bytes(D(s).f, p, n) \o [i \in 1 .. tot - n |-> 238] ELSE [i \in 1 .. tot |-> 238]
Offs == {<<0, d>> : d \in 0 .. MaxPos}
Errs == {"ok", "eof", "EBADF"}
Next ==
  \/ \E s \in Slots, f \in Files, a \in {"rw", "r", "w"} : (a = "rw" \/ s = 2) /\ Len(desc) < NDesc /\ OpenSlot(s, f, a) /\ O(<<"open", s, f, a>>)
  \/ \E s \in Slots : s = 2 /\ Open(s) /\ Drop(s) /\ O(<<"drop", s>>)
  \/ \E s, t \in Slots : s = 2 /\ s # t /\ Dup(s, t) /\ O(<<"dup", s, t>>)
  \/ \E s \in Slots : Open(s) /\
       \/ \E z \in Sizes, n \in 0 .. 3, e \in Errs :
            /\ n <= Sum(z) /\ (n = 0 \/ n = Avail(At(s), size[D(s).f], Sum(z)) \/ n = 1)
            /\ Read(s, Sum(z), n, e, Buf(s, At(s), Sum(z), n), 238)
            /\ O(<<"read", s, z, IF n > 0 /\ n < Avail(At(s), size[D(s).f], Sum(z)) THEN n ELSE 0>>)
       \/ \E p \in Offs \cup {<<-1, 0>>}, z \in Sizes, n \in 0 .. 3, e \in Errs :
            /\ n <= Sum(z) /\ (n = 0 \/ n = Avail(p, size[D(s).f], Sum(z)))
            /\ PRead(s, p, Sum(z), n, e, Buf(s, p, Sum(z), n), 238) /\ O(<<"readat", s, p[1], p[2], z, 0>>)
       \/ \E z \in Lens, n \in 0 .. 2, e \in Errs :
            /\ At(s)[2] + Len(z) <= MaxSize
            /\ Write(s, z, n, e) /\ O(<<"write", s, z, IF n > 0 /\ n < Len(z) THEN n ELSE 0>>)
       \/ \E p \in Offs \cup {<<-1, 0>>}, z \in Lens, n \in 0 .. 2, e \in Errs :
            /\ p[2] + Len(z) <= MaxSize /\ (n = 0 \/ n = Len(z))
            /\ PWrite(s, p, z, n, e) /\ O(<<"writeat", s, p[1], p[2], z, 0>>)
       \/ \E g \in {"begin", "current", "end"}, d \in {-2, -1, 0, 1}, r \in {<<0, x>> : x \in 0 .. MaxPos}, e \in {"ok", "EINVAL"} :
            /\ (e # "ok" => r = Zero)
            /\ Seek(s, g, <<0, d>>, r, e) /\ O(<<"seek", s, g, 0, d>>)
       \/ \E t \in {<<0, d>> : d \in 0 .. MaxSize} \cup {<<-1, 0>>}, e \in {"ok", "EINVAL"} : Truncate(s, t, e) /\ O(<<"trunc", s, t[1], t[2]>>)
       \/ Position(s, At(s), "ok") /\ O(<<"pos", s>>)
       \/ Size(s, size[D(s).f], "ok") /\ O(<<"size", s>>)
Bounded == \A k \in 1 .. Len(desc) : desc[k].pos[2] <= MaxPos
MCSpec == MCInit /\ [][Next]_<<iovars, op>>
Live == {of[s] : s \in Slots} \ {0}
V == <<data, size, [s \in Slots |-> IF of[s] = 0 THEN <<>> ELSE <<desc[of[s]]>>],
       \E s, t \in Slots : s # t /\ of[s] # 0 /\ of[s] = of[t], Len(desc)>>
Emit == (Emitting /\ Bounded') => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* positional operations leave every position alone; reads leave every file alone
Positional == [][op'[1] \in {"readat", "writeat", "trunc", "pos", "size"} => desc' = desc]_<<iovars, op>>
ReadsOnly == [][op'[1] \in {"read", "readat", "seek", "pos", "size", "dup", "open", "drop"} => data' = data /\ size' = size]_<<iovars, op>>
\* what a write puts somewhere is what a read there gives
ReadBack == [][op'[1] = "writeat" /\ data' # data =>
                 \E s \in Slots : Open(s) /\ \E i \in 1 .. Len(op'[5]) : <<op'[3], op'[4] + i - 1, op'[5][i]>> \in data'[D(s).f]]_<<iovars, op>>
=============================================================================
