---------------------------- MODULE MCWholeFile ----------------------------
EXTENDS WholeFile, TLC, Json
CONSTANTS Emitting, Lens
VARIABLES op, res
O(x) == op' = x
MCInit == WFInit /\ op = <<"init">> /\ res = [err |-> "ok", got |-> None]
Contents == {C(1, 0, n) : n \in Lens}
Inj(fn) == IF fn = "none" THEN <<>> ELSE <<<<fn, "EIO">>>>
Errs == {"ok", "eof", "EIO", "ENOENT", "EISDIR", "message_size", "bad_alloc"}
R(e, g) == res' = [err |-> e, got |-> g]
Gots(f) == {None} \cup (IF IsFile(f) THEN {Part(file[f], from, n) : from \in 0 .. 1, n \in 0 .. 4} ELSE {})
Next ==
  \/ \E f \in Names, c \in Contents \cup {Absent, Dir} : Put(f, c) /\ R("ok", None) /\ O(<<"file", f>> \o c)
  \/ \E f \in Names : \E e \in Errs, g \in Gots(f), from \in {0, 1}, w \in {"path", "handle"}, i \in {"none", "open", "fstat", "read", "close"} :
       /\ (w = "path" => from = 0) /\ (w = "handle" => i \notin {"open", "close"} /\ IsFile(f))
       /\ (i \in {"open", "fstat", "read"} => IsFile(f))
       /\ (i = "read" => IsFile(f) /\ Len3(file[f]) > 0)
       /\ R(e, g)
       /\ \/ \E m \in {0, 2, 100}, b \in BOOLEAN :
               /\ (i = "read" => (IF m < Len3(file[f]) THEN FALSE ELSE b))
               /\ ReadRaw(f, w = "path", from, m, b, Inj(i), g, e, IF IsFile(f) THEN Len3(file[f]) ELSE 0)
               /\ (e # "ok" => g = None)
               /\ O(<<"rraw", f, w, from, m, b, i>>)
          \/ \E t \in Lens :
               /\ (i = "read" => t > 0) /\ i # "fstat"
               /\ ReadBuf(f, w = "path", from, t, Inj(i), g, e, from + t) /\ (e # "ok" => g = None) /\ O(<<"rbuf", f, w, from, t, i>>)
  \/ \E f \in Names, q \in {C(2, 0, n) : n \in Lens}, now \in {C(2, 0, n) : n \in Lens} \cup Contents \cup {Absent, Dir}, i \in {"none", "open", "write", "close"}, e \in Errs :
       /\ (i \in {"write", "close"} => file[f] # Dir) /\ (i = "write" => q # None)
       /\ Write(f, q, Inj(i), FALSE, e, now) /\ R(e, None) /\ O(<<"write", f, q[3], i>>)
MCSpec == MCInit /\ [][Next]_<<wfvars, op, res>>
V == wfvars
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* a read that succeeds gives everything; reading never changes a file; a write that succeeds leaves just what was written
ReadsAll == [][op'[1] = "rraw" /\ res'.err = "ok" /\ op'[4] = 0 => res'.got = file[op'[2]]]_<<wfvars, op, res>>
ReadsFull == [][op'[1] = "rbuf" /\ res'.err = "ok" => res'.got[3] = op'[5]]_<<wfvars, op, res>>
ReadsOnly == [][op'[1] \in {"rraw", "rbuf"} => UNCHANGED file]_<<wfvars, op, res>>
WritesAll == [][op'[1] = "write" /\ res'.err = "ok" => file'[op'[2]] = C(2, 0, op'[3])]_<<wfvars, op, res>>
=============================================================================
