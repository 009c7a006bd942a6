---------------------------- MODULE MCFileErrors ----------------------------
EXTENDS FileErrors, TLC, Json
CONSTANTS Emitting
VARIABLES op, res
O(x) == op' = x
MCInit == FEInit /\ op = <<"init">> /\ res = "ok"
None == <<>>
Interruptible == {"read", "readat", "write", "writeat", "trunc", "setperm"}
\* the errors that are given in place of the system's own: none, one, or (interruptible calls) interruptions alone or before one
Injs == {"none", "err", "intr", "intrerr"}
Inj(i) == IF i \in {"err", "intrerr"} THEN <<"EIO">> ELSE None
Errs == {"ok", "eof", "EIO", "EBADF", "EINVAL", "ESPIPE", "EISDIR", "EAGAIN", "EPIPE", "ENOSPC", "EINTR"}
Fns == {"size", "getperm", "gettimes", "getattr", "setattr", "pos", "settimes", "setperm"}
Args == {"seek", "trunc", "readat", "writeat"}
Paths == {"good", "missing", "below", "empty", "dir", "exists", "contradictory", "long"}
Next ==
  \/ \E s \in {1}, k \in Kinds, c \in {"u", "h", "b"} : Object(s, k, c) /\ res' = "ok" /\ O(<<"obj", s, k, c>>)
  \/ \E s \in Slots : kind[s] # "none" /\ Drop(s) /\ res' = "ok" /\ O(<<"drop", s>>)
  \/ \E s \in Slots, e \in Errs, i \in Injs :
       /\ res' = e
       /\ \/ \E f \in Fns \cup {"read", "write"} :
               /\ (i \in {"intr", "intrerr"} => f \in Interruptible)
               /\ (f \in {"setperm", "settimes"} => kind[s] # "full")
               /\ (f \in {"getattr", "setattr"} => i = "none")
               /\ Call(s, f, "ok", Inj(i), i \in {"intr", "intrerr"}, e) /\ O(<<f, s, i>>)
          \/ \E f \in Args, a \in {"ok", "neg"} :
               /\ (i \in {"intr", "intrerr"} => f \in Interruptible)
               /\ Call(s, f, a, Inj(i), i \in {"intr", "intrerr"}, e) /\ O(<<f, s, a, i>>)
          \/ cls[s] = "b" /\ i = "none" /\ Call(s, "cancel", "ok", None, FALSE, e) /\ O(<<"cancel", s>>)
          \/ i \in {"none", "err", "intr"} /\ (kind[s] = "closed" => i = "none") /\ Close(s, Inj(i), i = "intr", e) /\ O(<<"close", s, i>>)
  \/ \E e \in Errs, i \in {"none", "err"} : res' = e /\ Dup(2, 1, Inj(i), e) /\ O(<<"dup", 2, 1, i>>)
  \/ \E s \in Slots, p \in Paths, i \in Injs, e \in {"ok", "already_open", "ENOENT", "ENOTDIR", "EISDIR", "EEXIST", "EINVAL", "ENAMETOOLONG", "EIO"} :
       (p = "contradictory" => i = "none") /\ res' = e /\ Open(s, p, Inj(i), e) /\ O(<<"fopen", s, p, i>>)
  \/ \E w \in {"in", "out", "err"} : res' = "ok" /\ Std("ok") /\ O(<<"std", w>>)
MCSpec == MCInit /\ [][Next]_<<fevars, op, res>>
V == fevars
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* a failed call leaves every handle alone; close always lets go; nothing is open without a successful call
FailureKeeps == [][res' # "ok" /\ op'[1] \notin {"close", "obj", "drop", "dup"} => UNCHANGED fevars]_<<fevars, op, res>>
CloseLetsGo == [][op'[1] = "close" => kind'[op'[2]] = "closed"]_<<fevars, op, res>>
InjectedIsReported == [][IF op'[1] \in {"std", "fopen", "obj", "drop", "init", "cancel"} THEN TRUE ELSE op'[Len(op')] \in {"err", "intrerr"} => res' = "EIO"]_<<fevars, op, res>>
NeverInterrupted == [][res' = "EINTR" => op'[1] = "close"]_<<fevars, op, res>>
=============================================================================
