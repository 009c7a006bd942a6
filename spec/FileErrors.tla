----------------------------- MODULE FileErrors -----------------------------
(* What every synchronous file function reports (F04): success, or the error the system gave,
   for every kind of descriptor, every function, every way of calling it and every error the
   system may give. A slot holds a handle to some kind of descriptor:
     closed, rw / ro / wo (a regular file), dir, rpipe / wpipe (a pipe's ends, both kept open,
     not blocking, the pipe is empty), bpipe (the end of a pipe nobody reads), full (a device that never has space). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots
VARIABLES kind,      \* slot -> kind, "none" if it holds no object
          cls        \* slot -> u, h, b: unique_file_handle, file_handle, basic_file
fevars == <<kind, cls>>
Kinds == {"closed", "rw", "ro", "wo", "dir", "rpipe", "wpipe", "bpipe", "full"}
Pipe == {"rpipe", "wpipe", "bpipe"}
Regular == {"rw", "ro", "wo"}

FEInit == kind = [s \in Slots |-> "none"] /\ cls = [s \in Slots |-> "-"]

\* what the system says to fn(arg) on a descriptor of kind k if nothing is injected. arg is "ok" or "neg" (a negative place).
Sys0(fn, k) ==
  IF k = "closed" THEN (IF fn \in {"getattr", "setattr", "close"} THEN {"ok", "EBADF"} ELSE {"EBADF"}) ELSE
  CASE fn \in {"size", "getperm", "setperm", "gettimes", "settimes", "getattr", "setattr", "dup", "close", "cancel"} -> {"ok"}
    [] fn \in {"pos", "seek"} -> IF k \in Pipe THEN {"ESPIPE"} ELSE {"ok"}
    [] fn = "trunc" -> IF k \in {"ro", "dir", "full"} \cup Pipe THEN {"EINVAL"} ELSE {"ok"}
    [] fn = "read" -> CASE k \in {"wo", "wpipe", "bpipe"} -> {"EBADF"} [] k = "dir" -> {"EISDIR"} [] k = "rpipe" -> {"EAGAIN"} [] OTHER -> {"ok", "eof"}
    [] fn = "readat" -> CASE k \in Pipe -> {"ESPIPE", "EBADF"} [] k = "wo" -> {"EBADF"} [] k = "dir" -> {"EISDIR"} [] OTHER -> {"ok", "eof"}
    [] fn = "write" -> CASE k \in {"ro", "rpipe", "dir"} -> {"EBADF"} [] k = "bpipe" -> {"EPIPE"} [] k = "full" -> {"ENOSPC"} [] k = "wpipe" -> {"ok", "EAGAIN"} [] OTHER -> {"ok"}
    [] fn = "writeat" -> CASE k \in Pipe -> {"ESPIPE", "EBADF"} [] k \in {"ro", "dir"} -> {"EBADF"} [] k = "full" -> {"ENOSPC"} [] OTHER -> {"ok"}
\* a negative place is invalid whatever else is wrong (a device may not mind it)
Sys(fn, k, arg) == IF arg = "ok" \/ (k = "full" /\ fn = "seek") THEN Sys0(fn, k)
                   ELSE {"EINVAL"} \cup (IF k = "full" THEN Sys0(fn, k) ELSE Sys0(fn, k) \ {"ok", "eof"})
\* what the system says to opening such a path
SysOpen(path) == CASE path = "good" -> {"ok"} [] path = "missing" -> {"ENOENT"} [] path = "below" -> {"ENOTDIR"} [] path = "empty" -> {"ENOENT"}
                   [] path = "dir" -> {"EISDIR"} [] path = "exists" -> {"EEXIST"} [] path = "contradictory" -> {"EINVAL"} [] path = "long" -> {"ENAMETOOLONG"}
\* inj: the errors given to the call in place of the system's own, interruptions left out.
\* Interruptions are retried; close() is not, and may or may not report them.
Report(fn, sys, inj, intr) ==
  IF inj # <<>> THEN {inj[1]}
  ELSE IF fn = "close" /\ intr THEN sys \cup {"EINTR"} ELSE sys

Object(s, k, c) == kind[s] = "none" /\ kind' = [kind EXCEPT ![s] = k] /\ cls' = [cls EXCEPT ![s] = c]
Drop(s) == kind' = [kind EXCEPT ![s] = "none"] /\ cls' = [cls EXCEPT ![s] = "-"]
\* a call that leaves the descriptor there
Call(s, fn, arg, inj, intr, err) ==
  /\ kind[s] # "none"
  /\ err \in Report(fn, Sys(fn, kind[s], arg), inj, intr)
  /\ UNCHANGED fevars
\* a transfer of no bytes: there is no end of file to report, and the system may not look at what else is wrong
CanDo(fn, k) == IF fn \in {"read", "readat"} THEN k \in {"rw", "ro"} ELSE k \in {"rw", "wo"}
CallNothing(s, fn, arg, inj, intr, err) ==
  /\ kind[s] # "none"
  /\ LET sys == IF CanDo(fn, kind[s]) /\ arg = "ok" THEN {"ok"} ELSE {"ok", "EINVAL"} \cup (Sys(fn, kind[s], arg) \ {"eof"})
     IN err \in Report(fn, sys, inj, intr)
  /\ UNCHANGED fevars
\* whatever it reports, the descriptor is gone
Close(s, inj, intr, err) ==
  /\ kind[s] # "none"
  /\ err \in Report("close", Sys("close", kind[s], "ok"), inj, intr)
  /\ kind' = [kind EXCEPT ![s] = "closed"] /\ UNCHANGED cls
Dup(s, t, inj, err) ==
  /\ kind[s] = "none" /\ kind[t] # "none"
  /\ err \in Report("dup", Sys("dup", kind[t], "ok"), inj, FALSE)
  /\ kind' = [kind EXCEPT ![s] = IF err = "ok" THEN kind[t] ELSE "closed"] /\ cls' = [cls EXCEPT ![s] = "u"]
\* open() into a unique_file_handle or through a basic_file's member function, which refuses if it is open
Open(s, path, inj, err) ==
  /\ kind[s] # "none" /\ cls[s] \in {"u", "b"} /\ (cls[s] = "u" => kind[s] = "closed")
  /\ IF kind[s] # "closed" THEN err = "already_open" /\ UNCHANGED fevars
     ELSE /\ err \in Report("open", SysOpen(path), inj, FALSE)
          /\ kind' = [kind EXCEPT ![s] = IF err = "ok" THEN "rw" ELSE "closed"] /\ UNCHANGED cls
Std(err) == err = "ok" /\ UNCHANGED fevars
=============================================================================
