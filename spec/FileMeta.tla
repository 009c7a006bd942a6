------------------------------ MODULE FileMeta ------------------------------
(* Permissions and times of one file, changed and read through several handles (F05).
   Permissions are sets of bit numbers 0 .. 11. A time is <<day, second, nanosecond>> after 1970,
   the second and nanosecond never negative; Epoch itself means "leave it alone" (documented). *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots
VARIABLES mode, atime, mtime
mtvars == <<mode, atime, mtime>>
Bits(n) == {i \in 0 .. 11 : (n \div (2 ^ i)) % 2 = 1}
Epoch == <<0, 0, 0>>
Lt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ (p[2] < q[2] \/ (p[2] = q[2] /\ p[3] < q[3])))
\* what file_time_type, 64 bits of nanoseconds, can represent
First == <<-106752, 763, 145224192>>
Last == <<106751, 85636, 854775807>>
Fits(t) == ~Lt(t, First) /\ ~Lt(Last, t)

\* replace is the default
SetPerm(p, opt, err) ==
  /\ err = "ok"
  /\ mode' = CASE opt \in {"default", "replace"} -> p [] opt = "add" -> mode \cup p [] opt = "remove" -> mode \ p
  /\ UNCHANGED <<atime, mtime>>
GetPerm(p, err) == err = "ok" /\ p = mode /\ UNCHANGED mtvars
SetTimes(a, m, err) ==
  /\ err = "ok"
  /\ atime' = (IF a = Epoch THEN atime ELSE a)
  /\ mtime' = (IF m = Epoch THEN mtime ELSE m)
  /\ UNCHANGED mode
\* both times or neither
GetTimes(a, m, err) ==
  /\ IF Fits(atime) /\ Fits(mtime) THEN err = "ok" /\ a = atime /\ m = mtime
     ELSE err = "EOVERFLOW" /\ a = Epoch /\ m = Epoch
  /\ UNCHANGED mtvars
\* files have no such attributes here: nothing happens
Attributes(ret, err) == err = "ok" /\ ret = 0 /\ UNCHANGED mtvars
\* somebody else sets times directly: whatever the file system makes of it
Elsewhere(a, m) == atime' = a /\ mtime' = m /\ UNCHANGED mode
=============================================================================
