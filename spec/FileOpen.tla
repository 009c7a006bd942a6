------------------------------ MODULE FileOpen ------------------------------
(* Opening files by name (F02). A name is absent, a file with a content tag and a mode, a directory, or a
   symbolic link to another name. An open is described by its flag bits, as the header documents them. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Odd              \* names that can never be opened or created
VARIABLE fs               \* name -> [k, c, m]

RECURSIVE BitAnd(_, _)
BitAnd(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE (a % 2) * (b % 2) + 2 * BitAnd(a \div 2, b \div 2)
Minus(a, b) == a - BitAnd(a, b)
Has(fl, bit) == (fl \div bit) % 2 = 1
Rd(fl) == Has(fl, 1)
Wr(fl) == Has(fl, 2)
New(fl) == Has(fl, 4)
Always(fl) == Has(fl, 8)
Existing(fl) == Has(fl, 16)
OpenAlways(fl) == Has(fl, 32)
Truncate(fl) == Has(fl, 64)
NDisp(fl) == Cardinality({b \in {4, 8, 16, 32, 64} : Has(fl, b)})
\* negative flags stand for arguments that were never set
Contradictory(fl) == fl < 0 \/ NDisp(fl) > 1
\* what the documentation leaves open: no disposition, no access, or truncation without write access
Open_ended(fl) == ~Contradictory(fl) /\ (NDisp(fl) = 0 \/ ~(Rd(fl) \/ Wr(fl)) \/ (Truncate(fl) /\ ~Wr(fl)))
\* the two special bits that only Windows knows do not matter
Absent == [k |-> "absent", c |-> "none", m |-> 0]
File(c, m) == [k |-> "file", c |-> c, m |-> m]
Kind(n) == IF n \in DOMAIN fs THEN fs[n].k ELSE "absent"
RECURSIVE Target(_, _)
Target(n, depth) == IF depth = 0 THEN "loop" ELSE IF Kind(n) = "link" THEN Target(fs[n].c, depth - 1) ELSE n

CONSTANT Names            \* the names that exist in principle (others are not tracked)
Set(n, v) == fs' = [x \in DOMAIN fs |-> IF x = n THEN v ELSE fs[x]]
Created(perms, umask) == File("none", Minus(BitAnd(perms, 4095), umask))

\* err: "ok", the name of an error, or "any" for an error of the system's choosing
Outcome(n, fl) ==
  LET t == Target(n, 8)
      k == IF n \in Odd \/ t = "loop" THEN "odd" ELSE Kind(t)
  IN CASE Contradictory(fl) -> "EINVAL"
     [] k = "odd" -> "any"
     [] New(fl) -> IF Kind(n) = "absent" THEN "create" ELSE "EEXIST"
     [] k = "absent" -> IF Always(fl) \/ OpenAlways(fl) THEN "create" ELSE "ENOENT"
     [] k = "file" -> IF Always(fl) \/ Truncate(fl) THEN "truncate" ELSE "open"
     [] k = "dir" -> IF Existing(fl) /\ ~Wr(fl) THEN "open" ELSE "any"
     [] OTHER -> "any"
Succeeds(n, fl) == Outcome(n, fl) \in {"create", "truncate", "open"}
Effect(n, fl, perms, umask) ==
  LET t == Target(n, 8)
      o == Outcome(n, fl)
  IN CASE o = "create" -> Set(t, Created(perms, umask))
     [] o = "truncate" -> Set(t, File("none", fs[t].m))
     [] OTHER -> UNCHANGED fs
Error(n, fl, err) == err # "ok" /\ (Outcome(n, fl) = "any" \/ err = Outcome(n, fl))

\* the call, as it is seen from outside; h is the new handle or the absence of one
Open(n, fl, perms, umask, err, h) ==
  /\ IF Open_ended(fl) THEN h.isopen <=> err = "ok"
     ELSE IF Succeeds(n, fl)
       THEN /\ err = "ok" /\ h.isopen
            /\ h.rd = Rd(fl) /\ h.wr = Wr(fl) /\ h.pos = 0 /\ ~h.app
            /\ Effect(n, fl, perms, umask)
       ELSE Error(n, fl, err) /\ ~h.isopen /\ UNCHANGED fs
  \* a failure changes nothing, whatever the flags
  /\ (~h.isopen => UNCHANGED fs)
  /\ h.cloexec /\ h.dupok /\ h.left = 0
\* the system refuses: nothing happened
Refused(err, h) == err # "ok" /\ ~h.isopen /\ h.left = 0 /\ UNCHANGED fs
Validity(fl, valid, argsvalid) ==
  /\ (Contradictory(fl) => ~valid /\ ~argsvalid)
  /\ (~Contradictory(fl) /\ ~Open_ended(fl) => valid /\ argsvalid)
=============================================================================
