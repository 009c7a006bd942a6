---------------------------- MODULE LinearBuffer ----------------------------
(* The linear byte buffers of asioext/linear_buffer.hpp.

   Several buffer objects, each a byte sequence with a capacity, a maximum
   size and an allocator. How far a buffer grows beyond what is needed is left
   open (any capacity between the new size and the maximum); everything else a
   user can observe is determined. `fail` says that the next allocation the
   operation makes is refused.

   Kind of allocator (see harness): 0 always equal, 1 stateful and propagated
   on move assignment, 2 stateful and not propagated.                        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,      \* buffer objects
          Allocs,     \* allocator identities
          Big         \* stands for every maximum size of Big and more

VARIABLES buf,        \* slot -> buffer or Dead
          ret         \* outcome of the last operation

vars == <<buf, ret>>

Dead == [live |-> FALSE]
Mk(c, cap, max, al) == [live |-> TRUE, c |-> c, cap |-> cap, max |-> max, al |-> al]
Live(s) == buf[s].live

Init == /\ buf = [s \in Slots |-> Dead]
        /\ ret = "ok"

Set(s, b) == buf' = [buf EXCEPT ![s] = b]

(* A buffer that holds n bytes keeps its storage if it is large enough and
   otherwise gets a new one, never beyond the maximum. *)
LegalCap(b, n, cap) == IF n <= b.cap THEN cap = b.cap ELSE cap >= n /\ cap <= b.max

Fail(why) == ret' = why /\ UNCHANGED buf

Change(s, newc, fail, cap) ==
  LET b == buf[s]
      n == Len(newc)
  IN /\ Live(s)
     /\ \/ n > b.max /\ Fail("length_error")
        \/ n <= b.max /\ n > b.cap /\ fail /\ Fail("bad_alloc")
        \/ /\ n <= b.max
           /\ n > b.cap => ~fail
           /\ LegalCap(b, n, cap)
           /\ ret' = "ok"
           /\ Set(s, [b EXCEPT !.c = newc, !.cap = cap])

\* Constructors ------------------------------------------------------------
New(s, al) ==
  /\ ~Live(s)
  /\ Set(s, Mk(<<>>, 0, Big, al))
  /\ ret' = "ok"

NewN(s, al, d, max, fail, cap) ==
  /\ ~Live(s)
  /\ Len(d) <= max
  /\ \/ /\ fail
        /\ Fail("bad_alloc")
     \/ /\ fail => d = <<>>          \* an empty buffer needs no allocation
        /\ cap >= Len(d) /\ cap <= max
        /\ Set(s, Mk(d, cap, max, al))
        /\ ret' = "ok"

Destroy(s) == Live(s) /\ Set(s, Dead) /\ ret' = "ok"

CopyConstruct(s, t, fail, cap, al) ==
  /\ ~Live(s) /\ Live(t)
  /\ al \in {0, buf[t].al}
  /\ \/ fail /\ Fail("bad_alloc")
     \/ /\ fail => buf[t].c = <<>>
        /\ cap >= Len(buf[t].c) /\ cap <= buf[t].max
        /\ Set(s, Mk(buf[t].c, cap, buf[t].max, al))
        /\ ret' = "ok"

Emptied(b, max) == Mk(<<>>, 0, max, b.al)

MoveConstruct(s, t, tmax) ==
  /\ ~Live(s) /\ Live(t)
  /\ tmax \in {buf[t].max, Big}
  /\ buf' = [buf EXCEPT ![s] = buf[t], ![t] = Emptied(buf[t], tmax)]
  /\ ret' = "ok"

\* Assignments -------------------------------------------------------------
CopyAssign(s, t, fail, cap) ==
  /\ Live(t)
  /\ Change(s, buf[t].c, fail, cap)

(* Move assignment hands over content, maximum size and (where the allocator
   may follow) the storage; the source is left empty without storage. *)
MoveAssign(kind, s, t, cap, tmax) ==
  /\ Live(s) /\ Live(t)
  /\ ret' = "ok"
  /\ IF s = t
     THEN \/ UNCHANGED buf
          \/ tmax \in {buf[s].max, Big} /\ Set(s, Emptied(buf[s], tmax))
     ELSE LET b == buf[t]
              steal == kind # 2 \/ buf[s].al = b.al
          IN /\ tmax \in {b.max, Big}
             /\ IF steal THEN cap = b.cap ELSE cap >= Len(b.c) /\ cap <= b.max
             /\ buf' = [buf EXCEPT ![s] = Mk(b.c, cap, b.max, IF kind = 2 THEN buf[s].al ELSE b.al),
                                   ![t] = Emptied(b, tmax)]

\* Contents ----------------------------------------------------------------
Append1(s, d, fail, cap) == Live(s) /\ Change(s, buf[s].c \o d, fail, cap)

Insert(s, pos, d, fail, cap) ==
  /\ Live(s) /\ pos \in 0 .. Len(buf[s].c)
  /\ LET c == buf[s].c
     IN Change(s, SubSeq(c, 1, pos) \o d \o SubSeq(c, pos + 1, Len(c)), fail, cap)

Erase(s, f, l) ==
  /\ Live(s) /\ f \in 0 .. l /\ l <= Len(buf[s].c)
  /\ LET c == buf[s].c
     IN Change(s, SubSeq(c, 1, f) \o SubSeq(c, l + 1, Len(c)), FALSE, buf[s].cap)

Resize(s, n, fill, fail, cap) ==
  /\ Live(s)
  /\ LET c == buf[s].c
     IN Change(s, IF n <= Len(c) THEN SubSeq(c, 1, n)
                  ELSE c \o [i \in 1 .. n - Len(c) |-> fill], fail, cap)

Reserve(s, n, fail, cap) ==
  LET b == buf[s]
  IN /\ Live(s)
     /\ \/ n > b.max /\ Fail("length_error")
        \/ n <= b.max /\ n > b.cap /\ fail /\ Fail("bad_alloc")
        \/ /\ n <= b.max
           /\ n > b.cap => ~fail
           /\ LegalCap(b, n, cap)
           /\ ret' = "ok"
           /\ Set(s, [b EXCEPT !.cap = cap])

Clear(s) == Live(s) /\ Change(s, <<>>, FALSE, buf[s].cap)

\* A request for (close to) the largest representable number of bytes
Huge(s) == Live(s) /\ buf[s].max < Big /\ Fail("length_error")

(* Operations on s that must leave the bytes where they are in memory:
   whatever the operation, if storage was not replaced.                  *)
KeepsStorage(s) == Live(s) /\ buf'[s].live /\ buf'[s].cap = buf[s].cap /\ ret' = "ok"

\* What allocator al has outstanding, in bytes.
RECURSIVE Sum(_, _, _)
Sum(S, al, f) == IF S = {} THEN 0
                 ELSE LET x == CHOOSE x \in S : TRUE
                      IN (IF f[x].live /\ f[x].al = al THEN f[x].cap ELSE 0) + Sum(S \ {x}, al, f)
Outstanding(al, f) == Sum(Slots, al, f)

-----------------------------------------------------------------------------
\* Properties
Bounded == \A s \in Slots : Live(s) => /\ Len(buf[s].c) <= buf[s].cap
                                       /\ buf[s].cap <= buf[s].max
FailureIsAtomic == [][ret' # "ok" => UNCHANGED buf]_vars
=============================================================================
