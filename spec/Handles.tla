------------------------------ MODULE Handles ------------------------------
(* Owning and plain file handles (F03). A slot holds no object, an owning handle or a plain one; tab is the set
   of open descriptors. A descriptor's number is chosen by the system among those that are not open.
   Every action says which descriptors it closes, in order. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Slots
VARIABLES obj, tab
hvars == <<obj, tab>>
None == [k |-> "-", fd |-> -1]
U(n) == [k |-> "u", fd |-> n]
H(n) == [k |-> "h", fd |-> n]
IsU(s) == obj[s].k = "u"
IsH(s) == obj[s].k = "h"
Fd(s) == obj[s].fd
Owned == {Fd(s) : s \in {t \in Slots : IsU(t)}} \ {-1}
Fresh(n) == n >= 0 /\ n \notin tab
\* closing the descriptor n, if there is one
Gone(n) == IF n = -1 THEN {} ELSE {n}
Seq1(n) == IF n = -1 THEN <<>> ELSE <<n>>
\* only a close that happens can fail
CloseOk(n, ok) == n = -1 => ok

HInit == obj = [s \in Slots |-> None] /\ tab = {}

RawFd(s, n, closed) == ~IsU(s) /\ Fresh(n) /\ obj' = [obj EXCEPT ![s] = H(n)] /\ tab' = tab \cup {n} /\ closed = <<>>
New(s, k, closed) == ~IsU(s) /\ obj' = [obj EXCEPT ![s] = IF k = "u" THEN U(-1) ELSE H(-1)] /\ UNCHANGED tab /\ closed = <<>>
Own(s, f, closed) == ~IsU(s) /\ s # f /\ IsH(f) /\ obj' = [obj EXCEPT ![s] = U(Fd(f))] /\ UNCHANGED tab /\ closed = <<>>
\* made by open() or duplicate(): a fresh descriptor or, on failure, nothing
Made(s, n, ok, made, closed) ==
  /\ obj[s] = None /\ closed = <<>>
  /\ IF ok THEN Fresh(n) /\ made /\ obj' = [obj EXCEPT ![s] = U(n)] /\ tab' = tab \cup {n}
           ELSE obj' = [obj EXCEPT ![s] = IF made THEN U(-1) ELSE None] /\ UNCHANGED tab
Delete(s, closed) ==
  /\ obj' = [obj EXCEPT ![s] = None]
  /\ IF IsU(s) THEN closed = Seq1(Fd(s)) /\ tab' = tab \ Gone(Fd(s)) ELSE closed = <<>> /\ UNCHANGED tab
MoveCtor(s, f, closed) ==
  /\ obj[s] = None /\ IsU(f) /\ closed = <<>>
  /\ obj' = [obj EXCEPT ![s] = U(Fd(f)), ![f] = U(-1)] /\ UNCHANGED tab
\* when closing what the target held fails the transfer may or may not have happened
MoveAssign(s, f, ok, closed) ==
  /\ IsU(s) /\ IsU(f)
  /\ IF s = f
       THEN \/ ok /\ closed = <<>> /\ UNCHANGED hvars
            \/ closed = Seq1(Fd(s)) /\ CloseOk(Fd(s), ok) /\ obj' = [obj EXCEPT ![s] = U(-1)] /\ tab' = tab \ Gone(Fd(s))
     ELSE /\ closed = Seq1(Fd(s)) /\ CloseOk(Fd(s), ok)
          /\ tab' = tab \ Gone(Fd(s))
          /\ \/ obj' = [obj EXCEPT ![s] = U(Fd(f)), ![f] = U(-1)]
             \/ ~ok /\ obj' = [obj EXCEPT ![s] = U(-1)]
\* u = open(...): n is the descriptor the right-hand side made, -1 if it failed
OpenAssign(s, n, ok, closed) ==
  /\ IsU(s)
  /\ (n = -1 \/ Fresh(n)) /\ CloseOk(Fd(s), ok)
  /\ \/ closed = Seq1(Fd(s)) /\ obj' = [obj EXCEPT ![s] = U(n)] /\ tab' = (tab \ Gone(Fd(s))) \cup Gone(n)
     \/ ~ok /\ closed = Seq1(Fd(s)) \o Seq1(n) /\ obj' = [obj EXCEPT ![s] = U(-1)] /\ tab' = tab \ Gone(Fd(s))
Close(s, ok, closed) ==
  /\ obj[s] # None
  /\ closed = Seq1(Fd(s)) /\ CloseOk(Fd(s), ok)
  /\ obj' = [obj EXCEPT ![s].fd = -1] /\ tab' = tab \ Gone(Fd(s))
Clear(s, closed) == IsH(s) /\ obj' = [obj EXCEPT ![s] = H(-1)] /\ UNCHANGED tab /\ closed = <<>>
Get(s, f, closed) == ~IsU(s) /\ IsU(f) /\ obj' = [obj EXCEPT ![s] = H(Fd(f))] /\ UNCHANGED tab /\ closed = <<>>
HCopy(s, f, closed) == ~IsU(s) /\ IsH(f) /\ obj' = [obj EXCEPT ![s] = H(Fd(f))] /\ UNCHANGED tab /\ closed = <<>>
Release(s, f, closed) == ~IsU(s) /\ IsU(f) /\ obj' = [obj EXCEPT ![s] = H(Fd(f)), ![f] = U(-1)] /\ UNCHANGED tab /\ closed = <<>>
Reset(s, f, ok, closed) ==
  /\ IsU(s) /\ IsH(f)
  /\ closed = Seq1(Fd(s)) /\ CloseOk(Fd(s), ok)
  /\ tab' = tab \ Gone(Fd(s))
  /\ obj' = [obj EXCEPT ![s] = IF ok THEN U(Fd(f)) ELSE U(-1)]   \* "if no error occurred, the object is reset"

\* ---- what a program may do with a plain handle without lying about ownership
Free(n) == n = -1 \/ (n \in tab /\ n \notin Owned)

\* ---- what the model promises
OneOwner == \A s, t \in Slots : (s # t /\ IsU(s) /\ IsU(t) /\ Fd(s) # -1) => Fd(s) # Fd(t)
OwnedOpen == Owned \subseteq tab
=============================================================================
