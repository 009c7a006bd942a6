------------------------------ MODULE TraceFlags ------------------------------
EXTENDS Flags, TLC, Json, IOUtils
VARIABLES tid, l,
          bitof        \* which bit the simple names seen so far stand for
Traces == ndJsonDeserialize(IOEnv.TRACES)
Ev == Traces[tid].ev
E == Ev[l]
ASSUME \A i \in 1 .. Len(Traces) : TLCSet(i, 0)
SeqSet(q) == {q[i] : i \in 1 .. Len(q)}
TraceInit == tid \in 1 .. Len(Traces) /\ l = 2 /\ Traces[tid].ev[1].op = "new" /\ type = Traces[tid].ev[1].type /\ type \in Types
             /\ FInit /\ bitof = <<>>
Is(o) == E.op = o
Know(n, bits) ==            \* a simple name is one bit, no other simple name's
  /\ Cardinality(bits) = 1
  /\ LET b == CHOOSE x \in bits : TRUE
     IN /\ n \in DOMAIN bitof => bitof[n] = b
        /\ \A m \in DOMAIN bitof : m # n => bitof[m] # b
        /\ bitof' = [m \in DOMAIN bitof \cup {n} |-> IF m = n THEN b ELSE bitof[m]]
Name ==
  /\ E.n \in NamesOf(type)
  /\ IF E.n \in Simple(type) THEN Know(E.n, SeqSet(E.v[E.i + 1])) /\ Set(E.i, SeqSet(E.v[E.i + 1]))
     ELSE UNCHANGED bitof /\ Set(E.i, Named(type, E.n, bitof))
Rest ==
  \/ Is("bits") /\ Set(E.i, SeqSet(E.b))
  \/ Is("bin") /\ Binary(E.o, E.i, E.j, E.k)
  \/ Is("asg") /\ Assign(E.o, E.i, E.j)
  \/ Is("chain") /\ Chain(E.o, E.i, E.j, E.o2, E.k)
  \/ Is("not") /\ Not(E.i, E.k)
  \/ Is("rem") /\ Remove(E.i, E.j, E.k)
  \/ Is("ask") /\ UNCHANGED <<vars, type>> /\ E.has = Has(E.i, E.j) /\ E.any = Any(E.i, E.j) /\ E.eq = (vars[E.i] = vars[E.j])
Action == IF Is("name") THEN Name ELSE Rest /\ UNCHANGED bitof
Observed == \A i \in Slots : SeqSet(E.v[i + 1]) = vars'[i]
TraceNext == l <= Len(Ev) /\ l' = l + 1 /\ UNCHANGED tid /\ Action /\ Observed /\ E.bad = <<>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, type, bitof, tid, l>>
Progress == IF TLCGet(tid) < l THEN TLCSet(tid, l) ELSE TRUE
Complete1(i) == TLCGet(i) = Len(Traces[i].ev) + 1
Accepted ==
  /\ \A i \in 1 .. Len(Traces) : Complete1(i) \/ PrintT(<<"REJECT", i, TLCGet(i)>>)
  /\ PrintT(<<"VALIDATED", Len(Traces), Cardinality({i \in 1 .. Len(Traces) : Complete1(i)})>>)
=============================================================================
