--------------------------- MODULE MCLinearBuffer ---------------------------
(* Bounded instance of LinearBuffer: checks its properties and prints the
   transition graph from which scripts for the real code are generated.     *)
EXTENDS LinearBuffer, TLC, Json
CONSTANTS Data, MaxLen, MaxSizes, Fails, Kinds, TwoSlot, Emitting
VARIABLES op, kind
mcvars == <<buf, ret, op, kind>>

Caps == 0 .. MaxLen
O(x) == op' = x /\ UNCHANGED kind
N(f) == IF f THEN 1 ELSE 0

Data1 == {<<>>, <<1>>, <<2, 3>>}
Data2 == {<<>>, <<1>>, <<2>>}
MCInit == Init /\ op = <<"init">> /\ kind \in Kinds

One == \E s \in Slots, f \in Fails :
  \/ \E d \in Data, cap \in Caps : Append1(s, d, f, cap) /\ O(<<"append", s, d, f>>)
  \/ \E d \in Data, cap \in Caps, pos \in 0 .. MaxLen :
       Insert(s, pos, d, f, cap) /\ \E it \in 0 .. 1 : O(<<"insert", s, pos, d, f, it>>)
  \/ \E a, b \in 0 .. MaxLen : ~f /\ Erase(s, a, b) /\ \E it \in 0 .. 1 : O(<<"erase", s, a, b, it, 1>>)
  \/ \E n \in 0 .. MaxLen + 1, cap \in Caps : Resize(s, n, 9, f, cap) /\ O(<<"resize", s, n, 9, f>>)
  \/ \E n \in 0 .. MaxLen + 1, cap \in Caps : Reserve(s, n, f, cap) /\ O(<<"reserve", s, n, f>>)
  \/ ~f /\ Clear(s) /\ O(<<"clear", s>>)

Two == \E s, t \in Slots, f \in Fails :
  \/ \E cap \in Caps : CopyConstruct(s, t, f, cap, buf[t].al) /\ O(<<"cctor", s, t, f>>)
  \/ ~f /\ Live(t) /\ MoveConstruct(s, t, buf[t].max) /\ O(<<"mctor", s, t>>)
  \/ \E cap \in Caps : CopyAssign(s, t, f, cap) /\ O(<<"cassign", s, t, f>>)
  \/ \E cap \in Caps : ~f /\ Live(t) /\ MoveAssign(kind, s, t, cap, buf[t].max) /\ O(<<"massign", s, t>>)

Make == \E s \in Slots, al \in Allocs :
  \/ New(s, al) /\ O(<<"new", s, al>>)
  \/ \E d \in Data, m \in MaxSizes, f \in Fails, cap \in Caps :
       cap = Len(d) /\ NewN(s, al, d, m, f, cap) /\ O(<<"newn", s, al, d, m, f>>)
  \/ al = 0 /\ Destroy(s) /\ O(<<"del", s>>)

MCNext == One \/ Make \/ (TwoSlot /\ Two)
MCSpec == MCInit /\ [][MCNext]_mcvars

\* Keep the instance finite: no capacity beyond MaxLen
Small == \A s \in Slots : Live(s) => buf[s].cap <= MaxLen /\ Len(buf[s].c) <= MaxLen
View == <<buf, kind>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> <<buf, kind>>, o |-> op', t |-> <<buf', kind'>>]))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(<<buf, kind>>))
Atomic == [][ret' # "ok" => UNCHANGED buf]_mcvars
=============================================================================
