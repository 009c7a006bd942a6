-------------------------------- MODULE MCFlags --------------------------------
EXTENDS Flags, TLC, Json
CONSTANTS Emitting
VARIABLE op
\* two bits and the sign bit of two objects; the third one receives results
Some == {0, 31}
Pieces == SUBSET Some
MCInit == FInit /\ type = "file_perms" /\ op = <<"init">>
O(x) == op' = x
S2 == 0 .. 1
Ops == {"and", "or", "xor"}
Next ==
  \/ \E i \in S2, s \in Pieces : Set(i, s) /\ O(<<"bits", i, s>>)
  \/ \E o \in Ops, i, j, k \in S2 : Binary(o, i, j, k) /\ O(<<"bin", o, i, j, k>>)
  \/ \E o \in Ops, i, j \in S2 : Assign(o, i, j) /\ O(<<"asg", o, i, j>>)
  \/ \E o, o2 \in Ops, i, j, k \in S2 : Chain(o, i, j, o2, k) /\ O(<<"chain", o, i, j, o2, k>>)
  \/ \E i, k \in S2 : Not(i, k) /\ O(<<"not", i, k>>)
  \/ \E i, j, k \in S2 : Remove(i, j, k) /\ O(<<"rem", i, j, k>>)
MCSpec == MCInit /\ [][Next]_<<vars, type, op>>
Complement == \A i \in Slots : Universe \ (Universe \ vars[i]) = vars[i]
Morgan == \A i, j \in Slots : Universe \ Op("and", vars[i], vars[j]) = Op("or", Universe \ vars[i], Universe \ vars[j])
XorTwice == \A i, j \in Slots : Op("xor", Op("xor", vars[i], vars[j]), vars[j]) = vars[i]
HasAny == \A i, j \in Slots : (Has(i, j) /\ vars[j] # {}) => Any(i, j)
PermsFit == \A p, q \in PermNames : p[1] = q[1] => p = q
ModeBits == /\ (CHOOSE p \in PermNames : p[1] = "owner_read")[2] = {8} /\ UNION {p[2] : p \in PermNames} = 0 .. 11
View1 == <<vars[0], vars[1]>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> View1, o |-> op', t |-> <<vars'[0], vars'[1]>>]))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(View1))
=============================================================================
