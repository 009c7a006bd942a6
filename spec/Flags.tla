--------------------------------- MODULE Flags ---------------------------------
(* The library's flag types. A value is a set of bits; a name is one or       *)
(* several of them; operators are those of sets.                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES vars, type
Slots == 0 .. 2
Types == {"open_flags", "file_perms", "file_perm_options", "file_attrs", "file_attr_options"}
Width == 32
Universe == 0 .. Width - 1
\* the permission bits are those of the file system: owner, group and others have three each, from the most significant
Perm(who, what) ==
  LET base == CASE who = "others" -> 0 [] who = "group" -> 3 [] who = "owner" -> 6
  IN CASE what = "exec" -> {base} [] what = "write" -> {base + 1} [] what = "read" -> {base + 2} [] what = "all" -> base .. base + 2
PermNames == {<<w \o "_" \o x, Perm(w, x)>> : w \in {"owner", "group", "others"}, x \in {"read", "write", "exec", "all"}}
  \cup {<<"none", {}>>, <<"all", 0 .. 8>>, <<"sticky_bit", {9}>>, <<"set_gid", {10}>>, <<"set_uid", {11}>>, <<"mask", 0 .. 11>>,
        <<"create_default", {1, 2, 4, 5, 7, 8}>>}
\* of the others only this is fixed: every simple name is one bit of its own
Simple(t) ==
  CASE t = "open_flags" -> {"access_read", "access_write", "create_new", "create_always", "open_existing", "open_always",
                            "truncate_existing", "exclusive_read", "exclusive_write", "internal_async"}
    [] t = "file_attrs" -> {"hidden", "system", "archive", "no_dump", "not_indexed", "user_immutable", "system_immutable",
                            "user_no_unlink", "system_no_unlink"}
    [] t \in {"file_perm_options", "file_attr_options"} -> {"replace", "add", "remove"}
    [] OTHER -> {}
NamesOf(t) == IF t = "file_perms" THEN {p[1] : p \in PermNames}
              ELSE Simple(t) \cup (IF t = "open_flags" THEN {"none", "access_read_write"} ELSE IF t = "file_attrs" THEN {"none"} ELSE {})
\* bitof: which bit a type's simple names stand for
Named(t, n, bitof) ==
  IF t = "file_perms" THEN (CHOOSE p \in PermNames : p[1] = n)[2]
  ELSE IF n = "none" THEN {} ELSE IF n = "access_read_write" THEN {bitof["access_read"], bitof["access_write"]} ELSE {bitof[n]}

FInit == vars = [i \in Slots |-> {}]
Put(i, s) == vars' = [vars EXCEPT ![i] = s] /\ UNCHANGED type
Op(o, a, b) == CASE o = "and" -> a \cap b [] o = "or" -> a \cup b [] o = "xor" -> (a \ b) \cup (b \ a)
Set(i, s) == Put(i, s)
Binary(o, i, j, k) == Put(k, Op(o, vars[i], vars[j]))
Assign(o, i, j) == Put(i, Op(o, vars[i], vars[j]))
\* (i o= j) o2= k, on the same object
Chain(o, i, j, o2, k) == Put(i, Op(o2, Op(o, vars[i], vars[j]), vars[k]))
Not(i, k) == Put(k, Universe \ vars[i])
Remove(i, j, k) == Put(k, vars[i] \ vars[j])                  \* i & ~j
Has(i, j) == vars[j] \subseteq vars[i]                        \* (i & j) == j
Any(i, j) == vars[i] \cap vars[j] # {}                        \* (i & j) != none
=============================================================================
