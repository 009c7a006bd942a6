----------------------------- MODULE MCFileOpen -----------------------------
EXTENDS FileOpen, TLC, Json
CONSTANT Emitting
VARIABLE op
O(x) == op' = x
MCInit == op = <<"init">> /\ fs = [n \in Names |-> Absent]
Perms == {438, 420, 2541}        \* 0666, 0644, 04755
Umasks == {18, 63, 0}
Acc == {1, 2, 3}
Disp == {4, 8, 16, 32, 64}
Flags == {a + d : a \in Acc, d \in Disp} \cup {3 + 4 + 8, 3 + 16 + 64, 1 + 4 + 8 + 16 + 32 + 64, 2 + 8 + 32, -1, 3 + 8 + 128, 3 + 32 + 256}
H(fl, ok) == [isopen |-> ok, rd |-> Rd(fl), wr |-> Wr(fl), cloexec |-> TRUE, dupok |-> TRUE, app |-> FALSE, pos |-> 0, left |-> 0]
Next ==
  \/ \E n \in {"a"}, c \in {"old"}, m \in {420, 256} : fs[n].k = "absent" /\ Set(n, File(c, m)) /\ O(<<"mk", n, "file", c, m>>)
  \/ fs["a"].k = "absent" /\ Set("a", [Absent EXCEPT !.k = "dir"]) /\ O(<<"mk", "a", "dir">>)
  \/ \E t \in {"a", "l"} : fs["l"].k = "absent" /\ Set("l", [Absent EXCEPT !.k = "link", !.c = t]) /\ O(<<"mk", "l", "link", t>>)
  \/ \E n \in Names : fs[n].k # "absent" /\ Set(n, Absent) /\ O(<<"rm", n>>)
  \/ \E n \in Names, fl \in Flags, p \in Perms, u \in Umasks, e \in {"ok", "EINVAL", "ENOENT", "EEXIST", "other"} :
       /\ ~Open_ended(fl) /\ (p = 438 \/ u = 18) /\ (e = "other" => Outcome(n, fl) = "any") /\ (e \notin {"ok", "other"} => Outcome(n, fl) = e)
       /\ Open(n, fl, p, u, e, H(fl, e = "ok"))
       /\ O(<<"lopen", n, fl, p, u, e>>)
MCSpec == MCInit /\ [][Next]_<<fs, op>>
V == fs
Emit == Emitting => PrintT("T " \o ToJson([f |-> fs, o |-> op', t |-> fs']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(fs))
\* what a user may conclude from the flags alone
OnlyCreating == [][op'[1] = "lopen" /\ (\E n \in Names : fs[n].k = "absent" /\ fs'[n].k # "absent") => Always(op'[3]) \/ New(op'[3]) \/ OpenAlways(op'[3])]_<<fs, op>>
OnlyTruncating == [][op'[1] = "lopen" /\ (\E n \in Names : fs[n].c = "old" /\ fs'[n].c # "old") => Always(op'[3]) \/ Truncate(op'[3])]_<<fs, op>>
FailureIsClean == [][op'[1] = "lopen" /\ op'[6] # "ok" => UNCHANGED fs]_<<fs, op>>
NeverRemoved == [][op'[1] = "lopen" => \A n \in Names : fs[n].k # "absent" => fs'[n].k = fs[n].k]_<<fs, op>>
ModesKept == [][op'[1] = "lopen" => \A n \in Names : fs[n].k = "file" => fs'[n].m = fs[n].m]_<<fs, op>>
NewIsNew == [][op'[1] = "lopen" /\ op'[6] = "ok" /\ New(op'[3]) => \E n \in Names : fs[n].k = "absent" /\ fs'[n].k = "file"]_<<fs, op>>
=============================================================================
