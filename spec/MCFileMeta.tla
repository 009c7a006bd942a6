----------------------------- MODULE MCFileMeta -----------------------------
EXTENDS FileMeta, TLC, Json
CONSTANTS Emitting, Perms, Times, Far
VARIABLE op
PermsC == {0, 128, 2048 + 8, 4095 - 128}
TimesC == {<<1, 2, 3>>, <<-1, 86399, 999999999>>}
FarC == {First, Last, <<-106752, 763, 145224191>>, <<106751, 85636, 854775808>>}
O(x) == op' = x
MCInit == mode = Bits(420) /\ atime = <<1, 0, 0>> /\ mtime = <<1, 0, 0>> /\ op = <<"init">>
Opts == {"default", "replace", "add", "remove"}
Next ==
  \/ \E s \in Slots, p \in Perms, o \in Opts : SetPerm(Bits(p), o, "ok") /\ O(<<"setperm", s, p, o>>)
  \/ \E s \in Slots : GetPerm(mode, "ok") /\ O(<<"getperm", s>>)
  \/ \E s \in Slots, a, m \in Times \cup {Epoch} : SetTimes(a, m, "ok") /\ O(<<"settimes", s>> \o a \o m)
  \/ \E s \in Slots, e \in {"ok", "EOVERFLOW"} :
       GetTimes(IF e = "ok" THEN atime ELSE Epoch, IF e = "ok" THEN mtime ELSE Epoch, e) /\ O(<<"gettimes", s>>)
  \/ \E s \in Slots, h \in Opts \cup {"get"} : Attributes(0, "ok") /\ O(<<"attrs", s, h>>)
  \/ \E a, m \in Far \cup {<<1, 0, 0>>} : Elsewhere(a, m) /\ O(<<"rawtimes">> \o a \o m)
MCSpec == MCInit /\ [][Next]_<<mtvars, op>>
V == mtvars
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
AddOnlyAdds == [][op'[1] = "setperm" => (op'[4] = "add" => mode \subseteq mode') /\ (op'[4] = "remove" => mode' \subseteq mode)]_<<mtvars, op>>
Apart == [][(op'[1] = "setperm" => UNCHANGED <<atime, mtime>>) /\ (op'[1] = "settimes" => UNCHANGED mode)]_<<mtvars, op>>
AskingChangesNothing == [][op'[1] \in {"getperm", "gettimes", "attrs"} => UNCHANGED mtvars]_<<mtvars, op>>
=============================================================================
