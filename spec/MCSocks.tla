------------------------------- MODULE MCSocks -------------------------------
EXTENDS Socks, TLC, Json
CONSTANTS Emitting, Mode, MaxOps
VARIABLES op, n
O(x) == op' = x
Op(k, cmd, addr, port, host, user, pass, meths) ==
  [k |-> k, cmd |-> cmd, addr |-> addr, port |-> port, host |-> host, user |-> user, pass |-> pass, meths |-> meths]
A4 == <<10, 0, 200, 7>>
A6 == <<32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
Some(k) ==
  CASE k = "v4e" -> Op(k, 1, A4, 8080, <<>>, <<117>>, <<>>, <<>>)
    [] k = "v4h" -> Op(k, 1, <<>>, 443, <<104, 46>>, <<117>>, <<>>, <<>>)
    [] k = "greet" -> Op(k, 0, <<>>, 0, <<>>, <<>>, <<>>, <<0, 2>>)
    [] k = "login" -> Op(k, 0, <<>>, 0, <<>>, <<117>>, <<112, 113>>, <<>>)
    [] k = "v5e" -> Op(k, 1, A4, 8080, <<>>, <<>>, <<>>, <<>>)
    [] k = "v5h" -> Op(k, 1, <<>>, 443, <<104, 46>>, <<>>, <<>>, <<>>)
Kinds == {"v4e", "v4h", "greet", "login", "v5e", "v5h"}
Bytes == {0, 1, 2, 4, 5, 9, 10, 13, 90, 127, 128, 200, 255}
Fill(len, b) == SubSeq([i \in 1 .. 300 |-> ((b + i * 7) % 255) + 1], 1, len)
Edge == {0, 1, 2, 127, 128, 254, 255, 256, 300}
\* requests
Requests ==
     {Op("v4e", c, a, p, <<>>, u, <<>>, <<>>) : c \in 1 .. 3, a \in {A4, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, A6}, p \in {0, 1, 80, 255, 256, 65535}, u \in {<<>>, Fill(3, 60), <<97, 0, 98>>}}
  \cup {Op("v4h", c, <<>>, p, h, u, <<>>, <<>>) : c \in 1 .. 2, p \in {0, 80, 258, 65535}, h \in {Fill(1, 3), Fill(12, 96), Fill(300, 5), <<0>>, <<97, 0>>}, u \in {<<>>, Fill(1, 1), Fill(256, 9), <<0>>, <<97, 0, 98>>}}
  \cup {Op("greet", 0, <<>>, 0, <<>>, <<>>, <<>>, Fill(l, 254)) : l \in Edge}
  \cup {Op("greet", 0, <<>>, 0, <<>>, <<>>, <<>>, m) : m \in {<<0>>, <<2>>, <<0, 2>>, <<2, 0>>, <<1, 0, 2>>, <<0, 0>>}}
  \cup {Op("login", 0, <<>>, 0, <<>>, Fill(a, 40), Fill(b, 90), <<>>) : a \in Edge, b \in {3, 255}} \cup {Op("login", 0, <<>>, 0, <<>>, Fill(a, 40), Fill(b, 90), <<>>) : a \in {0, 3, 255}, b \in Edge}
  \cup {Op("login", 0, <<>>, 0, <<>>, <<0, 1>>, <<97, 0>>, <<>>)}
  \cup {Op("v5e", c, a, p, <<>>, <<>>, <<>>, <<>>) : c \in 1 .. 3, a \in {A4, <<0, 0, 0, 0>>, <<255, 255, 255, 255>>, A6, Fill(16, 7)}, p \in {0, 1, 80, 255, 256, 65535}}
  \cup {Op("v5h", c, <<>>, p, Fill(l, 100), <<>>, <<>>, <<>>) : c \in {1, 3}, p \in {0, 258, 65535}, l \in Edge}
\* replies: a good one, every other value in every byte that has a meaning
GoodV5(t, l) == <<5, 0, 0, t>> \o (CASE t = 1 -> Fill(4, 20) [] t = 4 -> Fill(16, 20) [] t = 3 -> <<l>> \o Fill(l, 20) [] OTHER -> Fill(4, 20)) \o <<31, 144>>
Good(k) == CASE k \in {"v4e", "v4h"} -> <<0, 90, 31, 144, 1, 2, 3, 4>> [] k = "greet" -> <<5, 2>> [] k = "login" -> <<1, 0>> [] OTHER -> GoodV5(1, 0)
Replies(k) ==
  {[Good(k) EXCEPT ![i] = x] : i \in 1 .. (IF k \in {"v5e", "v5h"} THEN 3 ELSE 2), x \in 0 .. 255}
  \cup (IF k \in {"v5e", "v5h"} THEN {GoodV5(t, 0) : t \in 0 .. 255} \cup {GoodV5(3, l) : l \in 0 .. 255} \cup {[GoodV5(t, 9) EXCEPT ![2] = x] : t \in {1, 3, 4, 0}, x \in 0 .. 10} ELSE {})
  \cup {[Good(k) EXCEPT ![1] = x, ![2] = y] : x \in {0, 1, 4, 5, 255}, y \in {0, 1, 5, 90, 91, 93, 255}}
After == <<71, 69>>
FragReplies(k) == {Good(k)} \cup (IF k \in {"v5e", "v5h"} THEN {GoodV5(3, 0), GoodV5(3, 3), GoodV5(4, 0), [GoodV5(1, 0) EXCEPT ![2] = 5]} ELSE {[Good(k) EXCEPT ![2] = 93]})
Prefix(s, k) == SubSeq(s, 1, Min(k, Len(s)))
Session == <<"greet", "login", "v5h">>
Left == SubSeq(Encode(cur), Len(sent) + 1, Len(Encode(cur)))
Real(s) == [i \in 1 .. Len(s) |-> IF s[i] = NZ THEN 1 ELSE s[i]]
MCInit == SInit /\ op = <<"init">> /\ n = 0
Es == IF Mode = "frag" THEN {"eof", "connection_reset"} ELSE {}
Chunks == IF Mode \in {"frag", "session"} THEN {1, 3, 1000} ELSE {1000}
Begin(o) == Start(o) /\ n' = n + 1 /\ O(<<"start", o.k, o.cmd, o.addr, o.port, o.host, o.user, o.pass, o.meths, n % 2>>)
MCNext ==
  \/ /\ Mode = "requests" /\ n < MaxOps
     /\ \E o \in Requests : Begin(o)
  \/ /\ Mode \in {"replies", "frag"} /\ n < MaxOps
     /\ \E k \in Kinds : Begin(Some(k))
  \/ /\ Mode = "session" /\ n < 3 /\ Begin(Some(Session[n + 1]))
  \/ /\ Busy /\ ~Unrepresentable(cur) /\ Left # <<>>
     /\ \E c \in Chunks : Write(Real(Prefix(Left, c))) /\ O(<<"w", c>>) /\ UNCHANGED n
  \/ /\ Busy /\ ~Unrepresentable(cur) /\ Left # <<>> /\ fault = "none"
     /\ \E e \in Es : Fail(e) /\ O(<<"wf", e>>) /\ UNCHANGED n
  \/ /\ Mode = "replies" /\ Busy /\ inq = <<>> /\ got = <<>> /\ Left = <<>>
     /\ \E r \in Replies(cur.k) : Peer(r) /\ O(<<"peer", r>>) /\ UNCHANGED n
  \/ /\ Mode = "requests" /\ Busy /\ ~Unrepresentable(cur) /\ inq = <<>> /\ got = <<>> /\ Left = <<>>
     /\ Peer(Good(cur.k)) /\ O(<<"peer", Good(cur.k)>>) /\ UNCHANGED n
  \/ /\ Mode = "frag" /\ Busy /\ inq = <<>> /\ got = <<>> /\ sent = <<>>
     /\ \E r \in FragReplies(cur.k), t \in {<<>>, After} : Peer(r \o t) /\ O(<<"peer", r \o t>>) /\ UNCHANGED n
  \/ /\ Mode = "session" /\ ~Busy /\ n = 0 /\ inq = <<>>
     /\ \E r \in FragReplies("v5h") : LET b == Good("greet") \o Good("login") \o r \o After IN Peer(b) /\ O(<<"peer", b>>) /\ UNCHANGED n
  \/ /\ Busy /\ ~Unrepresentable(cur) /\ Left = <<>> /\ inq # <<>> /\ fault = "none" /\ Need(cur, got) > 0
     /\ \E c \in Chunks : Read(Prefix(inq, Min(c, Need(cur, got)))) /\ O(<<"r", c>>) /\ UNCHANGED n
  \/ /\ Busy /\ ~Unrepresentable(cur) /\ Left = <<>> /\ fault = "none" /\ Need(cur, got) > 0
     /\ \E e \in Es : Fail(e) /\ O(<<"rf", e>>) /\ UNCHANGED n
  \/ /\ Busy
     /\ \E e \in {"ok", "invalid_argument", "invalid_version", "no_acceptable_auth_method", "login_failed", "generic", "identd_not_reachable", "invalid_auth_version",
                  "connection_refused", "command_not_supported", "eof", "connection_reset"} :
          /\ DoneRequest(e) /\ DoneVerdict(e, IF Len(got) = 2 THEN got[2] ELSE 255) /\ DoneConsumed(e) /\ (Unrepresentable(cur) \/ fault # "none" \/ Decided(cur, got))
          /\ Done /\ O(<<"done", e, cur, got, sent>>) /\ UNCHANGED n
MCSpec == MCInit /\ [][MCNext]_<<svars, op, n>>
V == <<svars, n>>
Emit == Emitting => PrintT("T " \o ToJson([f |-> V, o |-> IF op'[1] = "done" THEN <<"done">> ELSE op', t |-> V']))
EmitI == (Emitting /\ op = <<"init">>) => PrintT("I " \o ToJson(V))
\* success means the whole request went out, the reply grants it, and the stream stands right behind the reply
Granted == [][op'[1] = "done" /\ op'[2] = "ok" =>
   LET o == op'[3] g == op'[4] IN
   /\ Matches(op'[5], Encode(o)) /\ Len(op'[5]) = Len(Encode(o)) /\ ~Unrepresentable(o)
   /\ Len(g) = ReplyLen(o, g)
   /\ CASE V4(o) -> g[1] = 0 /\ g[2] = 90 [] o.k = "greet" -> g[1] = 5 /\ g[2] # 255 [] o.k = "login" -> g = <<1, 0>> [] OTHER -> g[1] = 5 /\ g[2] = 0 /\ g[4] \in {1, 3, 4}]_<<svars, op, n>>
\* nobody is told success and failure by the same bytes
NoDoubt == Busy /\ ~Questionable(cur) => \A m \in {0, 2, 255} : Meaning(cur, got, "ok", m) /\ (cur.k # "greet" \/ (\E i \in 1 .. Len(cur.meths) : cur.meths[i] = got[2])) /\ (V5(cur) => got[3] = 0) =>
              \A e \in {"generic", "invalid_version", "login_failed", "eof", "no_acceptable_auth_method"} : ~Meaning(cur, got, e, m)
\* the tail is never touched
TailSafe == Mode = "frag" /\ Busy => Len(got) <= (IF ReplyLen(cur, got) > 0 THEN ReplyLen(cur, got) ELSE 5)
\* a reply always comes to a decision: with the whole reply read some outcome is allowed
Decides == Busy /\ ~Unrepresentable(cur) /\ fault = "none" /\ Left = <<>> /\ Decided(cur, got) => \E e \in {"ok", "generic", "invalid_version", "invalid_auth_version", "login_failed", "identd_not_reachable", "no_acceptable_auth_method", "no_permission", "network_unreachable", "host_unreachable", "connection_refused", "timed_out", "command_not_supported", "address_family_not_supported"} : Meaning(cur, got, e, IF Len(got) >= 2 THEN got[2] ELSE 0)
=============================================================================
