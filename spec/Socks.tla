-------------------------------- MODULE Socks --------------------------------
(* SOCKS4a and SOCKS5 client operations over one byte stream: what goes out,  *)
(* what a reply means, and how much of the stream is the reply.               *)
(* An operation is [k, cmd, addr, port, host, user, pass, meths];             *)
(* k: "v4e" "v4h" (SOCKS4a, endpoint / host name), "greet", "login",          *)
(* "v5e" "v5h" (SOCKS5).                                                      *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES cur, sent, got, inq, fault
svars == <<cur, sent, got, inq, fault>>
NoOp == [k |-> "none", cmd |-> 0, addr |-> <<>>, port |-> 0, host |-> <<>>, user |-> <<>>, pass |-> <<>>, meths |-> <<>>]
SInit == cur = NoOp /\ sent = <<>> /\ got = <<>> /\ inq = <<>> /\ fault = "none"
Busy == cur.k # "none"

Min(a, b) == IF a < b THEN a ELSE b
Has0(s) == \E i \in 1 .. Len(s) : s[i] = 0
NZ == 256                                \* any byte but 0
Port(p) == <<p \div 256, p % 256>>
Unrepresentable(o) ==
  CASE o.k = "v4e" -> Len(o.addr) # 4 \/ Has0(o.user)
    [] o.k = "v4h" -> Has0(o.user) \/ Has0(o.host)
    [] o.k = "greet" -> Len(o.meths) > 255
    [] o.k = "login" -> Len(o.user) > 255 \/ Len(o.pass) > 255
    [] o.k = "v5e" -> FALSE
    [] o.k = "v5h" -> Len(o.host) > 255
\* the protocol documents forbid these although they have an encoding: rejecting or encoding them is up to the implementation
Questionable(o) ==
  CASE o.k = "v4e" -> o.cmd = 3
    [] o.k = "v4h" -> o.cmd = 3 \/ o.host = <<>>
    [] o.k = "greet" -> o.meths = <<>>
    [] o.k = "login" -> o.user = <<>> \/ o.pass = <<>>
    [] o.k = "v5h" -> o.host = <<>>
    [] OTHER -> FALSE
Encode(o) ==
  CASE o.k = "v4e" -> <<4, o.cmd>> \o Port(o.port) \o o.addr \o o.user \o <<0>>
    [] o.k = "v4h" -> <<4, o.cmd>> \o Port(o.port) \o <<0, 0, 0, NZ>> \o o.user \o <<0>> \o o.host \o <<0>>
    [] o.k = "greet" -> <<5, Len(o.meths)>> \o o.meths
    [] o.k = "login" -> <<1, Len(o.user)>> \o o.user \o <<Len(o.pass)>> \o o.pass
    [] o.k = "v5e" -> <<5, o.cmd, 0, IF Len(o.addr) = 4 THEN 1 ELSE 4>> \o o.addr \o Port(o.port)
    [] o.k = "v5h" -> <<5, o.cmd, 0, 3, Len(o.host)>> \o o.host \o Port(o.port)
Fits(b, m) == b = m \/ (m = NZ /\ b # 0)
Matches(bs, es) == Len(bs) <= Len(es) /\ \A i \in 1 .. Len(bs) : Fits(bs[i], es[i])

V4(o) == o.k \in {"v4e", "v4h"}
V5(o) == o.k \in {"v5e", "v5h"}
\* length of the reply, from its beginning; 0: cannot be told yet
ReplyLen(o, g) ==
  CASE V4(o) -> 8
    [] o.k \in {"greet", "login"} -> 2
    [] OTHER -> IF Len(g) < 4 THEN 0
                ELSE CASE g[4] = 1 -> 10 [] g[4] = 4 -> 22
                       [] g[4] = 3 -> (IF Len(g) < 5 THEN 0 ELSE 7 + g[5])
                       [] OTHER -> 5
\* bytes that are certainly still part of the reply
Need(o, g) == IF ReplyLen(o, g) > 0 THEN (IF ReplyLen(o, g) > Len(g) THEN ReplyLen(o, g) - Len(g) ELSE 0)
              ELSE IF Len(g) < 4 THEN 4 - Len(g) ELSE 1
Decided(o, g) == ReplyLen(o, g) > 0 /\ Len(g) >= ReplyLen(o, g)
V4Status == [x \in {91, 92, 93} |-> CASE x = 91 -> "generic" [] x = 92 -> "identd_not_reachable" [] x = 93 -> "login_failed"]
V5Status == [x \in 1 .. 8 |-> CASE x = 1 -> "generic" [] x = 2 -> "no_permission" [] x = 3 -> "network_unreachable" [] x = 4 -> "host_unreachable"
                                [] x = 5 -> "connection_refused" [] x = 6 -> "timed_out" [] x = 7 -> "command_not_supported" [] x = 8 -> "address_family_not_supported"]
\* may the operation end with e (and method m) after reading g?
Meaning(o, g, e, m) ==
  LET n == Len(g) IN
  CASE V4(o) ->
         \/ n >= 1 /\ g[1] # 0 /\ e = "invalid_version"
         \/ n >= 2 /\ g[2] # 90 /\ e # "ok" /\ (g[2] \in DOMAIN V4Status => e = V4Status[g[2]])
         \/ n >= 8 /\ g[1] = 0 /\ g[2] = 90 /\ e = "ok"
    [] o.k = "greet" ->
         \/ n >= 1 /\ g[1] # 5 /\ e = "invalid_version"
         \/ n >= 2 /\ g[2] = 255 /\ e = "no_acceptable_auth_method" /\ m = 255
         \/ n >= 2 /\ g[1] = 5 /\ g[2] # 255 /\ e = "ok" /\ m = g[2]
         \* a method that was never offered
         \/ n >= 2 /\ g[2] \notin {o.meths[i] : i \in 1 .. Len(o.meths)} /\ e # "ok" /\ (g[2] = 255 => e = "no_acceptable_auth_method")
    [] o.k = "login" ->
         \/ n >= 1 /\ g[1] # 1 /\ e = "invalid_auth_version"
         \/ n >= 2 /\ g[2] # 0 /\ e = "login_failed"
         \/ n >= 2 /\ g[1] = 1 /\ g[2] = 0 /\ e = "ok"
    [] OTHER ->
         \/ n >= 1 /\ g[1] # 5 /\ e = "invalid_version"
         \/ n >= 2 /\ g[2] # 0 /\ e # "ok" /\ (g[2] \in DOMAIN V5Status => e = V5Status[g[2]])
         \/ n >= 3 /\ g[3] # 0 /\ e # "ok"                       \* the reserved byte: taken or ignored
         \/ n >= 4 /\ g[4] \notin {1, 3, 4} /\ e # "ok"
         \/ n >= 5 /\ g[1] = 5 /\ g[2] = 0 /\ g[4] \in {1, 3, 4} /\ e = "ok"
Start(o) == ~Busy /\ cur' = o /\ sent' = <<>> /\ got' = <<>> /\ fault' = "none" /\ UNCHANGED inq
Peer(bs) == inq' = inq \o bs /\ UNCHANGED <<cur, sent, got, fault>>
Write(bs) == Busy /\ bs # <<>> /\ sent' = sent \o bs /\ UNCHANGED <<cur, got, inq, fault>>
WriteOk(bs) == ~Unrepresentable(cur) /\ Matches(sent \o bs, Encode(cur))
Read(bs) == Busy /\ bs # <<>> /\ Matches(bs, inq) /\ got' = got \o bs /\ inq' = SubSeq(inq, Len(bs) + 1, Len(inq)) /\ UNCHANGED <<cur, sent, fault>>
Fail(e) == Busy /\ fault' = e /\ UNCHANGED <<cur, sent, got, inq>>
Done == Busy /\ cur' = NoOp /\ sent' = <<>> /\ got' = <<>> /\ fault' = "none" /\ UNCHANGED inq
SentAll == Len(sent) = Len(Encode(cur))
Rejected(e) == sent = <<>> /\ got = <<>> /\ e # "ok" /\ fault = "none"
DoneRequest(e) == \/ (Unrepresentable(cur) \/ Questionable(cur)) /\ Rejected(e)
                  \/ ~Unrepresentable(cur) /\ (SentAll \/ (fault # "none" /\ e # "ok"))
DoneVerdict(e, m) == \/ (Unrepresentable(cur) \/ Questionable(cur)) /\ Rejected(e)
                     \/ fault # "none" /\ e = fault
                     \/ fault = "none" /\ ~Unrepresentable(cur) /\ Meaning(cur, got, e, m)
DoneConsumed(e) == e = "ok" => Len(got) = ReplyLen(cur, got)
\* nothing left to hand over and the operation is still waiting
Waits == Busy /\ inq = <<>> /\ fault = "none" /\ ~Unrepresentable(cur) /\ ~Decided(cur, got)
\* the stream has taken all it was offered and the operation is still waiting
Requested == Busy /\ ~Unrepresentable(cur) /\ (SentAll \/ fault # "none")
=============================================================================
