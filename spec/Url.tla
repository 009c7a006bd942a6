--------------------------------- MODULE Url ---------------------------------
(* URLs as byte sequences. Two descriptions of the supported form: Parse,     *)
(* which cuts a complete URL at its delimiters and judges the pieces, and a   *)
(* machine that reads it byte by byte. TLC checks that they agree; recorded   *)
(* results of the real parser are judged by Parse.                            *)
(* v: "accept", "reject", or "either" where the form is legal in RFC 3986 but *)
(* outside what the library promises (or the other way round).                *)
EXTENDS Naturals, Sequences, FiniteSets
Colon == 58  Slash == 47  Quest == 63  Hash == 35  At == 64  Open == 91  Close == 93  Pct == 37  Star == 42
Digit(c) == c \in 48 .. 57
Alpha(c) == c \in 65 .. 90 \/ c \in 97 .. 122
Alnum(c) == Digit(c) \/ Alpha(c)
Hex(c) == Digit(c) \/ c \in 65 .. 70 \/ c \in 97 .. 102
SchemeChar(c) == Alnum(c) \/ c \in {43, 45, 46}
Marks == {45, 95, 46, 33, 126, 42, 39, 40, 41}                     \* - _ . ! ~ * ' ( )
UserChar(c) == Alnum(c) \/ c \in Marks \/ c \in {37, 59, 58, 38, 61, 43, 36, 44}   \* % ; : & = + $ ,
UrlChar(c) == c \in {9, 12} \/ (c \in 33 .. 126 /\ c \notin {Hash, Quest})
HostChar(c) == Alnum(c) \/ c \in {46, 45, 95}
ZoneChar(c) == Alnum(c) \/ c \in {37, 46, 45, 95, 126}

None == <<>>
Sub(s, a, b) == SubSeq(s, a, IF b > Len(s) THEN Len(s) ELSE b)
\* first position from a on whose byte is in S, or one past the end
RECURSIVE Find(_, _, _)
Find(s, a, S) == IF a > Len(s) THEN Len(s) + 1 ELSE IF s[a] \in S THEN a ELSE Find(s, a + 1, S)
All(s, P(_)) == \A i \in 1 .. Len(s) : P(s[i])
RECURSIVE Value(_)
Value(d) == IF d = <<>> THEN 0 ELSE Value(SubSeq(d, 1, Len(d) - 1)) * 10 + (d[Len(d)] - 48)
RECURSIVE Strip(_)
Strip(d) == IF d # <<>> /\ d[1] = 48 THEN Strip(Tail(d)) ELSE d
Worse(a, b) == IF "reject" \in {a, b} THEN "reject" ELSE IF "either" \in {a, b} THEN "either" ELSE "accept"
Judge(ok, odd) == IF ~ok THEN "reject" ELSE IF odd THEN "either" ELSE "accept"
R0 == [v |-> "accept", scheme |-> None, userinfo |-> None, host |-> None, port |-> None, path |-> None, query |-> None, fragment |-> None, pv |-> 0]

\* everything from a on: path, query, fragment; s[a] is the path's first byte, '?' or '#'
ParseTail(s, a, r) ==
  LET q == Find(s, a, {Quest, Hash})
      h == Find(s, q, {Hash})
      path == Sub(s, a, q - 1)
      query == Sub(s, q + 1, h - 1)
      frag == Sub(s, h + 1, Len(s))
      isq == q <= Len(s) /\ s[q] = Quest
      ok == /\ All(path, UrlChar)
            /\ (isq => All(query, LAMBDA c : UrlChar(c) \/ c = Quest))
            /\ All(frag, LAMBDA c : UrlChar(c) \/ c \in {Quest, Hash})
  IN [r EXCEPT !.v = Worse(@, Judge(ok, FALSE)), !.path = path, !.query = IF isq THEN query ELSE None, !.fragment = frag]
ParsePort(p, r) ==
  LET z == Strip(p) IN
  IF ~All(p, Digit) \/ Len(z) > 5 \/ (Len(z) = 5 /\ Value(z) > 65535) THEN [r EXCEPT !.v = "reject"]
  ELSE [r EXCEPT !.v = Worse(@, Judge(TRUE, p = <<>> \/ Len(p) > 5)), !.port = p, !.pv = Value(z)]
\* host and port
ParseHost(hp, r) ==
  IF hp = <<>> THEN [r EXCEPT !.v = "reject"]
  ELSE IF hp[1] = Open
  THEN LET k == Find(hp, 2, {Close})
           z == Find(hp, 2, {Pct})
           zone == z < k
           addr == Sub(hp, 2, (IF zone THEN z ELSE k) - 1)
           id == Sub(hp, z + 3, k - 1)
           ok == /\ k <= Len(hp)
                 /\ All(addr, LAMBDA c : Hex(c) \/ c \in {Colon, 46})
                 /\ (zone => z + 2 < k /\ hp[z + 1] = 50 /\ hp[z + 2] = 53 /\ All(id, ZoneChar))
                 /\ (k < Len(hp) => hp[k + 1] = Colon)
           odd == addr = <<>> \/ (zone /\ id = <<>>)
           r1 == [r EXCEPT !.v = Worse(@, Judge(ok, odd)), !.host = Sub(hp, 1, k)]
       IN IF k < Len(hp) /\ ok THEN ParsePort(Sub(hp, k + 2, Len(hp)), r1) ELSE r1
  ELSE LET k == Find(hp, 1, {Colon})
           host == Sub(hp, 1, k - 1)
           r1 == [r EXCEPT !.v = Worse(@, Judge(All(host, HostChar), host = <<>>)), !.host = host]
       IN IF k <= Len(hp) THEN ParsePort(Sub(hp, k + 1, Len(hp)), r1) ELSE r1
ParseAuthority(au, r) ==
  LET at == Find(au, 1, {At}) IN
  IF at <= Len(au)
  THEN LET user == Sub(au, 1, at - 1)
       IN ParseHost(Sub(au, at + 1, Len(au)), [r EXCEPT !.v = Worse(@, Judge(All(user, UserChar), FALSE)), !.userinfo = user])
  ELSE ParseHost(au, r)
Parse(s) ==
  IF s = <<>> THEN [R0 EXCEPT !.v = "either"]
  ELSE IF s[1] \in {Slash, Star} THEN [ParseTail(s, 1, R0) EXCEPT !.v = Worse(@, Judge(TRUE, s[1] = Star /\ Len(s) > 1))]
  ELSE IF ~Alpha(s[1]) THEN [R0 EXCEPT !.v = "reject"]
  ELSE
  LET c == Find(s, 1, {Colon})
      scheme == Sub(s, 1, c - 1)
      ok == c <= Len(s) /\ All(scheme, SchemeChar)
      r == [R0 EXCEPT !.scheme = scheme]
      a == c + 1
  IN IF ~ok THEN [R0 EXCEPT !.v = "reject"]
     ELSE IF a > Len(s) THEN [r EXCEPT !.v = "either"]
     ELSE IF a < Len(s) /\ s[a] = Slash /\ s[a + 1] = Slash
     THEN LET e == Find(s, a + 2, {Slash, Quest, Hash})
              au == Sub(s, a + 2, e - 1)
              r1 == IF au = <<>> THEN [r EXCEPT !.v = Judge(TRUE, ~(e <= Len(s) /\ s[e] = Slash))] ELSE ParseAuthority(au, r)
              r2 == [r1 EXCEPT !.v = Worse(@, Judge(TRUE, e <= Len(s) /\ s[e] = Hash))]
          IN IF e <= Len(s) THEN ParseTail(s, e, r2) ELSE r2
     ELSE IF s[a] \in {Quest, Hash} \/ (s[a] = Slash /\ a < Len(s) /\ s[a + 1] \in {Quest, Hash})
     THEN LET r1 == ParseTail(s, a, r) IN [r1 EXCEPT !.v = Worse(@, "either")]
     ELSE ParseTail(s, a, r)

\* the default port of a scheme: text and number
Http == <<104, 116, 116, 112>>  Https == Http \o <<115>>  Ftp == <<102, 116, 112>>
Lower(s) == [i \in 1 .. Len(s) |-> IF s[i] \in 65 .. 90 THEN s[i] + 32 ELSE s[i]]
DefaultPort(sc) == CASE sc = Http -> <<56, 48>> [] sc = Https -> <<52, 52, 51>> [] sc = Ftp -> <<50, 49>> [] OTHER -> None
PortOk(r, text, val) ==
  \/ r.port # None /\ text = r.port /\ val = r.pv
  \/ r.port = None /\ text \in {DefaultPort(r.scheme), DefaultPort(Lower(r.scheme) \o <<>>)} /\ (r.scheme = Lower(r.scheme) \o <<>> => text = DefaultPort(r.scheme)) /\ val = Value(text)

-----------------------------------------------------------------------------
\* byte by byte
VARIABLES s, st, m
uvars == <<s, st, m>>
M0 == [colon |-> 0, auth |-> 0, path |-> 0, query |-> 0, frag |-> 0]
UInit == s = <<>> /\ st = "start" /\ m = M0
Go(c, n) ==                               \* c: the next byte, n: its position; the new state and marks
  CASE st = "start" -> (IF c \in {Slash, Star} THEN <<"path", [m EXCEPT !.path = n]>> ELSE IF Alpha(c) THEN <<"scheme", m>> ELSE <<"bad", m>>)
    [] st = "scheme" -> (IF SchemeChar(c) THEN <<"scheme", m>> ELSE IF c = Colon THEN <<"colon", [m EXCEPT !.colon = n]>> ELSE <<"bad", m>>)
    [] st = "colon" -> (IF c = Slash THEN <<"slash", m>> ELSE IF UrlChar(c) THEN <<"path", [m EXCEPT !.path = n]>> ELSE <<"bad", m>>)
    [] st = "slash" -> (IF c = Slash THEN <<"auth", [m EXCEPT !.auth = n + 1]>> ELSE IF UrlChar(c) THEN <<"path", [m EXCEPT !.path = n - 1]>> ELSE <<"bad", m>>)
    [] st = "auth" -> (IF c = Slash THEN <<"path", [m EXCEPT !.path = n]>> ELSE IF c = Quest THEN <<"query", [m EXCEPT !.query = n]>>
                       ELSE IF UserChar(c) \/ c \in {At, Open, Close} THEN <<"auth", m>> ELSE <<"bad", m>>)
    [] st = "path" -> (IF c = Quest THEN <<"query", [m EXCEPT !.query = n]>> ELSE IF c = Hash THEN <<"frag", [m EXCEPT !.frag = n]>> ELSE IF UrlChar(c) THEN <<"path", m>> ELSE <<"bad", m>>)
    [] st = "query" -> (IF c = Hash THEN <<"frag", [m EXCEPT !.frag = n]>> ELSE IF UrlChar(c) \/ c = Quest THEN <<"query", m>> ELSE <<"bad", m>>)
    [] st = "frag" -> (IF UrlChar(c) \/ c \in {Quest, Hash} THEN <<"frag", m>> ELSE <<"bad", m>>)
    [] OTHER -> <<"bad", m>>
Feed(c) == LET g == Go(c, Len(s) + 1) IN s' = Append(s, c) /\ st' = g[1] /\ m' = g[2]
\* what the machine says if the input ends here
Or(a, b) == IF a > 0 THEN a ELSE b
MEnd == Len(s) + 1
MParse ==
  LET pathEnd == Or(m.query, Or(m.frag, MEnd))
      authEnd == Or(m.path, Or(m.query, MEnd))
      base == [R0 EXCEPT !.scheme = IF m.colon > 0 THEN Sub(s, 1, m.colon - 1) ELSE None,
                         !.path = IF st = "slash" THEN <<Slash>> ELSE IF m.path > 0 THEN Sub(s, m.path, pathEnd - 1) ELSE None,
                         !.query = IF m.query > 0 THEN Sub(s, m.query + 1, Or(m.frag, MEnd) - 1) ELSE None,
                         !.fragment = IF m.frag > 0 THEN Sub(s, m.frag + 1, MEnd - 1) ELSE None]
      au == IF m.auth > 0 THEN Sub(s, m.auth, authEnd - 1) ELSE None
  IN IF st \in {"bad", "scheme"} THEN [R0 EXCEPT !.v = "reject"]
     ELSE IF au # None THEN ParseAuthority(au, base) ELSE base
=============================================================================
