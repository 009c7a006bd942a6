--------------------------------- MODULE Codes ---------------------------------
(* Error codes: a program holds some in variables. A code is its category and *)
(* number wherever it was made, copied, thrown or looked at.                  *)
EXTENDS Integers, Sequences
VARIABLES code
Slots == 0 .. 3
Url == <<"none", "invalid_character", "missing_host", "port_overflow">>
Socks == <<"none", "invalid_version", "no_acceptable_auth_method", "invalid_auth_version", "login_failed", "command_not_supported", "identd_not_reachable", "generic">>
Names(cat) == IF cat = "url" THEN Url ELSE Socks
Own == {"url", "socks"}
Cats == Own \cup {"system", "generic", "misc"}
C(cat, v) == [cat |-> cat, v |-> v]
Ok == C("system", 0)                                     \* a code that was never set
At(name) == CHOOSE i \in 0 .. 7 : i < Len(Socks) /\ Socks[i + 1] = name
UrlAt(name) == CHOOSE i \in 0 .. 3 : Url[i + 1] = name

CInit == code = [i \in Slots |-> Ok]
Put(i, c) == code' = [code EXCEPT ![i] = c]
Make(i, cat, v) == Put(i, C(cat, v))
Copy(i, j) == Put(j, code[i])
Clear(i) == Put(i, Ok)
\* errors the library makes itself
Parse(i, what) ==
  Put(i, CASE what = "good" -> Ok [] what = "space" -> C("url", UrlAt("invalid_character"))
           [] what = "nohost" -> C("url", UrlAt("missing_host")) [] what = "port" -> C("url", UrlAt("port_overflow")))
Answer(what, reply, version) ==
  CASE what = "v4" -> IF version # 0 THEN C("socks", At("invalid_version"))
                      ELSE CASE reply = 90 -> Ok [] reply = 92 -> C("socks", At("identd_not_reachable"))
                             [] reply = 93 -> C("socks", At("login_failed")) [] OTHER -> C("socks", At("generic"))
    [] what = "greet" -> IF version # 5 THEN C("socks", At("invalid_version"))
                         ELSE IF reply = 255 THEN C("socks", At("no_acceptable_auth_method")) ELSE Ok
    [] what = "login" -> IF version # 1 THEN C("socks", At("invalid_auth_version"))
                         ELSE IF reply # 0 THEN C("socks", At("login_failed")) ELSE Ok
    [] what = "v5" -> IF version # 5 THEN C("socks", At("invalid_version"))
                      ELSE IF reply = 0 THEN Ok ELSE IF reply = 7 THEN C("socks", At("command_not_supported")) ELSE C("socks", At("generic"))
Reply(i, what, reply, version) == Put(i, Answer(what, reply, version))
\* what can be asked about them
SameAs(i, cat, v) == code[i] = C(cat, v)
Equal(i, j) == code[i] = code[j]
\* the number of one of the library's errors means nothing to the C library
IsErrc(i, v) == code[i].cat \in {"system", "generic"} /\ code[i].v = v
Set(i) == code[i].v # 0
Message(i) == LET c == code[i] IN IF c.v >= 0 /\ c.v < Len(Names(c.cat)) THEN Names(c.cat)[c.v + 1] ELSE "unknown"
CatName(i) == IF code[i].cat = "url" THEN "asioext" ELSE "asioext.socks"
=============================================================================
