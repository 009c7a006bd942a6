-------------------------------- MODULE MCUrl --------------------------------
EXTENDS Url, TLC
CONSTANTS Pieces, MaxLen
\* pieces are fed whole, so that long URLs are reached with few steps
Piece == [http |-> <<104, 116, 116, 112>>, sep |-> <<58, 47, 47>>, a |-> <<97>>, one |-> <<49>>, colon |-> <<58>>, slash |-> <<47>>, quest |-> <<63>>, hash |-> <<35>>,
          at |-> <<64>>, open |-> <<91>>, close |-> <<93>>, pct |-> <<37>>, zone |-> <<37, 50, 53>>, dot |-> <<46>>, space |-> <<32>>, star |-> <<42>>, high |-> <<200>>,
          semi |-> <<59>>, tilde |-> <<126>>, p5 |-> <<54, 53, 53, 51, 53>>, p6 |-> <<54, 53, 53, 51, 54>>, zero |-> <<48>>, v6 |-> <<58, 58, 49>>, under |-> <<95>>]
VARIABLE todo, len
MCInit == UInit /\ todo = <<>> /\ len = 0
MCNext == \/ todo = <<>> /\ len < MaxLen /\ \E p \in Pieces : todo' = Piece[p] /\ len' = len + 1 /\ UNCHANGED uvars
          \/ todo # <<>> /\ Feed(Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED len
MCSpec == MCInit /\ [][MCNext]_<<uvars, todo, len>>
P == Parse(s)
\* the two descriptions agree: verdicts, and the components of everything both take
Agree == /\ (P.v = "accept" => MParse.v = "accept" /\ MParse = P)
         /\ (P.v = "reject" => MParse.v = "reject")
         /\ (P.v = "either" /\ MParse.v # "reject" => [MParse EXCEPT !.v = "either"] = P)
\* nothing is lost: putting the components together gives the input
Again(r) ==
  LET pre == IF r.scheme # None THEN r.scheme \o <<Colon>> ELSE None
      au == (IF r.userinfo # None THEN r.userinfo \o <<At>> ELSE None) \o r.host \o (IF r.port # None THEN <<Colon>> \o r.port ELSE None)
      q == IF r.query # None THEN <<Quest>> \o r.query ELSE None
      f == IF r.fragment # None THEN <<Hash>> \o r.fragment ELSE None
  IN {pre \o a \o r.path \o q \o f : a \in {au, <<Slash, Slash>> \o au}}
\* (a URL with an empty component, "a?", "//@h", "h:", "x#", is longer than its components)
Lossless == P.v = "accept" => LET W == Again(P) IN
              \/ s \in W
              \/ \E w \in W : Len(w) < Len(s) /\ Len(s) - Len(w) <= 3
\* once broken, nothing repairs it
Dead == st = "bad" => P.v # "accept"
InOrder == P.v = "accept" => Len(P.scheme) + Len(P.userinfo) + Len(P.host) + Len(P.port) + Len(P.path) + Len(P.query) + Len(P.fragment) <= Len(s)
PortRange == P.v # "reject" => P.pv <= 65535
=============================================================================
