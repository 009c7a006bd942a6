-------------------------------- MODULE Chrono --------------------------------
(* Time points and durations as the integers they stand for. TLC's integers    *)
(* have 32 bits, so numbers are sequences: the sign (-1, 0, 1) followed by the *)
(* digits in base 1000, the least significant first, without leading zeros.    *)
(*                                                                             *)
(* A duration is a count and a unit; all units of one operation are multiples  *)
(* of a common one (pd, pf, ps, ... below). A representation of b bits holds   *)
(* -2^(b-1) .. 2^(b-1)-1.                                                      *)
EXTENDS Integers, Sequences
VARIABLE last       \* the operation observed last
-----------------------------------------------------------------------------
B == 1000
RECURSIVE Trim(_), AddC(_, _, _), SubC(_, _, _), Col(_, _, _, _), MulC(_, _, _, _), CmpAt(_, _, _)
Trim(m) == IF m # <<>> /\ m[Len(m)] = 0 THEN Trim(SubSeq(m, 1, Len(m) - 1)) ELSE m
At(m, i) == IF i <= Len(m) THEN m[i] ELSE 0
AddC(m, n, c) == IF m = <<>> /\ n = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                 ELSE LET x == At(m, 1) + At(n, 1) + c IN <<x % B>> \o AddC(SubSeq(m, 2, Len(m)), SubSeq(n, 2, Len(n)), x \div B)
SubC(m, n, c) == IF m = <<>> THEN <<>>
                 ELSE LET x == m[1] - At(n, 1) - c IN <<x % B>> \o SubC(SubSeq(m, 2, Len(m)), SubSeq(n, 2, Len(n)), IF x < 0 THEN 1 ELSE 0)
Col(m, n, k, i) == IF i > Len(m) \/ i > k THEN 0 ELSE (IF k - i + 1 <= Len(n) THEN m[i] * n[k - i + 1] ELSE 0) + Col(m, n, k, i + 1)
MulC(m, n, k, c) == IF k >= Len(m) + Len(n) THEN (IF c = 0 THEN <<>> ELSE IF c < B THEN <<c>> ELSE <<c % B, c \div B>>)
                    ELSE LET x == Col(m, n, k, 1) + c IN <<x % B>> \o MulC(m, n, k + 1, x \div B)
CmpAt(m, n, i) == IF i = 0 THEN 0 ELSE IF m[i] < n[i] THEN -1 ELSE IF m[i] > n[i] THEN 1 ELSE CmpAt(m, n, i - 1)
NCmp(m, n) == IF Len(m) < Len(n) THEN -1 ELSE IF Len(m) > Len(n) THEN 1 ELSE CmpAt(m, n, Len(m))
NAdd(m, n) == AddC(m, n, 0)
NSub(m, n) == Trim(SubC(m, n, 0))                     \* m >= n
NMul(m, n) == IF m = <<>> \/ n = <<>> THEN <<>> ELSE Trim(MulC(m, n, 1, 0))
Sg(z) == z[1]
Mag(z) == SubSeq(z, 2, Len(z))
Z(s, m) == IF m = <<>> THEN <<0>> ELSE <<s>> \o m
Neg(z) == <<-z[1]>> \o Mag(z)
Add(x, y) == IF Sg(x) = 0 THEN y ELSE IF Sg(y) = 0 THEN x
             ELSE IF Sg(x) = Sg(y) THEN Z(Sg(x), NAdd(Mag(x), Mag(y)))
             ELSE LET c == NCmp(Mag(x), Mag(y)) IN
                  IF c = 0 THEN <<0>> ELSE IF c > 0 THEN Z(Sg(x), NSub(Mag(x), Mag(y))) ELSE Z(Sg(y), NSub(Mag(y), Mag(x)))
Sub(x, y) == Add(x, Neg(y))
Mul(x, y) == Z(Sg(x) * Sg(y), NMul(Mag(x), Mag(y)))
Le(x, y) == Sg(Sub(y, x)) >= 0
Lt(x, y) == Sg(Sub(y, x)) > 0
Zero == <<0>>
One == <<1, 1>>
Lim(b) == CASE b = 2 -> <<1, 2>> [] b = 3 -> <<1, 4>> [] b = 4 -> <<1, 8>> [] b = 8 -> <<1, 128>> [] b = 16 -> <<1, 768, 32>>
            [] b = 32 -> <<1, 648, 483, 147, 2>> [] b = 64 -> <<1, 808, 775, 854, 36, 372, 223, 9>>
Fits(z, b) == Le(Neg(Lim(b)), z) /\ Lt(z, Lim(b))
-----------------------------------------------------------------------------
(* Splitting v * pd into whole units (pf) and a remainder (ps).                *)
(* q and r are the true quotient and remainder; a caller shows them.           *)
Quotient(x, y, q, r) == x = Add(Mul(q, y), r) /\ Le(Zero, r) /\ Lt(r, y)
\* the remainder is expressed exactly if its unit divides that of the input (ex)
SplitOk(v, pd, pf, ps, rf, rs, ex, f, s) ==
  LET x == Mul(v, pd) y == Add(Mul(f, pf), Mul(s, ps)) d == Sub(x, y) IN
  /\ Fits(f, rf) /\ Fits(s, rs)
  /\ Le(Zero, s) /\ Lt(Mul(s, ps), pf)
  /\ IF ex THEN x = y ELSE Lt(d, ps) /\ Lt(Neg(d), ps)
SplitFail(v, pd, pf, ps, rf, rs, q, r) ==
  /\ Quotient(Mul(v, pd), pf, q, r)
  /\ ~Fits(q, rf) \/ Le(Mul(Lim(rs), ps), r)
(* Putting a whole and a remainder (0 <= s * ps < pf) together.                *)
Normal(s, pf, ps) == Le(Zero, s) /\ Lt(Mul(s, ps), pf)
JoinOk(f, s, pd, pf, ps, rd, v) == Fits(v, rd) /\ Mul(v, pd) = Add(Mul(f, pf), Mul(s, ps))
JoinFail(f, s, pd, pf, ps, rd) ==
  LET y == Add(Mul(f, pf), Mul(s, ps)) IN Le(Mul(Lim(rd), pd), y) \/ Lt(y, Neg(Mul(Lim(rd), pd)))
(* Changing the unit: the part that is no whole unit is cut off.               *)
CastOk(v, pi, po, ro, o) ==
  LET x == Mul(v, pi) y == Mul(o, po) IN
  /\ Fits(o, ro) /\ Sg(o) \in {0, Sg(x)}
  /\ LET d == Sub(Z(1, Mag(x)), Z(1, Mag(y))) IN Le(Zero, d) /\ Lt(d, po)
\* num/den: the reduced ratio pi/po; an intermediate product beyond 64 bits may be refused
CastFail(v, pi, po, ro, num, den) ==
  LET x == Mul(v, pi) IN
  \/ Le(Mul(Lim(ro), po), x)
  \/ Le(x, Neg(Mul(Add(Lim(ro), One), po)))
  \/ num # One /\ den # One /\ ~Fits(Mul(v, num), 64)
-----------------------------------------------------------------------------
ChInit == last = <<"none">>
Note(x) == last' = x
Split(v, pd, pf, ps, rf, rs, ex, ok, f, s, q, r) ==
  /\ IF ok THEN SplitOk(v, pd, pf, ps, rf, rs, ex, f, s) ELSE SplitFail(v, pd, pf, ps, rf, rs, q, r)
  /\ Note(IF ok THEN <<"split", f, s>> ELSE <<"failed">>)
Join(f, s, pd, pf, ps, rd, ok, v) ==
  /\ Normal(s, pf, ps)
  /\ IF ok THEN JoinOk(f, s, pd, pf, ps, rd, v) ELSE JoinFail(f, s, pd, pf, ps, rd)
  /\ Note(IF ok THEN <<"joined", v>> ELSE <<"failed">>)
Cast(v, pi, po, ro, num, den, ok, o) ==
  /\ Mul(pi, den) = Mul(po, num)
  /\ IF ok THEN CastOk(v, pi, po, ro, o) ELSE CastFail(v, pi, po, ro, num, den)
  /\ Note(IF ok THEN <<"cast", o>> ELSE <<"failed">>)
\* seconds since the epoch and file times (unit: a nanosecond)
Giga == <<1, 0, 0, 0, 1>>
FromTimeT(t, p) == p = Mul(t, Giga) /\ Note(<<"from", p>>)
ToTimeT(p, t) == LET d == Sub(p, Mul(t, Giga)) IN Lt(d, Giga) /\ Lt(Neg(d), Giga) /\ Note(<<"to", t>>)
Now(a, n, b) == Le(a, n) /\ Le(n, b) /\ Note(<<"now", n>>)
=============================================================================
