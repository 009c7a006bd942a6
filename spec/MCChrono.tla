------------------------------- MODULE MCChrono -------------------------------
(* Small representations, checked against TLC's own integers: the arithmetic,  *)
(* that every outcome is determined, and that splitting and joining are inverse.*)
EXTENDS Chrono, FiniteSets, TLC
CONSTANTS Bits, Units
Big == {0, 1, 7, 999, 1000, 1001, 123456, 999999, 1000000, 1000001, 999999999, 1000000000, -1, -999, -1000, -1001, -999999, -1000000, -123456789}
RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Digits(n \div B)
N(i) == IF i = 0 THEN <<0>> ELSE IF i > 0 THEN <<1>> \o Digits(i) ELSE <<-1>> \o Digits(-i)
Range(b) == LET l == 2 ^ (b - 1) IN -l .. l - 1
VARIABLES case
\* one state per case
MCInit == ChInit /\ case = [rd |-> 0, rf |-> 0, rs |-> 0, pd |-> 0, pf |-> 0, ps |-> 0]
MCNext == /\ UNCHANGED last
          /\ \/ case.rd = 0 /\ \E a \in Bits, b \in Bits, d \in Bits : case' = [case EXCEPT !.rd = a, !.rf = b, !.rs = d]
             \/ case.rd # 0 /\ case.pd = 0 /\ \E a \in Units, b \in Units, d \in Units : case' = [case EXCEPT !.pd = a, !.pf = b, !.ps = d]
Set == case.pd # 0
MCSpec == MCInit /\ [][MCNext]_<<last, case>>
Fl(x, y) == x \div y                       \* TLC's \div rounds down
c == case
Applies == c.pf % c.ps = 0 /\ c.pf >= c.pd
Ex == c.pd % c.ps = 0
Outs == {<<f, s>> : f \in Range(c.rf), s \in Range(c.rs)}
Splits(v) == {o \in Outs : SplitOk(N(v), N(c.pd), N(c.pf), N(c.ps), c.rf, c.rs, Ex, N(o[1]), N(o[2]))}
\* exactly one of: one pair, refusal
SplitDetermined == Set => (Applies /\ Ex => \A v \in Range(c.rd) :
  LET x == v * c.pd  q == Fl(x, c.pf)  r == x - q * c.pf
      no == SplitFail(N(v), N(c.pd), N(c.pf), N(c.ps), c.rf, c.rs, N(q), N(r)) IN
  /\ Splits(v) = (IF q \in Range(c.rf) /\ r \div c.ps \in Range(c.rs) THEN {<<q, r \div c.ps>>} ELSE {})
  /\ no <=> Splits(v) = {})
Joinable == c.pf % c.pd = 0 /\ c.ps % c.pd = 0 /\ c.pf % c.ps = 0
JoinDetermined == Set => (Joinable => \A o \in Outs : o[2] >= 0 /\ o[2] * c.ps < c.pf =>
  LET y == o[1] * c.pf + o[2] * c.ps
      vs == {v \in Range(c.rd) : JoinOk(N(o[1]), N(o[2]), N(c.pd), N(c.pf), N(c.ps), c.rd, N(v))} IN
  /\ vs = {v \in Range(c.rd) : v * c.pd = y}
  /\ JoinFail(N(o[1]), N(o[2]), N(c.pd), N(c.pf), N(c.ps), c.rd) <=> vs = {})
Inverse == Set => (Joinable /\ c.pd = c.ps => \A v \in Range(c.rd) : \A o \in Splits(v) :
  {w \in Range(c.rd) : JoinOk(N(o[1]), N(o[2]), N(c.pd), N(c.pf), N(c.ps), c.rd, N(w))} = {v})
Trunc(x, y) == IF x >= 0 THEN x \div y ELSE -((-x) \div y)
CastDetermined == Set => (\A v \in Range(c.rd) :
  LET t == Trunc(v * c.pd, c.pf)
      os == {o \in Range(c.rf) : CastOk(N(v), N(c.pd), N(c.pf), c.rf, N(o))} IN
  /\ os = {t} \cap Range(c.rf)
  /\ CastFail(N(v), N(c.pd), N(c.pf), c.rf, N(1), N(1)) <=> os = {})
\* the arithmetic itself
ASSUME \A i \in Big, j \in Big : Add(N(i), N(j)) = N(i + j) /\ Sub(N(i), N(j)) = N(i - j) /\ (Le(N(i), N(j)) <=> i <= j)
ASSUME \A i \in Big, j \in -2050 .. 2050 : (j % 97 < 3 /\ i < 1000000 /\ i > -1000000) => Mul(N(i), N(j)) = N(i * j)
ASSUME Mul(Lim(64), Lim(64)) = Mul(Mul(Lim(32), Mul(Lim(32), <<1, 2>>)), Lim(64)) /\ Mul(Lim(32), <<1, 296, 967, 294, 4>>) = Lim(64)
=============================================================================
