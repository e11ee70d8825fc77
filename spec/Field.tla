------------------------------- MODULE Field -------------------------------
(* Two exact number systems in which the meaning of expressions is computed. *)
(*  - rationals <<n,d>> in lowest terms (d > 0), d = 0 meaning "undefined":  *)
(*    division by zero, or a number too large for TLC's 32-bit integers;     *)
(*  - the prime field F_p, in which algebraic identities are checked without *)
(*    overflow and cos, sin are uninterpreted functions (only cos 0 = 1 and  *)
(*    sin 0 = 0 are assumed); -1 means "undefined".                          *)
EXTENDS Integers, Sequences

------------------------------------------------------------------ (* Q *)
Abs(a) == IF a < 0 THEN -a ELSE a
RECURSIVE Gcd(_,_)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
QBad == <<0, 0>>
QLimit == 30000
QNorm(n, d) ==
  IF d = 0 THEN QBad
  ELSE LET g == Gcd(Abs(n), Abs(d))
           s == IF d < 0 THEN -1 ELSE 1
           r == <<s * (n \div g), Abs(d) \div g>>
       IN IF Abs(r[1]) > QLimit \/ r[2] > QLimit THEN QBad ELSE r
QOk(a) == a[2] # 0
QAdd(a, b) == IF QOk(a) /\ QOk(b) THEN QNorm(a[1]*b[2] + b[1]*a[2], a[2]*b[2]) ELSE QBad
QMul(a, b) == IF QOk(a) /\ QOk(b) THEN QNorm(a[1]*b[1], a[2]*b[2]) ELSE QBad
QNeg(a) == <<-a[1], a[2]>>
QSub(a, b) == QAdd(a, QNeg(b))
QInv(a) == IF QOk(a) /\ a[1] # 0 THEN QNorm(a[2], a[1]) ELSE QBad
QInt(i) == IF Abs(i) > QLimit THEN QBad ELSE <<i, 1>>
QCos(a) == IF a = <<0, 1>> THEN <<1, 1>> ELSE QBad   \* irrational elsewhere
QSin(a) == IF a = <<0, 1>> THEN <<0, 1>> ELSE QBad
QLe(a, b) == a[1]*b[2] <= b[1]*a[2]
QLt(a, b) == a[1]*b[2] < b[1]*a[2]
QRat(n, d) == QNorm(n, d)

------------------------------------------------------------------ (* F_p *)
P == 46337    \* largest prime with (P-1)^2 < 2^31
FBad == -1
FOk(a) == a # FBad
FAdd(a, b) == IF FOk(a) /\ FOk(b) THEN (a + b) % P ELSE FBad
FMul(a, b) == IF FOk(a) /\ FOk(b) THEN (a * b) % P ELSE FBad
FNeg(a) == IF FOk(a) THEN (P - a) % P ELSE FBad
FInt(i) == i % P
RECURSIVE FPow(_,_)
FPow(a, e) == IF e = 0 THEN 1
              ELSE LET h == FPow(a, e \div 2)
                       s == (h * h) % P
                   IN IF e % 2 = 0 THEN s ELSE (s * a) % P
FInv(a) == IF FOk(a) /\ a # 0 THEN FPow(a, P - 2) ELSE FBad
FCos(a) == IF FOk(a) THEN FAdd(1, FMul(a, FAdd(3, FMul(7, a)))) ELSE FBad
FSin(a) == IF FOk(a) THEN FMul(a, FAdd(11, FMul(5, FMul(a, a)))) ELSE FBad
FRat(n, d) == FMul(FInt(n), FInv(FInt(d)))
=============================================================================
