-------------------------------- MODULE Fix --------------------------------
(***************************************************************************)
(* Kinematics in fixed point: a number x stands for x / 10^6.              *)
(* Products are built from parts, so that TLC's 32-bit integers suffice as *)
(* long as a product is below about 2000.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

S == 1000000
AbsF(x) == IF x < 0 THEN -x ELSE x
MulF(a, b) == LET ah == a \div 1000 al == a % 1000 bh == b \div 1000 bl == b % 1000
              IN ah * bh + (ah * bl + al * bh + (al * bl + 500) \div 1000 + 500) \div 1000
RECURSIVE DivD(_, _, _)
DivD(r, b, k) == IF k = 0 THEN 0 ELSE LET r10 == 10 * r IN (r10 \div b) * (CASE k = 6 -> 100000 [] k = 5 -> 10000 [] k = 4 -> 1000 [] k = 3 -> 100 [] k = 2 -> 10 [] k = 1 -> 1)
                                                              + DivD(r10 % b, b, k - 1)
(* a / b for b > 0, b < 200                                                 *)
DivF(a, b) == (a \div b) * S + DivD(a % b, b, 6)
RECURSIVE Newton(_, _, _)
Newton(a, x, k) == IF k = 0 THEN x ELSE Newton(a, (x + DivF(a, x)) \div 2, k - 1)
SqrtF(a) == Newton(a, IF a > S THEN a ELSE S, 12)                  \* a > 0, of moderate size

Pi == 3141593
Turn == 6283185
(* sin x for |x| <= pi/2 (a series), and for any x                          *)
SinS(x) == LET z == MulF(x, x) IN
  MulF(x, S - MulF(z, S - MulF(z, S - MulF(z, S - MulF(z, S - z \div 110) \div 72) \div 42) \div 20) \div 6)
Wrap(x) == LET y == x % Turn IN IF y > Pi THEN y - Turn ELSE y
Fold(x) == IF x > Pi \div 2 THEN Pi - x ELSE IF x < -(Pi \div 2) THEN -Pi - x ELSE x
SinF(x) == SinS(Fold(Wrap(x)))
CosF(x) == SinF(x + 1570796)

(* vectors <<x, y, z>> and matrices (9 numbers, row by row)                 *)
Vz == <<0, 0, 0>>
Mi == <<S, 0, 0, 0, S, 0, 0, 0, S>>
AddV(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3]>>
SubV(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
ScaV(k, a) == <<MulF(k, a[1]), MulF(k, a[2]), MulF(k, a[3])>>
DotF(a, b) == MulF(a[1], b[1]) + MulF(a[2], b[2]) + MulF(a[3], b[3])
CrossF(a, b) == <<MulF(a[2], b[3]) - MulF(a[3], b[2]), MulF(a[3], b[1]) - MulF(a[1], b[3]), MulF(a[1], b[2]) - MulF(a[2], b[1])>>
Row(m, i) == <<m[3*i-2], m[3*i-1], m[3*i]>>
Col(m, i) == <<m[i], m[i+3], m[i+6]>>
MVF(m, v) == <<DotF(Row(m, 1), v), DotF(Row(m, 2), v), DotF(Row(m, 3), v)>>
MMF(a, b) == LET c1 == MVF(a, Col(b, 1)) c2 == MVF(a, Col(b, 2)) c3 == MVF(a, Col(b, 3))
             IN <<c1[1], c2[1], c3[1], c1[2], c2[2], c3[2], c1[3], c2[3], c3[3]>>
MTF(m) == <<m[1], m[4], m[7], m[2], m[5], m[8], m[3], m[6], m[9]>>
(* u: a direction with integer components                                   *)
UnitF(a) == LET r == SqrtF((a[1]*a[1] + a[2]*a[2] + a[3]*a[3]) * S) IN <<DivF(a[1] * S, r), DivF(a[2] * S, r), DivF(a[3] * S, r)>>
RotF(u, q) == LET c == CosF(q) s == SinF(q) k == S - c
                  x == MulF(k, MulF(u[1], u[2])) y == MulF(k, MulF(u[1], u[3])) z == MulF(k, MulF(u[2], u[3]))
              IN <<c + MulF(k, MulF(u[1], u[1])), x - MulF(s, u[3]), y + MulF(s, u[2]),
                   x + MulF(s, u[3]), c + MulF(k, MulF(u[2], u[2])), z - MulF(s, u[1]),
                   y - MulF(s, u[2]), z + MulF(s, u[1]), c + MulF(k, MulF(u[3], u[3]))>>
Ex == <<S, 0, 0>>
Ey == <<0, S, 0>>
Ez == <<0, 0, S>>
(* fixed-axis roll, pitch, yaw                                              *)
RpyF(r, p, y) == MMF(RotF(Ez, y), MMF(RotF(Ey, p), RotF(Ex, r)))
(* poses <<matrix, vector>>                                                 *)
Pid == <<Mi, Vz>>
MulP(a, b) == <<MMF(a[1], b[1]), AddV(MVF(a[1], b[2]), a[2])>>
OrgP(o) == <<RpyF(o[1], o[2], o[3]), <<o[4], o[5], o[6]>>>>

NearV(a, b, e) == \A i \in 1..Len(a) : AbsF(a[i] - b[i]) <= e
NearP(l, p, e) == Len(l) = 12 /\ NearV(SubSeq(l, 1, 9), p[1], e) /\ NearV(SubSeq(l, 10, 12), p[2], e)

ASSUME FixFacts ==
  /\ MulF(1500000, -2250000) = -3375000 /\ AbsF(SqrtF(2 * S) - 1414214) <= 2 /\ AbsF(DivF(-7 * S, 3 * S) + 2333333) <= 1
  /\ AbsF(SinF(1000000) - 841471) <= 3 /\ AbsF(CosF(1000000) - 540302) <= 3 /\ AbsF(SinF(-2500000) + 598472) <= 3
  /\ AbsF(CosF(2500000) + 801144) <= 3 /\ AbsF(SinF(9000000) - 412118) <= 4 /\ AbsF(CosF(0) - S) <= 3
  /\ \A q \in {300000, -1200000, 3000000} : NearV(MMF(RotF(UnitF(<<1, 2, -3>>), q), RotF(UnitF(<<1, 2, -3>>), -q)), Mi, 12)
=============================================================================
