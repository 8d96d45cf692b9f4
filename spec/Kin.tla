-------------------------------- MODULE Kin --------------------------------
(***************************************************************************)
(* Exact rigid-body kinematics over the rationals.                         *)
(*                                                                         *)
(* A rational matrix is [d |-> n, m |-> <<9 integers, row major>>] and     *)
(* stands for m / d; a rational vector is [d |-> n, v |-> <<3 integers>>]. *)
(* Rotations are given by integer quaternions, and rotational joints move  *)
(* in quarter turns about a rational unit axis, so every rotation of the   *)
(* model has rational entries and nothing is approximated.  Lengths are in *)
(* half units (the harness multiplies by 0.5), rotational positions in     *)
(* quarter turns (the harness multiplies by pi/2), joint rates in 1/s and  *)
(* 2 half units/s.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

Abs(x) == IF x < 0 THEN -x ELSE x

RECURSIVE Gcd(_, _)
(* (bound through a set, so that TLC evaluates the remainders once) *)
Gcd(a, b) == IF b = 0 THEN Abs(a) ELSE CHOOSE g \in {Gcd(x[1], x[2]) : x \in {<<b, a % Abs(b)>>}} : TRUE

RECURSIVE GcdAll(_, _, _)
GcdAll(g, s, i) == IF g = 1 \/ i > Len(s) THEN g ELSE GcdAll(Gcd(g, s[i]), s, i + 1)

Mat(d, m) == LET g == GcdAll(d, m, 1) IN
    IF g = 1 THEN [d |-> d, m |-> m]
    ELSE [d |-> d \div g, m |-> <<m[1] \div g, m[2] \div g, m[3] \div g, m[4] \div g, m[5] \div g,
                                  m[6] \div g, m[7] \div g, m[8] \div g, m[9] \div g>>]
Vec(d, v) == LET g == GcdAll(d, v, 1) IN
    IF g = 1 THEN [d |-> d, v |-> v]
    ELSE [d |-> d \div g, v |-> <<v[1] \div g, v[2] \div g, v[3] \div g>>]

I3 == [d |-> 1, m |-> <<1,0,0, 0,1,0, 0,0,1>>]
Z3 == [d |-> 1, m |-> <<0,0,0, 0,0,0, 0,0,0>>]
V0 == [d |-> 1, v |-> <<0,0,0>>]

Mul9(a, b) == << a[1]*b[1] + a[2]*b[4] + a[3]*b[7], a[1]*b[2] + a[2]*b[5] + a[3]*b[8], a[1]*b[3] + a[2]*b[6] + a[3]*b[9],
                 a[4]*b[1] + a[5]*b[4] + a[6]*b[7], a[4]*b[2] + a[5]*b[5] + a[6]*b[8], a[4]*b[3] + a[5]*b[6] + a[6]*b[9],
                 a[7]*b[1] + a[8]*b[4] + a[9]*b[7], a[7]*b[2] + a[8]*b[5] + a[9]*b[8], a[7]*b[3] + a[8]*b[6] + a[9]*b[9] >>
Mul3(a, v) == << a[1]*v[1] + a[2]*v[2] + a[3]*v[3],
                 a[4]*v[1] + a[5]*v[2] + a[6]*v[3],
                 a[7]*v[1] + a[8]*v[2] + a[9]*v[3] >>
MM(a, b) == Mat(a.d * b.d, Mul9(a.m, b.m))
MV(a, v) == Vec(a.d * v.d, Mul3(a.m, v.v))
Scale3(k, v) == <<k*v[1], k*v[2], k*v[3]>>
Scale9(k, m) == <<k*m[1], k*m[2], k*m[3], k*m[4], k*m[5], k*m[6], k*m[7], k*m[8], k*m[9]>>
Add3(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3]>>
Add9(a, b) == <<a[1]+b[1], a[2]+b[2], a[3]+b[3], a[4]+b[4], a[5]+b[5], a[6]+b[6], a[7]+b[7], a[8]+b[8], a[9]+b[9]>>
VAdd(a, b) == LET g == Gcd(a.d, b.d) IN
    Vec((a.d \div g) * b.d, Add3(Scale3(b.d \div g, a.v), Scale3(a.d \div g, b.v)))
MAdd(a, b) == LET g == Gcd(a.d, b.d) IN
    Mat((a.d \div g) * b.d, Add9(Scale9(b.d \div g, a.m), Scale9(a.d \div g, b.m)))
VScale(k, v) == Vec(v.d, Scale3(k, v.v))
VSub(a, b) == VAdd(a, VScale(-1, b))
VDiv(v, n) == Vec(v.d * n, v.v)              \* n > 0
MScale(k, a) == Mat(a.d, Scale9(k, a.m))
MT(a) == [d |-> a.d, m |-> <<a.m[1], a.m[4], a.m[7], a.m[2], a.m[5], a.m[8], a.m[3], a.m[6], a.m[9]>>]
Cross(a, b) == Vec(a.d * b.d, << a.v[2]*b.v[3] - a.v[3]*b.v[2],
                                 a.v[3]*b.v[1] - a.v[1]*b.v[3],
                                 a.v[1]*b.v[2] - a.v[2]*b.v[1] >>)

(* Unit axes.  1..6 are the coordinate axes, the rest are oblique.         *)
AxisTab == << [d |-> 1, v |-> << 1, 0, 0>>], [d |-> 1, v |-> <<0,  1, 0>>], [d |-> 1, v |-> <<0, 0,  1>>],
              [d |-> 1, v |-> <<-1, 0, 0>>], [d |-> 1, v |-> <<0, -1, 0>>], [d |-> 1, v |-> <<0, 0, -1>>],
              [d |-> 3, v |-> <<1, 2, 2>>],  [d |-> 3, v |-> <<2, -1, 2>>],
              [d |-> 5, v |-> <<3, 4, 0>>],  [d |-> 5, v |-> <<0, -4, 3>>] >>
CoordAxes == 1..6
ObliqueAxes == 7..10

(* Rotations of origins, as integer quaternions <<w, x, y, z>>.            *)
QuatTab == << <<1,0,0,0>>, <<1,1,0,0>>, <<1,0,1,0>>, <<1,0,0,1>>, <<1,0,0,-1>>, <<1,-1,0,0>>,
              <<0,1,0,0>>, <<0,0,1,1>>, <<1,1,1,1>>, <<1,-1,1,1>>,
              <<2,1,0,0>>, <<1,2,2,0>>, <<1,1,1,0>>, <<2,0,-1,0>> >>
CoordQuats == 1..10
ObliqueQuats == 11..14
QuatMat(q) ==
  LET w == q[1] x == q[2] y == q[3] z == q[4]
      n == w*w + x*x + y*y + z*z
  IN Mat(n, << w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y),
               2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x),
               2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z >>)
QMat == TLCEval([i \in 1..Len(QuatTab) |-> QuatMat(QuatTab[i])])

Outer(a) == [d |-> a.d * a.d,
             m |-> << a.v[1]*a.v[1], a.v[1]*a.v[2], a.v[1]*a.v[3],
                      a.v[2]*a.v[1], a.v[2]*a.v[2], a.v[2]*a.v[3],
                      a.v[3]*a.v[1], a.v[3]*a.v[2], a.v[3]*a.v[3] >>]
Hat(a) == [d |-> a.d, m |-> << 0, -a.v[3], a.v[2],  a.v[3], 0, -a.v[1],  -a.v[2], a.v[1], 0 >>]

(* Rodrigues: R = c I + s [a]x + (1 - c) a a^T, at quarter turns.          *)
CosQ(k) == <<1, 0, -1, 0>>[(k % 4) + 1]
SinQ(k) == <<0, 1, 0, -1>>[(k % 4) + 1]
AxisRotDef(a, k) == MAdd(MAdd(MScale(CosQ(k), I3), MScale(SinQ(k), Hat(a))), MScale(1 - CosQ(k), Outer(a)))
(* its derivative by the angle: -s I + c [a]x + s a a^T                    *)
DAxisRotDef(a, k) == MAdd(MAdd(MScale(-SinQ(k), I3), MScale(CosQ(k), Hat(a))), MScale(SinQ(k), Outer(a)))
AxRotTab == TLCEval([i \in 1..Len(AxisTab) |-> [k \in 0..3 |-> AxisRotDef(AxisTab[i], k)]])
DAxRotTab == TLCEval([i \in 1..Len(AxisTab) |-> [k \in 0..3 |-> DAxisRotDef(AxisTab[i], k)]])
AxisRot(i, k) == AxRotTab[i][k % 4]
DAxisRot(i, k) == DAxRotTab[i][k % 4]

Pose(r, t) == [r |-> r, t |-> t]
PId == Pose(I3, V0)
PMul(a, b) == Pose(MM(a.r, b.r), VAdd(MV(a.r, b.t), a.t))

(* An origin is <<quaternion index, x, y, z>>.                             *)
OrgPose(o) == Pose(QMat[o[1]], [d |-> 1, v |-> <<o[2], o[3], o[4]>>])
OrgId == <<1, 0, 0, 0>>

(* Motion of a joint of type "F", "R" or "L" about/along axis i.           *)
Motion(ty, i, q) == CASE ty = "F" -> PId
                      [] ty = "R" -> Pose(AxisRot(i, q), V0)
                      [] ty = "L" -> Pose(I3, VScale(q, AxisTab[i]))

(* Poses that vary in time: value and rate of change.                      *)
Dual(p, dr, dt) == [p |-> p, dr |-> dr, dt |-> dt]
DConst(p) == Dual(p, Z3, V0)
DMul(a, b) == Dual(PMul(a.p, b.p),
                   MAdd(MM(a.dr, b.p.r), MM(a.p.r, b.dr)),
                   VAdd(VAdd(MV(a.dr, b.p.t), MV(a.p.r, b.dt)), a.dt))
(* v: rate of the joint position (rad/s, or units/s = 2 half units/s).     *)
DMotion(ty, i, q, v) ==
  CASE ty = "F" -> DConst(PId)
    [] ty = "R" -> Dual(Motion(ty, i, q), MScale(v, DAxisRot(i, q)), V0)
    [] ty = "L" -> Dual(Motion(ty, i, q), Z3, VScale(2 * v, AxisTab[i]))
(* Angular velocity: the vector of the skew matrix R' R^T.                 *)
AngVel(a) == LET w == MM(a.dr, MT(a.p.r)) IN Vec(w.d, <<w.m[8], w.m[3], w.m[4]>>)
IsSkew(w) == w.m[1] = 0 /\ w.m[5] = 0 /\ w.m[9] = 0 /\ w.m[2] = -w.m[4] /\ w.m[3] = -w.m[7] /\ w.m[6] = -w.m[8]

(* Facts about the tables.                                                 *)
IsRot(a) == MM(a, MT(a)) = I3
ASSUME TablesAreRotations ==
  /\ \A i \in 1..Len(AxisTab) : AxisTab[i].v[1]^2 + AxisTab[i].v[2]^2 + AxisTab[i].v[3]^2 = AxisTab[i].d^2
  /\ \A i \in 1..Len(QuatTab) : IsRot(QMat[i])
  /\ \A i \in 1..Len(AxisTab), k \in 0..3 : IsRot(AxisRot(i, k)) /\ MV(AxisRot(i, k), AxisTab[i]) = AxisTab[i]
                                            /\ IsSkew(MM(DAxisRot(i, k), MT(AxisRot(i, k))))

(* JSON-friendly forms.                                                    *)
PoseOut(p) == <<p.r.d, p.r.m, p.t.d, p.t.v>>
VecOut(v) == <<v.d, v.v>>
=============================================================================
