------------------------------- MODULE KTrace -------------------------------
(***************************************************************************)
(* Recorded behaviours of the library, checked against the specification.  *)
(*                                                                         *)
(* The log is a list of records, one per call: its arguments (exact, in    *)
(* millionths) and everything it returned (rounded to millionths).  The    *)
(* state is what the specification says the tree is; a record is accepted  *)
(* if the call could return that in this state.  What does not agree is    *)
(* printed with the property it is about, so that a check can go on.       *)
(***************************************************************************)
EXTENDS Fix, FiniteSets, Json

CONSTANT File
Log == TLCEval(ndJsonDeserialize(File))

VARIABLES l, nd
vars == <<l, nd>>

Range(s) == {s[i] : i \in 1..Len(s)}
E5 == 5            \* values that are only rounded
Eps == 400         \* values that are computed (the library may use 32-bit floats)

------------------------------------------------------------------------------
(* nodes                                                                    *)
Loc(r) == IF r.ty = "F" THEN r.org
          ELSE IF r.ty = "R" THEN <<MMF(r.org[1], RotF(r.u, r.q)), r.org[2]>>
          ELSE <<r.org[1], AddV(r.org[2], MVF(r.org[1], ScaV(r.q, r.u)))>>
WithLoc(r) == [r EXCEPT !.loc = TLCEval(Loc(r))]
OrgE(o) == TLCEval(OrgP(o))
Lk(x) == IF x = <<>> THEN <<>> ELSE <<[mass |-> x[1].m, i |-> OrgE(x[1].i), v |-> [k \in 1..Len(x[1].v) |-> OrgE(x[1].v[k])],
                                      c |-> [k \in 1..Len(x[1].c) |-> OrgE(x[1].c[k])]]>>
Made(x) == WithLoc([ty |-> x.ty, u |-> TLCEval(UnitF(x.ax)), org |-> OrgE(x.org), q |-> 0, par |-> x.par, lim |-> x.lim, vel |-> x.vel, mp |-> x.mp, mc |-> x.mc,
                    lk |-> Lk(x.lk), loc |-> Pid])
RECURSIVE MakeAll(_, _, _)
MakeAll(acc, x, i) == IF i > Len(x) THEN acc ELSE MakeAll(TLCEval(Append(acc, Made(x[i]))), x, i + 1)

RECURSIVE Above(_, _)
Above(n, i) == IF n[i].par = 0 THEN <<>> ELSE Above(n, n[i].par) \o <<n[i].par>>
RECURSIVE Prod(_, _, _, _)
Prod(n, p, is, k) == IF k > Len(is) THEN p ELSE Prod(n, TLCEval(MulP(p, n[is[k]].loc)), is, k + 1)
World(n, i) == Prod(n, Pid, Above(n, i) \o <<i>>, 1)
(* the world poses of the members of a chain, parents first                 *)
RECURSIVE Worlds(_, _, _)
Worlds(n, ns, acc) ==
  LET k == Len(acc) + 1 IN
  IF k > Len(ns) THEN acc
  ELSE LET at == {j \in 1..(k-1) : ns[j] = n[ns[k]].par} IN
       Worlds(n, ns, TLCEval(Append(acc, IF at = {} THEN World(n, ns[k]) ELSE MulP(acc[CHOOSE j \in at : TRUE], n[ns[k]].loc))))
Mov(n, ns) == SelectSeq(ns, LAMBDA i : n[i].ty # "F")
(* rates of the members: <<linear, angular>>                                *)
RECURSIVE Rates(_, _, _, _)
Rates(n, ns, w, acc) ==
  LET k == Len(acc) + 1 IN
  IF k > Len(ns) THEN acc
  ELSE LET r == n[ns[k]]
           at == {j \in 1..(k-1) : ns[j] = r.par}
           j == CHOOSE x \in at : TRUE
           up == IF at = {} THEN <<Vz, Vz>> ELSE acc[j]
           arm == IF at = {} THEN Vz ELSE SubV(w[k][2], w[j][2])
           d == IF r.ty = "F" THEN Vz ELSE ScaV(r.vel, MVF(w[k][1], r.u))
           lin == AddV(up[1], CrossF(up[2], arm))
       IN Rates(n, ns, w, TLCEval(Append(acc, IF r.ty = "L" THEN <<AddV(lin, d), up[2]>> ELSE <<lin, AddV(up[2], d)>>)))

------------------------------------------------------------------------------
(* positions                                                                *)
InLim(r, q) == r.lim = <<>> \/ (r.lim[1] <= q /\ q <= r.lim[2])
RECURSIVE Follow(_, _)
Follow(n, todo) ==      \* everything that mimics, directly or not
  IF todo = {} THEN n
  ELSE LET s == CHOOSE x \in todo : TRUE
           ds == {i \in 1..Len(n) : n[i].mp = s}
       IN Follow(TLCEval([i \in 1..Len(n) |-> IF i \in ds THEN WithLoc([n[i] EXCEPT !.q = MulF(n[i].mc[1], n[s].q) + n[i].mc[2]]) ELSE n[i]]), (todo \ {s}) \cup ds)
Put(n, i, q) == [n EXCEPT ![i] = WithLoc([@ EXCEPT !.q = q])]
(* a checked assignment: <<accepted, nodes>>                                *)
Set(n, i, q) == IF n[i].ty = "F" THEN <<0, n>>
                ELSE IF n[i].mp # 0 THEN <<1, n>>
                ELSE IF ~InLim(n[i], q) THEN <<0, n>>
                ELSE <<1, Follow(TLCEval(Put(n, i, q)), {i})>>
RECURSIVE SetAll(_, _, _, _)
SetAll(n, is, qs, k) == IF k > Len(is) THEN <<1, n>>
  ELSE LET r == TLCEval(Set(n, is[k], qs[k])) IN IF r[1] = 0 THEN r ELSE SetAll(r[2], is, qs, k + 1)
Clamped(r, q) == IF r.lim = <<>> THEN q ELSE IF q < r.lim[1] THEN r.lim[1] ELSE IF q > r.lim[2] THEN r.lim[2] ELSE q
RECURSIVE Force(_, _, _, _, _)
Force(n, is, qs, k, clamp) == IF k > Len(is) THEN n
  ELSE Force(TLCEval(Put(n, is[k], IF clamp THEN Clamped(n[is[k]], qs[k]) ELSE qs[k])), is, qs, k + 1, clamp)
(* positions as they were logged                                            *)
Adopt(n, pos) == [i \in 1..Len(n) |-> IF n[i].ty = "F" THEN n[i] ELSE WithLoc([n[i] EXCEPT !.q = pos[i]])]
PosAgree(n, pos) == {i \in 1..Len(n) : n[i].ty # "F" /\ AbsF(n[i].q - pos[i]) > E5}
Blame(n, is, bad, prop) == (IF bad \cap Range(is) # {} THEN {<<prop, "position">>} ELSE {}) \cup
                           (IF bad \ Range(is) # {} THEN {<<IF \E i \in bad : n[i].mp # 0 THEN "C05" ELSE "C06", "position of another joint">>} ELSE {})

------------------------------------------------------------------------------
(* What a record says wrongly: a set of <<property, text>>                  *)
Check(prop, ok, what) == IF ok THEN {} ELSE {<<prop, what>>}

Jac(n, ns, w) == [k \in 1..Len(Mov(n, ns)) |->
  LET i == Mov(n, ns)[k] j == CHOOSE x \in 1..Len(ns) : ns[x] = i
      a == MVF(w[j][1], n[i].u)
  IN IF n[i].ty = "L" THEN a \o Vz ELSE CrossF(a, SubV(w[Len(ns)][2], w[j][2])) \o a]
(* poses relative to the first member's parent                              *)
RECURSIVE Rel(_, _, _)
Rel(n, ns, acc) == IF Len(acc) = Len(ns) THEN acc
  ELSE Rel(n, ns, TLCEval(Append(acc, IF acc = <<>> THEN n[ns[1]].loc ELSE MulP(acc[Len(acc)], n[ns[Len(acc) + 1]].loc))))

RECURSIVE Sum(_, _, _, _)
Sum(n, ns, w, k) == IF k > Len(ns) THEN <<0, Vz>>
  ELSE LET s == Sum(n, ns, w, k + 1) r == n[ns[k]] IN
       IF r.lk = <<>> THEN s
       ELSE <<s[1] + r.lk[1].mass, AddV(s[2], ScaV(r.lk[1].mass, AddV(MVF(w[k][1], r.lk[1].i[2]), w[k][2])))>>

(* the rotation that remains, as a vector (small angles)                    *)
RotErr(t, e) == LET m == MMF(t, MTF(e)) IN <<(m[8] - m[6]) \div 2, (m[3] - m[7]) \div 2, (m[4] - m[2]) \div 2>>
Norm2(v) == MulF(v[1], v[1]) + MulF(v[2], v[2]) + MulF(v[3], v[3])
Masked(v, con) == <<IF con[1] THEN v[1] ELSE 0, IF con[2] THEN v[2] ELSE 0, IF con[3] THEN v[3] ELSE 0>>
Small(v) == \A i \in 1..3 : AbsF(v[i]) <= 30 * S
Within(v, tol) == Small(v) /\ Norm2(v) <= MulF(tol + Eps, tol + Eps)
(* turned by less than a quarter, so that the vector tells the angle        *)
Facing(t, e) == LET m == MMF(t, MTF(e)) IN m[1] + m[5] + m[9] > S

IkBad(n, e) ==
  LET ns == e.ns
      mv == Mov(n, ns)
      free == SelectSeq(mv, LAMBDA i : i \notin Range(e.ign))
      need == Cardinality({c \in 1..6 : e.con[c]})
      m == TLCEval(Adopt(n, e.pos))
      rel == TLCEval(Rel(m, ns, <<>>))
      end == rel[Len(rel)]
      tgt == <<SubSeq(e.target, 1, 9), SubSeq(e.target, 10, 12)>>
      short == Len(free) < need
  IN IF e.out = "ok" THEN
          Check("C13", e.tol[1] < 0 \/ Within(Masked(SubV(tgt[2], end[2]), SubSeq(e.con, 1, 3)), e.tol[1]), "position not within the tolerance")
          \cup Check("C13", \/ e.tol[1] < 0 \/ ~(\E c \in 4..6 : e.con[c])
                            \/ /\ Within(Masked(RotErr(tgt[1], end[1]), SubSeq(e.con, 4, 6)), e.tol[2])
                               /\ (\A c \in 4..6 : e.con[c]) => Facing(tgt[1], end[1]), "rotation not within the tolerance")
          \cup Check("C13", \A i \in Range(mv) : n[i].lim = <<>> \/ (n[i].lim[1] - E5 <= e.pos[i] /\ e.pos[i] <= n[i].lim[2] + E5), "outside the limits")
          \cup Check("C16", \A i \in Range(e.ign) : InLim(n[i], n[i].q) => AbsF(e.pos[i] - n[i].q) <= E5, "an ignored joint moved")
          \cup Check("C15", ~short, "success with too few joints")
          \cup (IF e.once = 1 /\ (\A i \in Range(mv) : n[i].lim = <<>> /\ AbsF(e.pos[i] - n[i].q) <= 3 * S) THEN
                  (* one iteration: the Jacobian times the move is the error times the multiplier *)
                  LET r0 == TLCEval(Rel(n, ns, <<>>))
                      J == TLCEval(Jac(n, ns, r0))
                      e0 == SubV(tgt[2], r0[Len(r0)][2]) \o RotErr(tgt[1], r0[Len(r0)][1])
                      Moved(c) == LET RECURSIVE Go(_)
                                      Go(k) == IF k = 0 THEN 0 ELSE MulF(J[k][c], e.pos[mv[k]] - n[mv[k]].q) + Go(k - 1)
                                  IN Go(Len(mv))
                  IN Check("C17", \A c \in 1..6 : e.con[c] => AbsF(Moved(c) - MulF(e.mult, e0[c])) <= e.slack, "the step does not go along the error")
                ELSE {})
     ELSE Check("C14", e.same = 1, "positions changed by a failed solve")
          \cup (IF e.out = "precondition" THEN Check("C15", short /\ e.num = <<Len(free), need>>, "precondition error with other numbers")
                ELSE Check("C15", ~short, "another error than the precondition error")
                     \cup Check("C15", e.out \in {"notconverged", "inverse"}, "unexpected kind of error")
                     \cup (IF e.out = "notconverged" THEN Check("C15", e.num = <<e.tries>>, "other number of tries") ELSE {}))

UrdfBad(e) == UNION {LET x == e.want[i] g == e.got[i] o == OrgE(x.org) IN
    Check("C19", NearP(g.org, o, Eps), "origin of a joint")
    \cup Check("C19", g.ty = x.ty, "type of a joint")
    \cup Check("C19", x.ty = "F" \/ NearV(g.ax, UnitF(x.ax), Eps), "axis of a joint")
    \cup Check("C19", (x.ty = "F" \/ g.lim = x.lim \/ (Len(g.lim) = 2 /\ Len(x.lim) = 2 /\ NearV(g.lim, x.lim, E5))), "limits of a joint")
    \cup Check("C19", NearP(g.iorg, OrgE(x.iorg), Eps) /\ AbsF(g.mass - x.mass) <= E5 /\ NearV(g.inertia, x.inertia, E5), "inertial of a link")
    \cup Check("C19", Len(g.v) = Len(x.v) /\ \A k \in 1..Len(x.v) : NearP(g.v[k], OrgE(x.v[k]), Eps), "visuals of a link")
    \cup Check("C19", Len(g.c) = Len(x.c) /\ \A k \in 1..Len(x.c) : NearP(g.c[k], OrgE(x.c[k]), Eps), "collisions of a link")
  : i \in 1..Len(e.want)}

(* <<what is wrong, nodes afterwards>>                                      *)
Step(n, e) ==
  CASE e.op = "mark" -> <<{}, <<>>>>      \* the next behaviour
    [] e.op = "tree" -> LET m == MakeAll(<<>>, e.n, 1) IN <<{}, m>>
    [] e.op = "set" -> LET r == TLCEval(IF e.how = "checked" THEN Set(n, e.i, e.q)
                                ELSE IF n[e.i].ty = "F" THEN <<1, n>>
                                ELSE <<1, Put(n, e.i, IF e.how = "clamped" THEN Clamped(n[e.i], e.q) ELSE e.q)>>)
                           bad == PosAgree(r[2], e.pos) IN
                       <<Check("C03", r[1] = e.ok, "accepted or refused wrongly") \cup Blame(n, <<e.i>>, bad, "C03")
                         \cup Check("C02", e.ok = 0 \/ r[1] = 0 \/ n[e.i].ty = "F" \/ n[e.i].mp # 0 \/ e.stale = 0, "a changed joint still has a pose"),
                         Adopt(r[2], e.pos)>>
    [] e.op = "cset" -> LET mv == Mov(n, e.ns)
                            r == TLCEval(IF e.how = "checked" THEN SetAll(n, mv, e.q, 1) ELSE <<1, Force(n, mv, e.q, 1, e.how = "clamped")>>)
                            bad == IF r[1] = 0 THEN {} ELSE PosAgree(r[2], e.pos) IN
                        <<Check("C04", r[1] = e.ok, "accepted or refused wrongly") \cup Blame(n, mv, bad, "C04"), Adopt(r[2], e.pos)>>
    [] e.op = "org" -> <<{}, [n EXCEPT ![e.i] = WithLoc([@ EXCEPT !.org = OrgE(e.o)])]>>
    [] e.op = "att" -> <<{}, [n EXCEPT ![e.i].par = e.p]>>
    [] e.op = "link" -> <<{}, [n EXCEPT ![e.i].lk = Lk(e.lk)]>>
    [] e.op = "copy" -> (* clones of the members, numbered on *)
         LET base == Len(n)
             To(i) == IF i \in Range(e.ns) THEN base + (CHOOSE k \in 1..Len(e.ns) : e.ns[k] = i) ELSE 0
             m == n \o [k \in 1..Len(e.ns) |-> LET i == e.ns[k] IN
                          [n[i] EXCEPT !.par = IF n[i].par = 0 THEN 0 ELSE To(n[i].par), !.mp = IF n[i].mp = 0 THEN 0 ELSE To(n[i].mp)]] IN
         <<Check("C06", PosAgree(m, e.pos) = {}, "positions of a clone"), Adopt(m, e.pos)>>
    [] e.op = "updt" -> LET w == TLCEval(Worlds(n, e.ns, <<>>)) IN
         <<Check("C01", Len(e.p) = Len(w) /\ \A k \in 1..Len(w) : NearP(e.p[k], w[k], Eps), "world transforms")
           \cup Check("C01", Len(e.c) = Len(w) /\ \A k \in 1..Len(w) : NearP(e.c[k], w[k], Eps), "cached world transforms"), n>>
    [] e.op = "end" -> LET r == Rel(n, e.ns, <<>>) IN <<Check("C01", NearP(e.p, r[Len(r)], Eps), "end transform"), n>>
    [] e.op = "jac" -> LET j == TLCEval(Jac(n, e.ns, Rel(n, e.ns, <<>>))) IN
         <<Check("C09", Len(e.c) = Len(j) /\ \A k \in 1..Len(j) : NearV(e.c[k], j[k], Eps), "jacobian"), n>>
    [] e.op = "updv" -> LET w == TLCEval(Worlds(n, e.ns, <<>>)) v == TLCEval(Rates(n, e.ns, w, <<>>)) IN
         <<Check("C10", Len(e.v) = Len(v) /\ \A k \in 1..Len(v) : NearV(e.v[k], v[k][1] \o v[k][2], 2 * Eps), "world velocities"), n>>
    [] e.op = "com" -> LET w == TLCEval(Worlds(n, e.ns, <<>>)) s == Sum(n, e.ns, w, 1) IN
         <<Check("C11", s[1] = 0 \/ ((\A k \in 1..3 : AbsF(e.p[k]) <= 200 * S) /\ NearV(ScaV(s[1], e.p), s[2], MulF(s[1], 2 * Eps) + 50)), "centre of mass"), n>>
    [] e.op = "upl" -> LET w == TLCEval(Worlds(n, e.ns, <<>>)) IN
         <<Check("C12", \A k \in 1..Len(w) : LET lk == n[e.ns[k]].lk IN
              IF lk = <<>> THEN e.l[k] = <<>>
              ELSE LET os == <<lk[1].i>> \o lk[1].v \o lk[1].c IN
                   Len(e.l[k]) = Len(os) /\ \A j \in 1..Len(os) : NearP(e.l[k][j], MulP(w[k], os[j]), Eps), "link transforms"), n>>
    [] e.op = "ik" -> <<IkBad(n, e), IF e.out = "ok" THEN Adopt(n, e.pos) ELSE n>>
    [] e.op = "urdf" -> <<UrdfBad(e), n>>
    [] e.op = "panic" -> <<{<<e.prop, e.call \o " panics">>}, n>>

------------------------------------------------------------------------------
Init == l = 0 /\ nd = <<>>
Next == /\ l < Len(Log)
        /\ l' = l + 1
        /\ LET r == TLCEval(Step(nd, Log[l + 1])) IN
             /\ nd' = r[2]
             /\ (r[1] = {} \/ PrintT("@B" \o ToJson(<<l + 1, r[1]>>)))
             /\ (l + 1 < Len(Log) \/ PrintT("@E" \o ToJson(<<l + 1>>)))
Spec == Init /\ [][Next]_vars

(* What TLC checks of the model itself, on the way                          *)
IsRotF(m) == NearV(MMF(m, MTF(m)), Mi, 40)
InvPoses == \A i \in 1..Len(nd) : IsRotF(nd[i].loc[1])
InvFollow == \A i \in 1..Len(nd) : nd[i].par # i /\ nd[i].mp # i
=============================================================================
