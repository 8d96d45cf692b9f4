--------------------------------- MODULE KIk ---------------------------------
(***************************************************************************)
(* The Jacobian IK solver on a serial arm.                                 *)
(*                                                                         *)
(* State: an arm (a line of joints of which a part is the arm), a solver   *)
(* (tolerances, multiplier, budget, null-space function) and the progress  *)
(* of a solve.  A solve is a sequence of transitions: Begin (resolve the   *)
(* names, count the joints), Iterate (one iteration: move, clamp, compare) *)
(* and Finish.  A finished request is printed with the outcome, and the    *)
(* harness sends the same request to the real solver.                      *)
(*                                                                         *)
(* Arms come in two kinds.  In "grid" arms each joint that may move acts   *)
(* on one world coordinate only: linear joints along coordinate axes (the  *)
(* frames may be turned, also by ignored rotary joints) and a wrist of     *)
(* rotary joints about one axis at the end.  There an iteration is exact   *)
(* in fixed point: the outcome, the number of iterations and every iterate *)
(* are determined.  In "free" arms anything goes at quarter turns; there   *)
(* the model gives the exact Jacobian and error, from which one iteration  *)
(* (Step) is determined, and for whole solves (Near, Hard) what the        *)
(* outcome has to satisfy.                                                 *)
(*                                                                         *)
(* Units: lengths and small angles 1/4096, origins half units (= 2048),    *)
(* positions of other rotary joints quarter turns.  Tolerance t stands for *)
(* (2 t + 1) / 2 units, which no distance of grid points equals.           *)
(***************************************************************************)
EXTENDS Kin, FiniteSets, SequencesExt, Randomization, Json

CONSTANTS Sim, Free, MaxLen, Arms, Sols(_), Reqs(_), OpBag

VARIABLES arm, geo, sol, known, pc, req, run, nst, hist, out
vars == <<arm, geo, sol, known, pc, req, run, nst, hist, out>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Roll(p) == RandomElement(1..100) <= p
RandIn(s) == s[RandomElement(1..Len(s))]
RECURSIVE SumF(_, _)
SumF(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumF(f, S \ {x})

------------------------------------------------------------------------------
(* Arms: [nodes |-> seq, from |-> first member, how |-> how it is made]     *)
Node(nm, ty, ax, org, lim, pos, qt) == [nm |-> nm, ty |-> ty, ax |-> ax, org |-> org, lim |-> lim, pos |-> pos, qt |-> qt, mp |-> 0]
Members(a) == a.from..Len(a.nodes)
Mov(a) == SelectSeq([k \in 1..(Len(a.nodes) - a.from + 1) |-> a.from + k - 1], LAMBDA i : a.nodes[i].ty # "F")
Dof(a) == Len(Mov(a))
NameIx(a, nm) == {k \in 1..Dof(a) : a.nodes[Mov(a)[k]].nm = nm}
Positions(a) == [k \in 1..Dof(a) |-> a.nodes[Mov(a)[k]].pos]
WithPositions(a, q) == [a EXCEPT !.nodes = [i \in 1..Len(a.nodes) |->
     IF \E k \in 1..Dof(a) : Mov(a)[k] = i THEN [a.nodes[i] EXCEPT !.pos = q[CHOOSE k \in 1..Dof(a) : Mov(a)[k] = i]] ELSE a.nodes[i]]]
Clamp(l, x) == IF l = <<>> THEN x ELSE IF x < l[1] THEN l[1] ELSE IF x > l[2] THEN l[2] ELSE x
InLim(l, x) == l = <<>> \/ (l[1] <= x /\ x <= l[2])
Limits(a) == [k \in 1..Dof(a) |-> a.nodes[Mov(a)[k]].lim]
Quart(a, k) == a.nodes[Mov(a)[k]].qt

(* The frame of a node when everything that moves in a solve is at zero     *)
Still(n) == PMul(OrgPose(n.org), IF n.ty = "R" /\ n.qt THEN Motion("R", n.ax, n.pos) ELSE PId)
(* What a joint acts on: <<coordinate, sign>>                               *)
CoordOf(v) == LET c == CHOOSE c \in 1..3 : v.v[c] # 0 IN <<c, IF v.v[c] > 0 THEN 1 ELSE -1>>
(* What a solve needs of it, kept in geo                                   *)
Frames(a) ==
  LET f[i \in 0..Len(a.nodes)] == IF i < a.from THEN PId ELSE TLCEval(PMul(f[i - 1], Still(a.nodes[i]))) IN [i \in 1..Len(a.nodes) |-> f[i]]
Geometry(a) ==
  IF Free THEN [ac |-> <<>>, base |-> PId]
  ELSE LET fr == TLCEval(Frames(a))
           act(k) == LET i == Mov(a)[k]
                         c == CoordOf(MV(fr[i].r, AxisTab[a.nodes[i].ax]))
                     IN IF a.nodes[i].ty = "L" THEN c ELSE <<c[1] + 3, c[2]>>
       IN [ac |-> TLCEval([k \in 1..Dof(a) |-> IF Quart(a, k) THEN <<0, 0>> ELSE TLCEval(act(k))]), base |-> fr[Len(a.nodes)]]
(* exact zeros and ones in the library's Jacobian too *)
Plain(a) == \A i \in Members(a) : a.nodes[i].org[1] = 1 /\ ~(a.nodes[i].ty = "R" /\ a.nodes[i].qt)

------------------------------------------------------------------------------
(* Solvers: tolp, tola (tolerances), den (the multiplier is 1 / den), tries, *)
(* ns: <<>> or weights w (halves) and references of a null-space function    *)
Within(t, n2) == t >= 0 /\ 4 * n2 < (2 * t + 1) * (2 * t + 1)
Close(t, n2) == t >= 0 /\ LET b == (2 * t + 1) * (2 * t + 1) IN 4 * n2 < b + 2 * (2 * t + 1) /\ 4 * n2 > b - 2 * (2 * t + 1)

(* Requests: con: constrained coordinates, ign: ignored names in order,     *)
(* tgt: displacement from Base in the six coordinates                       *)
IgnSet(a, r) == UNION {NameIx(a, r.ign[k]) : k \in 1..Len(r.ign)}
BadNames(a, r) == {r.ign[k] : k \in {k \in 1..Len(r.ign) : NameIx(a, r.ign[k]) = {}}}
Active(a, r) == (1..Dof(a)) \ IgnSet(a, r)

(* The problem that is iterated, with everything that stays the same        *)
Setup(a, g, s, r) ==
  LET act == Active(a, r)
      ac == g.ac
      by == [c \in 1..6 |-> {k \in act : ac[k][1] = c}]
  IN [act |-> act, ac |-> ac, by |-> by, lim |-> Limits(a),
      q0 |-> Positions(a), q |-> Positions(a), it |-> 0, its |-> <<>>, exact |-> TRUE, res |-> "",
      square |-> Cardinality(act) = Cardinality(r.con)]
AllBy(p, c) == {k \in DOMAIN p.ac : p.ac[k][1] = c}
ErrOf(p, r, q, c) == r.tgt[c] - SumF([k \in AllBy(p, c) |-> p.ac[k][2] * q[k]], AllBy(p, c))
ErrSeq(p, r, q) == [c \in 1..6 |-> ErrOf(p, r, q, c)]
Sq(e, S) == SumF([c \in S |-> e[c] * e[c]], S)
Singular(p, r) == p.square /\ \E c \in r.con : Cardinality(p.by[c]) # 1

(* One iteration.  sub: twice the null-space function                       *)
SubOf(s, q) == IF s.ns = <<>> THEN [k \in DOMAIN q |-> 0] ELSE [k \in DOMAIN q |-> s.ns[1][k] * (q[k] - s.ns[2][k])]
Move(p, s, r, q) ==       \* per joint <<numerator, denominator>>
  LET e == TLCEval(ErrSeq(p, r, q))
      sub == TLCEval(IF p.square THEN [k \in DOMAIN q |-> 0] ELSE SubOf(s, q))
  IN [k \in DOMAIN q |->
       IF k \notin p.act THEN <<0, 1>>
       ELSE LET c == p.ac[k][1] IN
            IF c \in r.con
            THEN LET m == Cardinality(p.by[c])
                     mean == SumF([x \in p.by[c] |-> p.ac[x][2] * sub[x]], p.by[c])
                 IN <<2 * p.ac[k][2] * e[c] + m * sub[k] - p.ac[k][2] * mean, 2 * m * s.den>>
            ELSE <<sub[k], 2 * s.den>>]
Divides(d) == d[1] % d[2] = 0
NextQ(p, mv, q) == [k \in DOMAIN q |-> Clamp(p.lim[k], q[k] + mv[k][1] \div mv[k][2])]
Big == 16384
Step1(p, s, r) ==
  LET mv == TLCEval(Move(p, s, r, p.q))
      q1 == TLCEval(NextQ(p, mv, p.q))
      e1 == TLCEval(ErrSeq(p, r, q1))
      small == \A c \in 1..6 : Abs(e1[c]) < Big
      lp == Sq(e1, r.con \cap 1..3)
      la == Sq(e1, r.con \cap 4..6)
      fine == /\ \A k \in DOMAIN mv : Divides(mv[k])
              /\ \A k \in DOMAIN q1 : Abs(q1[k]) < Big
              /\ small
              /\ \A c \in 4..6 : Abs(e1[c]) < 8192
              /\ ~Close(s.tolp, lp) /\ ~Close(s.tola, la)
  IN IF ~fine THEN [p EXCEPT !.exact = FALSE, !.res = "any"]
     ELSE [p EXCEPT !.q = q1, !.it = @ + 1, !.its = Append(@, q1),
                    !.res = IF Within(s.tolp, lp) /\ Within(s.tola, la) THEN "ok"
                            ELSE IF p.it + 1 = s.tries THEN "nc" ELSE ""]

------------------------------------------------------------------------------
(* Random arms, solvers and requests                                        *)
Grid == 1024
RandG(S) == Grid * RandomElement(S)
RandOrg(z) == IF Roll(40) THEN OrgId ELSE <<RandomElement(CoordQuats), RandomElement(-2..3), RandomElement(-2..3), RandomElement(-2..3)>>
PlainOrg(z) == IF Roll(50) THEN OrgId ELSE <<1, RandomElement(-2..3), RandomElement(-2..3), RandomElement(-2..3)>>
RandLim(S) == IF Roll(50) THEN <<>> ELSE LET lo == TLCEval(RandomElement(S)) hi == TLCEval(RandomElement({x \in S : x >= lo})) IN <<Grid * lo, Grid * hi>>
Nm(i) == "j" \o ToString(i)
RandGridNode(i, plain) ==
  LET o == TLCEval(IF plain THEN PlainOrg(0) ELSE RandOrg(0))
      d == RandomElement(1..100)
  IN IF d <= 62 THEN Node(Nm(i), "L", RandomElement(CoordAxes), o, TLCEval(RandLim(-5..5)), RandG(-4..4), FALSE)
     ELSE IF d <= 80 \/ plain THEN Node(Nm(i), "F", 1, o, <<>>, 0, FALSE)
     ELSE Node(Nm(i), "R", RandomElement(CoordAxes \cup (IF Roll(20) THEN {} ELSE {})), o, IF Roll(50) THEN <<>> ELSE <<-2, 2>>, RandomElement(-1..2), TRUE)
RandGridArm(z) ==
  LET n == RandomElement(1..7)
      w == RandIn(<<0, 0, 1, 1, 2, 2, 3>>)
      plain == Roll(45)
      wax == RandomElement(1..3)
      lin == TLCEval([i \in 1..n |-> TLCEval(RandGridNode(i, plain))])
      wr == TLCEval([i \in 1..w |-> IF i > 1 /\ Roll(15) THEN Node(Nm(n + i), "F", 1, OrgId, <<>>, 0, FALSE)
                            ELSE Node(Nm(n + i), "R", IF Roll(70) THEN wax ELSE wax + 3, IF i = 1 THEN TLCEval(IF plain THEN PlainOrg(0) ELSE RandOrg(0)) ELSE OrgId, TLCEval(RandLim(-3..3)), RandG(-2..2), FALSE)])
      f == IF Roll(30) THEN RandomElement(1..(n + w)) ELSE 1
  IN [nodes |-> lin \o wr, from |-> f, how |-> IF f = 1 THEN RandIn(<<"end", "e2r", "try", "new">>) ELSE "e2r"]
RandFreeNode(i) ==
  LET o == TLCEval(<<RandIn(<<1, 1, RandomElement(CoordQuats)>>), RandomElement(-2..3), RandomElement(-2..3), RandomElement(-2..3)>>)
      d == RandomElement(1..100)
      ax == IF Roll(80) THEN RandomElement(CoordAxes) ELSE 7
      l == IF Roll(70) THEN <<>> ELSE <<-8, 8>>
  IN IF d <= 15 THEN Node(Nm(i), "F", 1, o, <<>>, 0, FALSE)
     ELSE IF d <= 80 THEN Node(Nm(i), "R", ax, o, l, RandomElement(-1..2), TRUE)
     ELSE Node(Nm(i), "L", ax, o, IF l = <<>> THEN l ELSE <<-8 * 2048, 8 * 2048>>, 2048 * RandomElement(-2..2), FALSE)
RandFreeArm(z) ==
  LET n == RandIn(<<2, 3, 4, 5, 6, 7, 7, 8, 9>>)
      f == IF Roll(30) THEN RandomElement(1..((n + 1) \div 2)) ELSE 1
  IN [nodes |-> TLCEval([i \in 1..n |-> TLCEval(RandFreeNode(i))]), from |-> f, how |-> IF f = 1 THEN RandIn(<<"end", "e2r", "try", "new">>) ELSE "e2r"]
(* some joints mimic another one, which the solver does not mind *)
WithMimic(a) == IF Dof(a) < 2 \/ Roll(70) THEN a
  ELSE LET m == Mov(a) k == RandomElement(2..Len(m)) IN [a EXCEPT !.nodes[m[k]].mp = m[RandomElement(1..(k - 1))]]
RandArm(z) == WithMimic(TLCEval(IF Free THEN RandFreeArm(0) ELSE RandGridArm(0)))

RandSol(n) ==
  LET d == RandIn(<<1, 1, 2, 2, 2, 4>>) IN
  [tolp |-> RandIn(<<-1, 3, 40, 100, 300, 700, 1500, 4000>>), tola |-> RandIn(<<-1, 3, 40, 300, 700, 1500, 4000, 4000>>), den |-> d,
   tries |-> RandIn(<<0, 1, 1, 2, 3, 4, 5, 6, 8>>),
   ns |-> IF Roll(55) THEN <<>> ELSE << TLCEval([k \in 1..n |-> TLCEval(RandomElement(-2..2))]), TLCEval([k \in 1..n |-> Grid * TLCEval(RandomElement(-2..2))]) >>]
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o RandSeq(S \ {x}, k - 1)
QuartNames(a) == {a.nodes[Mov(a)[k]].nm : k \in {k \in 1..Dof(a) : Quart(a, k)}}
MovNames(a) == {a.nodes[Mov(a)[k]].nm : k \in 1..Dof(a)}
RandIgn(a) ==
  LET must == IF Roll(90) /\ ~Free THEN QuartNames(a) ELSE {}
      some == TLCEval(IF Roll(45) THEN RandomSubset(RandomElement(0..Cardinality(MovNames(a))), MovNames(a)) ELSE {})
      s == TLCEval(RandSeq(must \cup some, 99))
      t == IF s # <<>> /\ Roll(20) THEN Append(s, RandIn(s)) ELSE s
      (* names that no joint of the arm has: among them those of its fixed joints and of those above it *)
      off == {a.nodes[i].nm : i \in 1..Len(a.nodes)} \ MovNames(a)
      u == IF Roll(6) THEN t \o <<IF off # {} /\ Roll(50) THEN RandomElement(off) ELSE RandIn(<<"none", "", Nm(1)>>)>> ELSE t
  IN IF Roll(4) THEN <<RandIn(<<"nil", "j">>)>> \o u ELSE u
RandReq(a, g) ==
  LET ign == TLCEval(RandIgn(a))
      free == Dof(a) - Cardinality(UNION {NameIx(a, ign[k]) : k \in 1..Len(ign)})
      k == IF free >= 0 /\ Roll(85) THEN RandomElement(0..(IF free > 6 THEN 6 ELSE free)) ELSE RandomElement(0..6)
      (* prefer the coordinates on which something acts *)
      use == TLCEval(IF Free THEN {} ELSE {g.ac[x][1] : x \in {x \in 1..Dof(a) : ~Quart(a, x)}})
      con == TLCEval(IF k <= Cardinality(use) /\ Roll(70) THEN RandomSubset(k, use) ELSE RandomSubset(k, 1..6))
      wr == {c \in 4..6 : c \in use}
      far == Roll(15)
  IN [con |-> con, ign |-> ign,
      tgt |-> TLCEval([c \in 1..6 |-> IF c <= 3 THEN RandG(IF far THEN -14..14 ELSE -5..5) ELSE IF c \in wr THEN RandG(-4..4) ELSE 0]),
      nf |-> IF Roll(93) THEN <<>> ELSE <<RandomElement(1..4), RandIn(<<"nan", "inf", "ninf", "huge">>)>>]
GridPos(a, k) == LET n == a.nodes[Mov(a)[k]] IN IF n.qt THEN RandomElement(-1..2) ELSE IF Free THEN 2048 * RandomElement(-2..2) ELSE RandG(-4..4)
InsidePos(a, k) == LET n == a.nodes[Mov(a)[k]] x == GridPos(a, k) IN IF n.lim = <<>> \/ Roll(15) THEN x ELSE Clamp(n.lim, x)
RandQ(a) == TLCEval([k \in 1..Dof(a) |-> TLCEval(InsidePos(a, k))])

------------------------------------------------------------------------------
(* Free arms: exact Jacobian and error                                      *)
Loc(n) == PMul(OrgPose(n.org), IF n.ty = "L" THEN Pose(I3, VScale(n.pos \div 2048, AxisTab[n.ax])) ELSE Motion(n.ty, n.ax, n.pos))
RECURSIVE Upto(_, _)
Upto(a, i) == IF i < a.from THEN PId ELSE PMul(Upto(a, i - 1), Loc(a.nodes[i]))
EndP(a) == Upto(a, Len(a.nodes))
Col(a, k) == LET i == Mov(a)[k] n == a.nodes[i] t == Upto(a, i) ax == MV(t.r, AxisTab[n.ax]) IN
   IF n.ty = "L" THEN [lin |-> VScale(2, ax), ang |-> V0] ELSE [lin |-> Cross(ax, VSub(EndP(a).t, t.t)), ang |-> ax]
Jac(a) == [k \in 1..Dof(a) |-> LET c == Col(a, k) IN <<VecOut(c.lin), VecOut(c.ang)>>]
Obliques(a) == Cardinality({i \in Members(a) : a.nodes[i].ax > 6})

------------------------------------------------------------------------------
Emit(op, a, r) ==
  LET rec == TLCEval([op |-> op, a |-> a, r |-> r]) IN
  /\ nst' = nst + 1
  /\ hist' = IF Sim THEN <<>> ELSE Append(hist, rec)
  /\ IF Sim THEN PrintT("@S" \o ToJson([k |-> nst, s |-> rec])) ELSE PrintT("@P" \o ToJson(Append(hist, rec)))
Quiet == UNCHANGED <<nst, hist>>

NoReq == [con |-> {}, ign |-> <<>>, tgt |-> <<0,0,0,0,0,0>>, nf |-> <<>>]
NoRun == [act |-> {}, ac |-> <<>>, by |-> [c \in 1..6 |-> {}], lim |-> <<>>, q0 |-> <<>>, q |-> <<>>, it |-> 0, its |-> <<>>, exact |-> TRUE, res |-> "", square |-> FALSE]
NoOut == [k |-> "", n |-> 0, d |-> 0]

DoArm(a) == /\ arm' = a /\ geo' = TLCEval(Geometry(a)) /\ known' = TRUE /\ Emit("Arm", <<a.nodes, a.from, a.how>>, <<>>)
            /\ UNCHANGED <<sol, pc, req, run, out>>
DoSolver(s) == /\ sol' = s /\ Emit("Solver", <<s.tolp, s.tola, s.den, s.tries, s.ns>>, <<>>)
               /\ UNCHANGED <<arm, geo, known, pc, req, run, out>>
DoSetQ(q) == /\ arm' = TLCEval(WithPositions(arm, q)) /\ geo' = TLCEval(Geometry(arm')) /\ known' = TRUE
             /\ Emit("SetQ", q, <<>>)
             /\ UNCHANGED <<sol, pc, req, run, out>>

(* The request as it is printed                                             *)
ReqOut(r) == [con |-> [c \in 1..6 |-> c \in r.con], ign |-> r.ign, nf |-> r.nf, tgt |-> r.tgt, base |-> PoseOut(geo.base),
              wax |-> LET w == {k \in 1..Dof(arm) : arm.nodes[Mov(arm)[k]].ty = "R" /\ ~Quart(arm, k)} IN
                      IF w = {} THEN (IF \E c \in 4..6 : r.tgt[c] # 0 THEN (CHOOSE c \in 4..6 : r.tgt[c] # 0) - 3 ELSE 0) ELSE geo.ac[CHOOSE k \in w : TRUE][1] - 3]

(* Begin a solve.  What is not determined goes to "any".                    *)
Begin(r) ==
  LET bad == BadNames(arm, r)
      nact == Cardinality(Active(arm, r))
      nreq == Cardinality(r.con)
      finite == r.nf = <<>>
      moving == \/ \E k \in Active(arm, r) : Quart(arm, k)
                \/ \E k \in (1..Dof(arm)) \ Active(arm, r) : ~InLim(Limits(arm)[k], Positions(arm)[k])   \* would be clamped
  IN /\ req' = r
     /\ IF bad # {} \/ nact < nreq
        THEN /\ run' = [NoRun EXCEPT !.q0 = Positions(arm), !.q = Positions(arm), !.res = IF bad # {} /\ nact < nreq THEN "bad" ELSE IF bad # {} THEN "name" ELSE "pre"]
             /\ pc' = "finish"
        ELSE IF ~finite
        THEN /\ run' = [NoRun EXCEPT !.q0 = Positions(arm), !.q = Positions(arm), !.exact = FALSE, !.act = Active(arm, r),
                          !.res = IF r.nf[2] # "huge" /\ ((r.nf[1] <= 3 /\ r.nf[1] \in r.con) \/ (r.nf[1] = 4 /\ r.con \cap 4..6 # {})) THEN "err" ELSE "any"]
             /\ pc' = "finish"
        ELSE LET p == TLCEval(Setup(arm, geo, sol, r)) IN
             IF moving \/ nreq = 0 \/ Singular(p, r)
             THEN /\ run' = [p EXCEPT !.exact = FALSE,
                               !.res = IF nreq = 0 THEN "none" ELSE IF sol.tries = 0 THEN "nc" ELSE IF moving THEN "any" ELSE IF Plain(arm) THEN "sing" ELSE "any"]
                  /\ pc' = "finish"
             ELSE IF sol.tries = 0 THEN run' = [p EXCEPT !.res = "nc"] /\ pc' = "finish"
             ELSE run' = p /\ pc' = "iterate"
     /\ UNCHANGED <<arm, geo, sol, known, out>> /\ Quiet

Iterate ==
  /\ pc = "iterate"
  /\ LET p == TLCEval(Step1(run, sol, req)) IN
     /\ run' = p
     /\ pc' = IF p.res = "" THEN "iterate" ELSE "finish"
  /\ UNCHANGED <<arm, geo, sol, known, req, out>> /\ Quiet

(* The outcome: positions are known afterwards unless the outcome is open   *)
Finish ==
  /\ pc = "finish"
  /\ LET q == IF run.res = "ok" THEN run.q ELSE run.q0
         open == run.res \in {"any", "none"}
         o == [k |-> run.res, n |-> Cardinality(Active(arm, req)), d |-> Cardinality(req.con)]
     IN /\ arm' = IF open THEN arm ELSE WithPositions(arm, q)
        /\ known' = ~open
        /\ out' = o
        /\ Emit("Solve", ReqOut(req),
                [k |-> o.k, n |-> o.n, d |-> o.d, q |-> q, its |-> run.its, bad |-> SetToSeq(BadNames(arm, req)), tries |-> sol.tries])
  /\ pc' = "idle"
  /\ UNCHANGED <<geo, sol, req, run>>

(* One iteration of a free arm: jump dp (half units), quarter turns k about  *)
(* the world axis i                                                          *)
DoStep(r, dp, i, k) ==
  /\ Emit("Step", [con |-> [c \in 1..6 |-> c \in r.con], ign |-> r.ign, dp |-> dp, i |-> i, k |-> k, axis |-> VecOut(AxisTab[i])],
          [jac |-> Jac(arm), e |-> PoseOut(EndP(arm)), n |-> Cardinality(Active(arm, r)), d |-> Cardinality(r.con), ig |-> SetToSeq(IgnSet(arm, r))])
  /\ known' = FALSE
  /\ UNCHANGED <<arm, geo, sol, pc, req, run, out>>
(* a target that the arm has at positions close by *)
DoNear(r, dq) ==
  /\ Emit("Near", [con |-> [c \in 1..6 |-> c \in r.con], ign |-> r.ign, dq |-> dq],
          [jac |-> Jac(arm), e |-> PoseOut(EndP(arm)), n |-> Cardinality(Active(arm, r)), d |-> Cardinality(r.con), ig |-> SetToSeq(IgnSet(arm, r))])
  /\ known' = FALSE
  /\ UNCHANGED <<arm, geo, sol, pc, req, run, out>>
(* any target *)
DoHard(r, dp, i, k) ==
  /\ Emit("Hard", [con |-> [c \in 1..6 |-> c \in r.con], ign |-> r.ign, dp |-> dp, i |-> i, k |-> k, axis |-> VecOut(AxisTab[i])],
          [jac |-> <<>>, e |-> PoseOut(EndP(arm)), n |-> Cardinality(Active(arm, r)), d |-> Cardinality(r.con), ig |-> SetToSeq(IgnSet(arm, r))])
  /\ known' = FALSE
  /\ UNCHANGED <<arm, geo, sol, pc, req, run, out>>

Answerable(r) == BadNames(arm, r) = {} /\ Cardinality(Active(arm, r)) >= Cardinality(r.con) /\ r.con # {}
Init == /\ arm = [nodes |-> <<>>, from |-> 1, how |-> "end"] /\ geo = [ac |-> <<>>, base |-> PId]
        /\ sol = [tolp |-> 40, tola |-> 40, den |-> 2, tries |-> 5, ns |-> <<>>]
        /\ known = FALSE /\ pc = "idle" /\ req = NoReq /\ run = NoRun /\ nst = 0 /\ hist = <<>> /\ out = NoOut

Idle ==
  /\ pc = "idle" /\ nst < MaxLen
  /\ IF nst = 0 THEN \E a \in IF Sim THEN {TLCEval(RandArm(0))} ELSE Arms : DoArm(a)
     ELSE IF nst = 1 THEN \E s \in IF Sim THEN {TLCEval(RandSol(Dof(arm)))} ELSE Sols(arm) : DoSolver(s)
     ELSE IF ~known THEN Sim /\ DoSetQ(RandQ(arm))
     ELSE IF Sim
     THEN \E op \in {RandIn(OpBag)} :
            CASE op = "Solve" -> \E r \in {TLCEval(RandReq(arm, geo))} : Begin(r)
              [] op = "Solver" -> DoSolver(TLCEval(RandSol(Dof(arm))))
              [] op = "SetQ" -> DoSetQ(RandQ(arm))
              [] op \in {"Step", "Near", "Hard"} ->
                   \E r \in {TLCEval(RandReq(arm, geo))} :
                     IF ~Answerable(r) THEN DoSetQ(RandQ(arm))
                     ELSE IF op = "Near" THEN DoNear(r, TLCEval([k \in 1..Dof(arm) |-> TLCEval(RandomElement(-10..10))]))
                     ELSE LET dp == TLCEval([c \in 1..3 |-> TLCEval(RandomElement(-3..3))]) i == RandomElement(1..3) k == RandomElement({-1, 0, 0, 1}) IN
                          IF op = "Step" THEN DoStep(r, dp, i, k) ELSE DoHard(r, dp, i, k)
     ELSE \E r \in Reqs(arm) : Begin(r)
Next == Idle \/ Iterate \/ Finish
Spec == Init /\ [][Next]_vars
View == <<arm, sol, known, pc, req, run, nst>>

------------------------------------------------------------------------------
(* What the model guarantees: checked by TLC in every state it visits       *)
Finished == pc = "finish" /\ run.exact
InvOk ==                                                              \* C13
  (Finished /\ run.res = "ok") =>
     LET e == TLCEval(ErrSeq(run, req, run.q)) IN
     /\ Within(sol.tolp, Sq(e, req.con \cap 1..3)) /\ Within(sol.tola, Sq(e, req.con \cap 4..6))
     /\ \A k \in DOMAIN run.q : InLim(run.lim[k], run.q[k])
InvRestored ==                                                        \* C14
  (pc = "idle" /\ out.k \notin {"", "ok", "any", "none"} /\ known /\ hist # <<>> /\ Last(hist).op = "Solve") => Positions(arm) = run.q0
Solving == pc \in {"iterate", "finish"}
InvTries == Solving => run.it <= sol.tries                                       \* C15
InvKind ==                                                            \* C15: exactly one reason
  (pc = "idle" /\ out.k = "pre") => out.n < out.d
InvIgnored ==                                                         \* C16
  (Solving /\ run.ac # <<>>) => \A k \in DOMAIN run.q : (k \notin run.act /\ InLim(run.lim[k], run.q0[k])) => run.q[k] = run.q0[k]
(* C17: an iteration that is not clamped takes off 1/den of the error in every *)
(* constrained coordinate that something acts on, whatever the null space does *)
Unclamped(p, q, mv) == \A k \in p.act : InLim(p.lim[k], q[k] + mv[k][1] \div mv[k][2])
InvProgress ==
  (Solving /\ run.it > 0 /\ run.exact) =>
     LET before == IF run.it = 1 THEN run.q0 ELSE run.its[run.it - 1]
         mv == TLCEval(Move(run, sol, req, before))
         e0 == TLCEval(ErrSeq(run, req, before))
         e1 == TLCEval(ErrSeq(run, req, run.its[run.it]))
     IN Unclamped(run, before, mv) /\ (\A k \in DOMAIN before : InLim(run.lim[k], before[k])) =>
        \A c \in req.con : run.by[c] # {} => sol.den * e1[c] = (sol.den - 1) * e0[c]
(* C17: without a null-space function the move is the shortest one: joints   *)
(* on the same coordinate share it, the others stay                          *)
InvLeast ==
  (Solving /\ run.it > 0 /\ run.exact /\ sol.ns = <<>>) =>
     LET before == IF run.it = 1 THEN run.q0 ELSE run.its[run.it - 1]
         mv == TLCEval(Move(run, sol, req, before))
     IN \A k \in run.act : IF run.ac[k][1] \notin req.con THEN mv[k][1] = 0
                           ELSE \A x \in run.by[run.ac[k][1]] : run.ac[k][2] * mv[k][1] = run.ac[x][2] * mv[x][1]
=============================================================================
