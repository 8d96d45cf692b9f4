-------------------------------- MODULE KOps --------------------------------
(***************************************************************************)
(* What each public call of the tree library does, as a pure operator from *)
(* the nodes and chains before the call to those after it and its result.  *)
(* KTree takes one call at a time; KConc lets calls overlap.               *)
(*                                                                         *)
(* A node is a record (see Blank); a world is a sequence of nodes that     *)
(* refer to each other by index, 0 meaning none.                           *)
(***************************************************************************)
EXTENDS Kin, FiniteSets, SequencesExt, Json


Inf == 9999                         \* +-infinity as a limit or a request
NaN == 8888                         \* not a number, as a request
------------------------------------------------------------------------------
(* The tree *)
RECURSIVE DfsF(_, _), DfsR(_, _), Anc(_, _)
DfsF(n, i) == <<i>> \o FlattenSeq([k \in 1..Len(n[i].kids) |-> DfsF(n, n[i].kids[k])])
DfsR(n, i) == <<i>> \o FlattenSeq([k \in 1..Len(n[i].kids) |-> DfsR(n, n[i].kids[Len(n[i].kids) + 1 - k])])
Anc(n, i) == IF n[i].par = 0 THEN <<i>> ELSE <<i>> \o Anc(n, n[i].par)
Sub(n, i) == ToSet(DfsF(n, i))
IsRoot(n, i) == n[i].par = 0
Movable(n, i) == n[i].ty # "F"
RootOf(n, i) == LET a == Anc(n, i) IN a[Len(a)]
Mov(n, ns) == SelectSeq(ns, LAMBDA i : Movable(n, i))

(* Which joints a joint follows *)
RECURSIVE Sources(_, _)
Sources(n, i) == IF n[i].mp = 0 THEN {} ELSE {n[i].mp} \cup Sources(n, n[i].mp)

------------------------------------------------------------------------------
(* Caches *)
Old(s) == IF s \in {"f", "l"} THEN "s" ELSE s
OldSeq(s) == [i \in 1..Len(s) |-> Old(s[i])]
OldLs(r) == [i |-> Old(r.i), v |-> OldSeq(r.v), c |-> OldSeq(r.c)]
OldNode(r) == [r EXCEPT !.tf = Old(@), !.vl = Old(@), !.ls = OldLs(@)]
OldAll(n, S) == TLCEval([i \in 1..Len(n) |-> IF i \in S THEN OldNode(n[i]) ELSE n[i]])
(* joint i has changed: its own values are gone, those below are old       *)
Touch(n, i) == LET m == OldAll(n, Sub(n, i)) IN [m EXCEPT ![i].tf = "a", ![i].vl = "a"]

------------------------------------------------------------------------------
(* Kinematics *)
Local(r) == PMul(OrgPose(r.org), Motion(r.ty, r.ax, r.pos))
DLocal(r, v) == DMul(DConst(OrgPose(r.org)), DMotion(r.ty, r.ax, r.pos, v))
RECURSIVE FK(_, _), DFK(_, _)
FK(n, i) == TLCEval(IF n[i].par = 0 THEN Local(n[i]) ELSE PMul(TLCEval(FK(n, n[i].par)), TLCEval(Local(n[i]))))
DFK(n, i) == TLCEval(IF n[i].par = 0 THEN DLocal(n[i], n[i].vel) ELSE DMul(TLCEval(DFK(n, n[i].par)), TLCEval(DLocal(n[i], n[i].vel))))

RECURSIVE PoseFold(_, _, _, _)
PoseFold(n, ns, k, memo) ==
  IF k > Len(ns) THEN memo
  ELSE LET i == ns[k]
           p == n[i].par
           up == IF p = 0 THEN PId ELSE IF memo[p] # <<>> THEN memo[p] ELSE FK(n, p)
       IN PoseFold(n, ns, k + 1, TLCEval([memo EXCEPT ![i] = PMul(up, Local(n[i]))]))
PosesOf(n, ns) == PoseFold(n, ns, 1, [i \in 1..Len(n) |-> <<>>])

RECURSIVE DualFold(_, _, _, _)
DualFold(n, ns, k, memo) ==
  IF k > Len(ns) THEN memo
  ELSE LET i == ns[k]
           p == n[i].par
           up == IF p = 0 THEN DConst(PId) ELSE IF memo[p] # <<>> THEN memo[p] ELSE DFK(n, p)
       IN DualFold(n, ns, k + 1, TLCEval([memo EXCEPT ![i] = DMul(up, DLocal(n[i], n[i].vel))]))
DualsOf(n, ns) == DualFold(n, ns, 1, [i \in 1..Len(n) |-> <<>>])

(* The end of a serial chain when only the joint j moves, at unit rate     *)
RECURSIVE EndDual(_, _, _, _, _)
EndDual(n, ns, k, acc, j) ==
  IF k > Len(ns) THEN acc
  ELSE CHOOSE r \in {EndDual(n, ns, k + 1, a, j) : a \in {DMul(acc, DLocal(n[ns[k]], IF ns[k] = j THEN 1 ELSE 0))}} : TRUE
EndPose(n, ns) == EndDual(n, ns, 1, DConst(PId), 0).p
JacCol(n, ns, j) == LET e == EndDual(n, ns, 1, DConst(PId), j) IN [lin |-> e.dt, ang |-> AngVel(e)]

(* The same from the geometry, as the library computes it: checked to      *)
(* agree with the derivative in every state of the model (InvJacobian).    *)
RECURSIVE Prefix(_, _, _)
Prefix(n, ns, k) == IF k = 0 THEN PId ELSE TLCEval(PMul(TLCEval(Prefix(n, ns, k - 1)), TLCEval(Local(n[ns[k]]))))
GeoCol(n, ns, k) ==
  LET i == ns[k]
      t == TLCEval(Prefix(n, ns, k))
      a == MV(t.r, AxisTab[n[i].ax])
      e == TLCEval(Prefix(n, ns, Len(ns)).t)
  IN IF n[i].ty = "L" THEN [lin |-> VScale(2, a), ang |-> V0]
     ELSE [lin |-> Cross(a, VSub(e, t.t)), ang |-> a]
RECURSIVE GeoVel(_, _)
GeoVel(n, i) ==
  LET p == n[i].par
      pv == IF p = 0 THEN [lin |-> V0, ang |-> V0] ELSE TLCEval(GeoVel(n, p))
      pt == IF p = 0 THEN PId ELSE TLCEval(FK(n, p))
      t == TLCEval(FK(n, i))
      a == TLCEval(VScale(n[i].vel, MV(t.r, AxisTab[n[i].ax])))
      lin == VAdd(pv.lin, Cross(pv.ang, VSub(t.t, pt.t)))
  IN CASE n[i].ty = "F" -> [lin |-> lin, ang |-> pv.ang]
       [] n[i].ty = "R" -> [lin |-> lin, ang |-> VAdd(pv.ang, a)]
       [] n[i].ty = "L" -> [lin |-> VAdd(lin, VScale(2, a)), ang |-> pv.ang]

(* Mass-weighted mean of the inertial origins                              *)
RECURSIVE MassSum(_, _, _), MomentSum(_, _, _, _)
MassSum(n, ns, k) == IF k > Len(ns) THEN 0 ELSE
  (IF n[ns[k]].lk = <<>> THEN 0 ELSE n[ns[k]].lk[1].mass) + MassSum(n, ns, k + 1)
MomentSum(n, ns, k, poses) == IF k > Len(ns) THEN V0 ELSE
  VAdd(IF n[ns[k]].lk = <<>> THEN V0
       ELSE VScale(n[ns[k]].lk[1].mass, PMul(poses[ns[k]], OrgPose(n[ns[k]].lk[1].i)).t),
       MomentSum(n, ns, k + 1, poses))

------------------------------------------------------------------------------
(* Results: the call, its outcome, the new nodes and the new chains        *)
R(n, c, r) == [n |-> n, c |-> c, r |-> r]
Ok == <<"ok">>

InRange(j, v) == j.lim = <<>> \/ (v # NaN /\ j.lim[1] <= v /\ v <= j.lim[2])
Clamp(j, v) == IF j.lim = <<>> THEN v ELSE IF v < j.lim[1] THEN j.lim[1] ELSE IF v > j.lim[2] THEN j.lim[2] ELSE v

(* sure: the position is known to be within the limits                     *)
PosRaw(n, i, v, sure) ==
  IF n[i].ty = "F" THEN n
  ELSE LET m == IF n[i].pos = v THEN n ELSE Touch(n, i) IN [m EXCEPT ![i].pos = v, ![i].sure = sure]

JSet(n, i, v) ==
  IF n[i].ty = "F" THEN [n |-> n, r |-> <<"fixed", i>>]
  ELSE IF ~InRange(n[i], v) THEN [n |-> n, r |-> <<"limit", i, v>>]
  ELSE [n |-> PosRaw(n, i, v, TRUE), r |-> Ok]

(* Bound through sets of one element, TLC evaluates an argument once.      *)
Sole(S) == CHOOSE x \in S : TRUE
RECURSIVE PropKids(_, _, _, _)
PropKids(n, i, v, k) ==
  IF k > Len(n[i].mk) THEN [n |-> n, r |-> Ok]
  ELSE LET c == n[i].mk[k]
           cv == n[c].mc[1] * v + n[c].mc[2]
           a == JSet(n, c, cv)
       IN IF a.r # Ok THEN a
          ELSE LET b == Sole({PropKids(m, c, cv, 1) : m \in {a.n}}) IN
               IF b.r # Ok THEN b ELSE Sole({PropKids(m, i, v, k + 1) : m \in {b.n}})
NSet(n, i, v) ==
  IF n[i].mp # 0 THEN [n |-> n, r |-> Ok]
  ELSE LET a == JSet(n, i, v) IN IF a.r # Ok THEN a ELSE Sole({PropKids(m, i, v, 1) : m \in {a.n}})

RECURSIVE VecSet(_, _, _, _)
VecSet(n, mv, v, k) ==
  IF k > Len(mv) THEN [n |-> n, r |-> Ok]
  ELSE LET a == NSet(n, mv[k], v[k]) IN IF a.r # Ok THEN a ELSE Sole({VecSet(m, mv, v, k + 1) : m \in {a.n}})
RECURSIVE VecFold(_, _, _, _, _)
VecFold(n, mv, v, k, clamp) ==
  IF k > Len(mv) \/ k > Len(v) THEN n
  ELSE Sole({VecFold(m, mv, v, k + 1, clamp) : m \in {IF clamp THEN PosRaw(n, mv[k], Clamp(n[mv[k]], v[k]), TRUE)
                                                      ELSE PosRaw(n, mv[k], v[k], FALSE)}})

DoSetPos(n, c, i, v)  == LET a == NSet(n, i, v) IN R(a.n, c, a.r)
DoSetPosC(n, c, i, v) == R(PosRaw(n, i, Clamp(n[i], v), TRUE), c, Ok)
DoSetPosU(n, c, i, v) == R(PosRaw(n, i, v, FALSE), c, Ok)
DoCSet(n, c, k, v) ==
  LET mv == c[k].mov IN
  IF Len(v) # Len(mv) THEN R(n, c, <<"size", Len(v), Len(mv)>>)
  ELSE LET a == VecSet(n, mv, v, 1) IN R(a.n, c, a.r)
DoCSetC(n, c, k, v) == R(VecFold(n, c[k].mov, v, 1, TRUE), c, Ok)
DoCSetU(n, c, k, v) == R(VecFold(n, c[k].mov, v, 1, FALSE), c, Ok)

DoSetOrg(n, c, i, o) == R(IF n[i].org = o THEN n ELSE [Touch(n, i) EXCEPT ![i].org = o], c, Ok)

(* Attach and detach *)
Without(s, i) == SelectSeq(s, LAMBDA x : x # i)
Detach(n, i) == LET p == n[i].par IN
  IF p = 0 THEN n ELSE [OldAll(n, Sub(n, i)) EXCEPT ![i].par = 0, ![p].kids = Without(@, i)]
Attach(n, i, p) == [OldAll(n, Sub(n, i)) EXCEPT ![i].par = p, ![p].kids = Append(@, i)]
DoSetParent(n, c, i, p) == R(Attach(Detach(n, i), i, p), c, Ok)
(* detaching from what is not the parent does nothing *)
DoRmParent(n, c, i, p) == R(IF n[i].par = p THEN Detach(n, i) ELSE n, c, Ok)

(* Mimic graph *)
UnMimic(n, i) == IF n[i].mp = 0 THEN n
                 ELSE [n EXCEPT ![n[i].mp].mk = Without(@, i), ![i].mp = 0, ![i].mc = <<>>]
Mimics(n, i, s, m) == [n EXCEPT ![i].mp = s, ![i].mc = m, ![s].mk = Append(@, i)]
DoSetMimic(n, c, i, s, m) == R(Mimics(UnMimic(n, i), i, s, m), c, Ok)

(* Links *)
NoLs == [i |-> "a", v |-> <<>>, c |-> <<>>]
LsOf(lk) == IF lk = <<>> THEN NoLs
            ELSE [i |-> "a", v |-> [k \in 1..Len(lk[1].v) |-> "a"], c |-> [k \in 1..Len(lk[1].c) |-> "a"]]
DoSetLink(n, c, i, lk) == R([n EXCEPT ![i].lk = lk, ![i].ls = LsOf(lk)], c, Ok)
(* Replace the origin of one element of the link of i: e = <<"i">>,        *)
(* <<"v", k>> or <<"c", k>>                                                *)
DoRelink(n, c, i, e, o) ==
  R(CASE e[1] = "i" -> [n EXCEPT ![i].lk[1].i = o, ![i].ls.i = "a"]
      [] e[1] = "v" -> [n EXCEPT ![i].lk[1].v[e[2]] = o, ![i].ls.v[e[2]] = "a"]
      [] e[1] = "c" -> [n EXCEPT ![i].lk[1].c[e[2]] = o, ![i].ls.c[e[2]] = "a"], c, Ok)

(* Chains *)
MkChain(n, c, kind, ns) == Append(c, [kind |-> kind, ns |-> ns, mov |-> Mov(n, ns), live |-> TRUE])
DoChRoot(n, c, i) == LET ns == DfsR(n, i) IN R(n, MkChain(n, c, "root", ns), ns)
DoChEnd(n, c, i) == LET ns == Reverse(Anc(n, i)) IN R(n, MkChain(n, c, "end", ns), ns)
(* from the end i up to r, or to the tree root if r is not above i         *)
UpTo(n, i, r) == LET a == Anc(n, i) IN
  IF r \in ToSet(a) THEN SubSeq(a, 1, CHOOSE k \in 1..Len(a) : a[k] = r) ELSE a
DoChE2R(n, c, i, r) == LET ns == Reverse(UpTo(n, i, r)) IN R(n, MkChain(n, c, "e2r", ns), ns)
DoChNodes(n, c, ns) == R(n, MkChain(n, c, "nodes", ns), ns)

(* A node is serial if all but the last member have exactly one child      *)
IsSerial(n, ns) == \A k \in 1..(Len(ns) - 1) : Len(n[ns[k]].kids) = 1
DoTryNew(n, c, k) == R(n, c, IF IsSerial(n, c[k].ns) THEN <<"some">> ELSE <<"none">>)
DoFind(n, c, k, nm) ==
  LET hit == {j \in 1..Len(c[k].ns) : n[c[k].ns[j]].nm = nm} IN
  R(n, c, IF hit = {} THEN <<>> ELSE <<CHOOSE j \in hit : \A h \in hit : j <= h>>)
DoIterA(n, c, i) == R(n, c, Anc(n, i))
DoIterD(n, c, i) == R(n, c, DfsR(n, i))
DoEmpty(n, c) == R(n, c, <<>>)

(* A path of the tree that starts at the tree root                          *)
RootedPath(n, ns) == ns # <<>> /\ n[ns[1]].par = 0
Rooted(n, ns) == RootedPath(n, ns) /\ \A k \in 2..Len(ns) : \E j \in 1..(k-1) : ns[j] = n[ns[k]].par

(* Updates: whatever the caches say, the results are those of the present  *)
(* state, also for chains that start below the root of the tree            *)
Fresh(n, ns) == TLCEval([i \in 1..Len(n) |-> IF i \in ToSet(ns) THEN [n[i] EXCEPT !.tf = "f"] ELSE n[i]])
DoUpdT(n, c, k) ==
  LET ns == c[k].ns
      m == Fresh(n, ns)
      ps == PosesOf(n, ns)
      g == TLCEval([i \in 1..Len(m) |-> IF i \in ToSet(ns) THEN [m[i] EXCEPT !.gp = ps[i]] ELSE m[i]])
  IN R(g, c, [j \in 1..Len(ns) |-> PoseOut(ps[ns[j]])])

Relax(n, ns) == TLCEval([i \in 1..Len(n) |->      \* transforms are recomputed on the way
  IF i \in ToSet(ns) THEN [n[i] EXCEPT !.tf = IF @ # "f" THEN "l" ELSE "f"] ELSE n[i]])
DoUpdV(n, c, k) ==
  LET ns == c[k].ns
      rx == Relax(n, ns)
      ds == DualsOf(n, ns)
  IN R(TLCEval([i \in 1..Len(n) |-> IF i \in ToSet(ns) THEN [rx[i] EXCEPT !.vl = "f"] ELSE rx[i]]), c,
       [j \in 1..Len(ns) |-> <<VecOut(ds[ns[j]].dt), VecOut(AngVel(ds[ns[j]]))>>])
LsAll(ls, s) == [i |-> s, v |-> [k \in 1..Len(ls.v) |-> s], c |-> [k \in 1..Len(ls.c) |-> s]]
DoUpdL(n, c, k) ==
  LET ns == c[k].ns
      ps == PosesOf(n, ns)
      rx == Relax(n, ns)
      at(i, o) == PoseOut(PMul(ps[i], OrgPose(o)))
  IN R(TLCEval([i \in 1..Len(n) |-> IF i \in ToSet(ns) /\ n[i].lk # <<>>
                   THEN [rx[i] EXCEPT !.ls = LsAll(@, "f")] ELSE rx[i]]), c,
       [j \in 1..Len(ns) |-> LET i == ns[j] IN
          IF n[i].lk = <<>> THEN <<>>
          ELSE <<at(i, n[i].lk[1].i), [q \in 1..Len(n[i].lk[1].v) |-> at(i, n[i].lk[1].v[q])],
                 [q \in 1..Len(n[i].lk[1].c) |-> at(i, n[i].lk[1].c[q])]>>])
DoCoM(n, c, k) ==
  LET ns == c[k].ns
      tot == MassSum(n, ns, 1)
  IN R(Relax(n, ns), c,
       IF tot > 0 THEN VecOut(VDiv(MomentSum(n, ns, 1, PosesOf(n, ns)), tot)) ELSE <<>>)

(* Serial chains *)
Lax(n, ns) == TLCEval([i \in 1..Len(n) |->      \* may or may not cache
  IF i \in ToSet(ns) /\ n[i].tf = "a" THEN [n[i] EXCEPT !.tf = "l"] ELSE n[i]])
DoEndTf(n, c, k) == R(Lax(n, c[k].ns), c, PoseOut(EndPose(n, c[k].ns)))
DoJac(n, c, k) ==
  LET ns == c[k].ns mv == c[k].mov IN
  R(Lax(n, ns), c, [j \in 1..Len(mv) |->
      LET col == JacCol(n, ns, mv[j]) IN <<VecOut(col.lin), VecOut(col.ang)>>])

(* Printing: members in depth-first order of the child lists, with depth   *)
RECURSIVE Lines(_, _, _, _)
Lines(n, S, i, d) ==
  (IF i \in S THEN << <<d, i>> >> ELSE <<>>)
  \o FlattenSeq([k \in 1..Len(n[i].kids) |-> Lines(n, S, n[i].kids[k], d + 1)])
DoPrint(n, c, k) == R(n, c, IF c[k].ns = <<>> THEN <<>> ELSE Lines(n, ToSet(c[k].ns), c[k].ns[1], 0))

(* Clone of a chain that starts at a tree root and is closed under parents *)
CloneNode(n, ns, j, base, g) ==
  LET r == n[ns[j]]
      new(i) == IF \E q \in 1..Len(ns) : ns[q] = i THEN base + (CHOOSE q \in 1..Len(ns) : ns[q] = i) ELSE 0
      keep(s) == [q \in 1..Len(SelectSeq(s, LAMBDA i : new(i) # 0)) |-> new(SelectSeq(s, LAMBDA i : new(i) # 0)[q])]
  IN [r EXCEPT !.par = IF @ = 0 THEN 0 ELSE new(@), !.kids = keep(@),
               !.mp = IF @ = 0 THEN 0 ELSE new(@), !.mk = keep(@),
               !.mc = IF r.mp = 0 \/ new(r.mp) = 0 THEN <<>> ELSE @,
               !.tf = IF @ = "f" THEN "l" ELSE @, !.vl = IF @ = "f" THEN "l" ELSE @,
               !.ls = [i |-> IF @.i = "f" THEN "l" ELSE @.i,
                       v |-> [q \in 1..Len(@.v) |-> IF @.v[q] = "f" THEN "l" ELSE @.v[q]],
                       c |-> [q \in 1..Len(@.c) |-> IF @.c[q] = "f" THEN "l" ELSE @.c[q]]],
               !.grp = g]
DoClone(n, c, k) ==
  LET ns == c[k].ns
      base == Len(n)
      g == 1 + CHOOSE m \in {n[i].grp : i \in 1..Len(n)} : \A i \in 1..Len(n) : n[i].grp <= m
      new == TLCEval([j \in 1..Len(ns) |-> CloneNode(n, ns, j, base, g)])
      m == n \o new
  IN R(m, MkChain(m, c, c[k].kind, [j \in 1..Len(ns) |-> base + j]), [j \in 1..Len(ns) |-> base + j])

(* Copy the joint of i, give the copy another rate, and make a node of it  *)
DoJVel(n, c, i, v) ==
  LET r == n[i]
      new == [r EXCEPT !.par = 0, !.kids = <<>>, !.mp = 0, !.mc = <<>>, !.mk = <<>>, !.lk = <<>>, !.ls = NoLs,
                       !.vel = IF r.ty = "F" THEN @ ELSE v,
                       !.tf = IF @ = "a" THEN "a" ELSE "s",
                       !.vl = IF @ = "a" \/ r.ty # "F" THEN "a" ELSE "s"]
  IN R(Append(n, new), c, IF r.ty = "F" THEN <<"fixed", i>> ELSE Ok)

(* Forget every node handle and every chain but k; its members stay alive. *)
Closed(n, ns) == \A j \in 1..Len(ns) : ToSet(n[ns[j]].kids) \subseteq ToSet(ns)
DoDropX(n, c, k) ==
  LET S == ToSet(c[k].ns) IN
  R(TLCEval([i \in 1..Len(n) |-> IF i \notin S THEN [n[i] EXCEPT !.dead = TRUE]
       ELSE IF n[i].par # 0 /\ n[i].par \notin S
            THEN [OldNode(n[i]) EXCEPT !.par = 0] ELSE
            IF \A a \in ToSet(Anc(n, i)) : a \in S THEN n[i] ELSE OldNode(n[i])]),
    [j \in 1..Len(c) |-> [c[j] EXCEPT !.live = (j = k)]], Ok)

(* A node as it is made *)
Blank == [nm |-> "", ty |-> "F", ax |-> 1, lim |-> <<>>, vel |-> 0, org |-> OrgId, pos |-> 0, sure |-> FALSE,
          par |-> 0, kids |-> <<>>, mp |-> 0, mc |-> <<>>, mk |-> <<>>, lk |-> <<>>, ls |-> NoLs,
          tf |-> "a", vl |-> "a", gp |-> PId, grp |-> 0, dead |-> FALSE]

(* Worlds made by hand: nodes, their parents, and <<dependent, source, <<multiplier, offset>>>> *)
Nd(i, ty, ax, lim) == [Blank EXCEPT !.nm = "j" \o ToString(i), !.ty = ty, !.ax = ax, !.lim = lim]
RECURSIVE Attached(_, _, _), Mimicked(_, _, _)
Attached(n, pars, i) == IF i > Len(pars) THEN n
  ELSE Attached(IF pars[i] = 0 THEN n ELSE Attach(n, i, pars[i]), pars, i + 1)
Mimicked(n, mims, k) == IF k > Len(mims) THEN n
  ELSE Mimicked(Mimics(n, mims[k][1], mims[k][2], mims[k][3]), mims, k + 1)
World(nodes, pars, mims) == Mimicked(Attached(nodes, pars, 1), mims, 1)
WithLk(r, lk) == [r EXCEPT !.lk = lk, !.ls = LsOf(lk)]
NdV(i, ty, ax, org, v) == [Nd(i, ty, ax, <<>>) EXCEPT !.org = org, !.vel = v]
=============================================================================
