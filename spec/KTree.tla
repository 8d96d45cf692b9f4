------------------------------- MODULE KTree -------------------------------
(***************************************************************************)
(* The kinematic tree library as a state machine.                          *)
(*                                                                         *)
(* State: a sequence of nodes (joint, link, place in the tree, place in    *)
(* the mimic graph, status of the cached world transform / velocity) and a *)
(* sequence of chains (lists of nodes).  One action per public call, each  *)
(* defined as an operator from the old nodes/chains to the new ones and    *)
(* the result of the call.  Every step is printed as one JSON line with    *)
(* its arguments, its result and the nodes it changed; the harness steps   *)
(* the real library through the same calls and compares.                   *)
(*                                                                         *)
(* Caches are modelled by a status, because the value of a valid cache is  *)
(* determined by the rest of the state:                                    *)
(*   "a"  the value must be absent                                         *)
(*   "f"  if there is a value, it is that of the current state, and        *)
(*        there is one right after the update that computes it             *)
(*   "l"  as "f", but nothing says whether there is a value                *)
(*   "s"  something above has changed since: the value is not looked at    *)
(*                                                                         *)
(* Named deviations of the library that the model follows: clamped and     *)
(* unchecked assignments go past the mimic graph; an assignment that fails *)
(* at a later joint leaves the earlier ones assigned (the harness accepts  *)
(* either); a change does not clear the caches of the nodes below.         *)
(***************************************************************************)
EXTENDS KOps

CONSTANTS
  Sim,      \* TRUE: pick arguments at random (tlc -simulate); FALSE: enumerate them
  Exact,    \* TRUE: positions are quarter turns / half units; FALSE: plain numbers (quarter units)
  OpBag,    \* sequence of operation names, repeated by weight
  MaxB,     \* nodes made by Build
  MaxN,     \* nodes at most
  MaxCh,    \* chains at most
  MaxLen,   \* steps at most
  TyBag,    \* sequence of joint types
  AxSet,    \* axes for new joints
  PosSet,   \* positions asked for
  LimBag,   \* sequence of limits: <<>> or <<lo, hi>>
  MimSet,   \* mimic coefficients <<multiplier, offset>>
  OffSet,   \* components of translations
  QuatSet,  \* origin rotations
  VelSet,   \* joint rates
  LinkPct,  \* percentage of nodes with a link
  MimPct,   \* percentage of nodes that mimic from the start
  LinePct,  \* percentage of nodes attached to the node before
  Starts    \* worlds to start from (enumeration mode)

VARIABLES nd, ch, last, nst, hist
vars == <<nd, ch, last, nst, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Roll(p) == RandomElement(1..100) <= p
RandIn(s) == s[RandomElement(1..Len(s))]

------------------------------------------------------------------------------
(* Random arguments *)
RandOrg(z) == IF QuatSet = {1} THEN << 1, RandomElement(OffSet), RandomElement(OffSet), RandomElement(OffSet) >>
           ELSE << IF Roll(40) THEN 1 ELSE RandomElement(QuatSet), RandomElement(OffSet), RandomElement(OffSet), RandomElement(OffSet) >>
(* The product of the denominators that the joints of one connected world   *)
(* can bring in is bounded, so that TLC's 32-bit integers suffice.         *)
Den(r) == (CASE r.ax \in {7, 8} /\ r.ty = "R" -> 9 [] r.ax \in {9, 10} /\ r.ty = "R" -> 25
             [] r.ax \in {7, 8} /\ r.ty = "L" -> 3 [] r.ax \in {9, 10} /\ r.ty = "L" -> 5 [] OTHER -> 1)
          * (CASE r.org[1] \in {11, 14} -> 5 [] r.org[1] = 12 -> 9 [] r.org[1] = 13 -> 3 [] OTHER -> 1)
MaxDen == 700
RECURSIVE DenFrom(_, _, _, _)
DenFrom(n, g, i, acc) == IF i > Len(n) \/ acc > MaxDen THEN acc
  ELSE DenFrom(n, g, i + 1, IF n[i].grp = g THEN acc * Den(n[i]) ELSE acc)
DenOf(n, g) == DenFrom(n, g, 1, 1)
Calm(n, g, most) == DenOf(n, g) * most > MaxDen
Coord(o) == IF o[1] \in ObliqueQuats THEN <<1 + (o[1] % 10), o[2], o[3], o[4]>> ELSE o
RandLink(z) == [nm |-> RandIn(<<"la", "la", "lb", "lb", "lc", "">>), mass |-> IF Roll(10) THEN 1500 ELSE RandomElement(0..3), i |-> Coord(RandOrg(0)),
             v |-> [k \in 1..RandomElement(0..2) |-> TLCEval(Coord(RandOrg(0)))],
             c |-> [k \in 1..RandomElement(0..2) |-> TLCEval(Coord(RandOrg(0)))]]
RandLk(z) == IF Roll(LinkPct) THEN << TLCEval(RandLink(0)) >> ELSE <<>>
RandNode(i, calm) ==
  LET ty == RandIn(TyBag)
      lk == RandLk(0)
  IN TLCEval([Blank EXCEPT !.nm = IF Roll(10) THEN "j1" ELSE "j" \o ToString(i),
        !.ty = ty,
        !.ax = IF calm THEN RandomElement(AxSet \cap CoordAxes) ELSE RandomElement(AxSet),
        !.lim = IF ty = "F" THEN <<>> ELSE RandIn(LimBag),
        !.vel = IF ty = "F" THEN 0 ELSE RandomElement(VelSet),
        !.org = IF calm THEN Coord(RandOrg(0)) ELSE RandOrg(0)])

(* TLCEval does not help inside records: bind the link once                *)
WithLink(r) == LET lk == TLCEval(RandLk(0)) IN TLCEval([r EXCEPT !.lk = lk, !.ls = LsOf(lk)])

RECURSIVE BuildNodes(_, _), BuildTree(_, _), BuildMim(_, _, _)
BuildNodes(n, k) == IF k = 0 THEN n
  ELSE BuildNodes(TLCEval(Append(n, WithLink(RandNode(Len(n) + 1, Calm(n, 0, 225))))), k - 1)
BuildTree(n, i) == IF i > Len(n) THEN n
  ELSE BuildTree(TLCEval(IF Roll(LinePct) THEN Attach(n, i, i - 1)
                 ELSE IF Roll(85) THEN Attach(n, i, RandomElement(1..(i-1))) ELSE n), i + 1)
BuildMim(n, i, up) == IF i > Len(n) THEN n
  ELSE BuildMim(TLCEval(
         LET cand == {s \in (IF up THEN (i+1)..Len(n) ELSE 1..(i-1)) : Movable(n, s) /\ (Exact => n[s].ty = n[i].ty)} IN
         IF Movable(n, i) /\ cand # {} /\ Roll(MimPct)
         THEN Mimics(n, i, RandomElement(cand), RandomElement(MimSet)) ELSE n), i + 1, up)
RandTree(z) ==
  LET a == TLCEval(BuildNodes(<<>>, RandomElement(2..MaxB)))
      b == TLCEval(BuildTree(a, 2))
  IN TLCEval(BuildMim(b, 1, Roll(50)))

------------------------------------------------------------------------------
(* Output *)
Out(r) == <<r.par, r.kids, r.mp, IF r.ty = "F" THEN "none" ELSE r.pos, r.tf, r.vl, r.org, r.lk, r.ls, IF r.dead THEN 1 ELSE 0>>
Static(r) == [nm |-> r.nm, ty |-> r.ty, ax |-> r.ax, lim |-> r.lim, vel |-> r.vel, mc |-> r.mc, grp |-> r.grp]
RECURSIVE Delta(_, _, _)
Delta(n, m, i) == IF i > Len(m) THEN <<>>
  ELSE (IF i <= Len(n) /\ n[i] = m[i] THEN <<>> ELSE << <<i, Out(m[i])>> >>) \o Delta(n, m, i + 1)
RECURSIVE NewNodes(_, _, _)
NewNodes(n, m, i) == IF i > Len(m) THEN <<>>
  ELSE (IF i <= Len(n) THEN <<>> ELSE << <<i, Static(m[i])>> >>) \o NewNodes(n, m, i + 1)
StepRec(op, a, x) == [op |-> op, a |-> a, r |-> x.r, d |-> Delta(nd, x.n, 1), nn |-> NewNodes(nd, x.n, 1)]

(* In enumeration mode the path to the state is printed with the step, so  *)
(* that every transition of the state graph becomes one test.              *)
Do(op, a, x) ==
  LET rec == TLCEval(StepRec(op, a, x)) IN
  /\ nd' = x.n
  /\ ch' = x.c
  /\ last' = [op |-> op, ok |-> op \in {"SetPos", "CSet"} /\ x.r = Ok,
              k |-> IF op \in {"SetPos", "CSet", "ChRoot", "Jac", "UpdT", "UpdV"} THEN a[1] ELSE 0,
              v |-> IF op = "CSet" THEN a[2] ELSE <<>>]
  /\ nst' = nst + 1
  /\ hist' = IF Sim THEN <<>> ELSE Append(hist, rec)
  /\ IF Sim THEN PrintT("@S" \o ToJson([k |-> nst, s |-> rec]))
     ELSE PrintT("@P" \o ToJson(Append(hist, rec)))

------------------------------------------------------------------------------
(* Enabled arguments *)
Alive == {i \in 1..Len(nd) : ~nd[i].dead}
Chains == {k \in 1..Len(ch) : ch[k].live}
Full == {k \in Chains : ch[k].ns # <<>>}
Linear == {k \in Full : ch[k].kind \in {"end", "e2r"} /\ \A j \in 2..Len(ch[k].ns) : nd[ch[k].ns[j]].par = ch[k].ns[j-1]}
CanClone == {k \in Full : Rooted(nd, ch[k].ns) /\ Len(nd) + Len(ch[k].ns) <= MaxN}
CanDrop == {k \in Full : ch[k].kind # "nodes" /\ Closed(nd, ch[k].ns)}
CanCopy == {i \in Alive : ~Calm(nd, nd[i].grp, Den(nd[i]))}
Room == Len(nd) < MaxN
RoomC == Len(ch) < MaxCh
NoMimics == \A i \in Alive : nd[i].mp = 0

Same(i, j) == nd[i].grp = nd[j].grp
ParentsFor(i) == {p \in Alive : Same(i, p) /\ p \notin Sub(nd, i)}
SourcesFor(i) == {s \in Alive : s # i /\ Same(i, s) /\ Movable(nd, s) /\ (Exact => nd[s].ty = nd[i].ty)
                                 /\ i \notin Sources(nd, s)}

Enabled(op) ==
  CASE op = "Build" -> nd = <<>>
    [] nd = <<>> -> FALSE
    [] op = "New" -> Room
    [] op = "JVel" -> Room /\ CanCopy # {}
    [] op \in {"SetPos", "SetPosC", "SetPosU", "SetOrg", "SetLink", "IterA", "IterD"} -> TRUE
    [] op = "RmParent" -> Alive # {}
    [] op = "SetParent" -> \E i \in Alive : ParentsFor(i) # {}
    [] op = "SetMimic" -> \E i \in Alive : Movable(nd, i) /\ SourcesFor(i) # {}
    [] op = "Relink" -> \E i \in Alive : nd[i].lk # <<>>
    [] op \in {"ChRoot", "ChEnd", "ChE2R", "ChNodes"} -> RoomC
    [] op \in {"CSet", "CSetC", "CSetU", "UpdT", "UpdV", "UpdL", "CoM", "Find", "Print", "TryNew"} -> Chains # {}
    [] op = "CSetOrg" -> Full # {}
    [] op \in {"EndTf", "Jac"} -> Linear # {}
    [] op = "Clone" -> RoomC /\ CanClone # {}
    [] op = "DropX" -> NoMimics /\ CanDrop # {}

PosFor == PosSet
(* Only joints that refuse or ignore it are asked for NaN.                 *)
Deaf(i) == nd[i].ty = "F" \/ nd[i].lim # <<>> \/ nd[i].mp # 0
Sane(i, v) == IF v = NaN /\ ~Deaf(i) THEN 0 ELSE v
SaneVec(mv, v) == IF NaN \in PosSet THEN [j \in 1..Len(v) |-> IF j > Len(mv) THEN v[j] ELSE Sane(mv[j], v[j])] ELSE v
NumVec(v) == IF NaN \in PosSet THEN [j \in 1..Len(v) |-> IF v[j] = NaN THEN 0 ELSE v[j]] ELSE v
VecsFor(mv) ==
  IF Sim THEN { TLCEval([j \in 1..(IF Roll(92) THEN Len(mv) ELSE RandomElement(0..(Len(mv) + 1))) |-> TLCEval(RandomElement(PosSet))]) }
  ELSE UNION {[1..l -> PosSet] : l \in {Len(mv), Len(mv) + 1} \cup (IF Len(mv) > 0 THEN {Len(mv) - 1} ELSE {})}
OrgsFor == IF Sim THEN {TLCEval(IF \E i \in 1..Len(nd) : Calm(nd, nd[i].grp, 9) THEN Coord(RandOrg(0)) ELSE RandOrg(0))}
           ELSE {<<q, t, 0, 0>> : q \in QuatSet, t \in OffSet}
LksFor == IF Sim THEN {TLCEval(RandLk(0))}
          ELSE {<<>>, <<[nm |-> "la", mass |-> 1, i |-> <<1, 1, 0, 0>>, v |-> << <<2, 0, 1, 0>> >>, c |-> <<>>]>>}
Elems(lk) == {<<"i">>} \cup {<<"v", k>> : k \in 1..Len(lk.v)} \cup {<<"c", k>> : k \in 1..Len(lk.c)}
RECURSIVE RandSeq(_, _)
RandSeq(S, k) == IF k = 0 \/ S = {} THEN <<>>
                 ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o RandSeq(S \ {x}, k - 1)
NodesSeqs == IF Sim THEN {TLCEval(RandSeq(Alive, RandomElement(0..Cardinality(Alive))))}
             ELSE {s \in UNION {[1..l -> Alive] : l \in 0..3} : Cardinality(ToSet(s)) = Len(s)}

Act(op) ==
  CASE op = "Build" -> \E t \in {TLCEval(RandTree(0))} : Do(op, <<Exact>>, R(t, ch, Ok))
    [] op = "New" -> \E r \in {TLCEval(WithLink(RandNode(Len(nd) + 1, Calm(nd, 0, 225))))} : Do(op, <<>>, R(Append(nd, r), ch, Ok))
    [] op = "SetPos" -> \E i \in Pick(Alive) : \E v \in {Sane(i, x) : x \in Pick(PosFor)} : Do(op, <<i, v>>, DoSetPos(nd, ch, i, v))
    [] op = "SetPosC" -> \E i \in Pick(Alive), v \in Pick(PosFor \ {NaN}) : Do(op, <<i, v>>, DoSetPosC(nd, ch, i, v))
    [] op = "SetPosU" -> \E i \in Pick(Alive), v \in Pick(PosFor \ {NaN}) : Do(op, <<i, v>>, DoSetPosU(nd, ch, i, v))
    [] op = "CSet" -> \E k \in Pick(Chains) : \E v \in {SaneVec(ch[k].mov, x) : x \in VecsFor(ch[k].mov)} : Do(op, <<k, v>>, DoCSet(nd, ch, k, v))
    [] op = "CSetC" -> \E k \in Pick(Chains) : \E v \in {NumVec(x) : x \in VecsFor(ch[k].mov)} : Do(op, <<k, v>>, DoCSetC(nd, ch, k, v))
    [] op = "CSetU" -> \E k \in Pick(Chains) : \E v \in {NumVec(x) : x \in VecsFor(ch[k].mov)} : Do(op, <<k, v>>, DoCSetU(nd, ch, k, v))
    [] op = "SetOrg" -> \E i \in Pick(Alive) : \E o \in OrgsFor : Do(op, <<i, o>>, DoSetOrg(nd, ch, i, o))
    [] op = "CSetOrg" -> \E k \in Pick(Full) : \E o \in OrgsFor : Do(op, <<k, o>>, DoSetOrg(nd, ch, ch[k].ns[1], o))
    [] op = "SetParent" -> \E i \in Pick({j \in Alive : ParentsFor(j) # {}}) : \E p \in Pick(ParentsFor(i)) : Do(op, <<i, p>>, DoSetParent(nd, ch, i, p))
    [] op = "RmParent" -> LET att == {j \in Alive : nd[j].par # 0} IN
                          \E i \in Pick(IF Sim /\ att # {} THEN att ELSE Alive) : \E p \in Pick(IF Sim /\ nd[i].par # 0 /\ Roll(80) THEN {nd[i].par} ELSE Alive) :
                             Do(op, <<i, p>>, DoRmParent(nd, ch, i, p))
    [] op = "SetMimic" -> \E i \in Pick({j \in Alive : Movable(nd, j) /\ SourcesFor(j) # {}}) : \E s \in Pick(SourcesFor(i)), m \in Pick(MimSet) : Do(op, <<i, s, m>>, DoSetMimic(nd, ch, i, s, m))
    [] op = "SetLink" -> \E i \in Pick(Alive) : \E lk \in LksFor : Do(op, <<i, lk>>, DoSetLink(nd, ch, i, lk))
    [] op = "Relink" -> \E i \in Pick({j \in Alive : nd[j].lk # <<>>}) : \E e \in Pick(Elems(nd[i].lk[1])) : \E o \in {Coord(x) : x \in OrgsFor} : Do(op, <<i, e, o>>, DoRelink(nd, ch, i, e, o))
    [] op = "ChRoot" -> \E i \in Pick(IF Sim /\ Roll(60) THEN {j \in Alive : nd[j].par = 0} ELSE Alive) : Do(op, <<i>>, DoChRoot(nd, ch, i))
    [] op = "ChEnd" -> \E i \in Pick(IF Sim /\ Roll(60) THEN {j \in Alive : nd[j].kids = <<>>} ELSE Alive) : Do(op, <<i>>, DoChEnd(nd, ch, i))
    [] op = "ChE2R" -> \E i \in Pick(Alive) : \E r \in Pick(IF Sim /\ Roll(80) THEN ToSet(Anc(nd, i)) ELSE Alive) : Do(op, <<i, r>>, DoChE2R(nd, ch, i, r))
    [] op = "ChNodes" -> \E s \in NodesSeqs : Do(op, <<s>>, DoChNodes(nd, ch, s))
    [] op = "UpdT" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoUpdT(nd, ch, k))
    [] op = "UpdV" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoUpdV(nd, ch, k))
    [] op = "UpdL" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoUpdL(nd, ch, k))
    [] op = "CoM" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoCoM(nd, ch, k))
    [] op = "EndTf" -> \E k \in Pick(Linear) : Do(op, <<k>>, DoEndTf(nd, ch, k))
    [] op = "Jac" -> \E k \in Pick(Linear) : Do(op, <<k>>, DoJac(nd, ch, k))
    [] op = "TryNew" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoTryNew(nd, ch, k))
    [] op = "Find" -> \E k \in Pick(Chains), nm \in Pick({nd[i].nm : i \in Alive} \cup {"none"}) : Do(op, <<k, nm>>, DoFind(nd, ch, k, nm))
    [] op = "Print" -> \E k \in Pick(Chains) : Do(op, <<k>>, DoPrint(nd, ch, k))
    [] op = "IterA" -> \E i \in Pick(Alive) : Do(op, <<i>>, DoIterA(nd, ch, i))
    [] op = "IterD" -> \E i \in Pick(Alive) : Do(op, <<i>>, DoIterD(nd, ch, i))
    [] op = "Clone" -> \E k \in Pick(CanClone) : Do(op, <<k>>, DoClone(nd, ch, k))
    [] op = "JVel" -> \E i \in Pick(CanCopy), v \in Pick(VelSet) : Do(op, <<i, v>>, DoJVel(nd, ch, i, v))
    [] op = "DropX" -> \E k \in Pick(CanDrop) : Do(op, <<k>>, DoDropX(nd, ch, k))

Init == /\ last = [op |-> "", ok |-> FALSE, k |-> 0, v |-> <<>>]
        /\ nst = 0
        /\ IF Sim THEN nd = <<>> /\ ch = <<>> /\ hist = <<>>
           ELSE \E w \in Starts :
                  /\ nd = w
                  /\ ch = <<>>
                  /\ hist = << [op |-> "Build", a |-> <<Exact>>, r |-> Ok,
                                d |-> [i \in 1..Len(w) |-> <<i, Out(w[i])>>],
                                nn |-> [i \in 1..Len(w) |-> <<i, Static(w[i])>>]] >>

Bag == ToSet(OpBag)
Next == /\ nst < MaxLen
        /\ IF Sim
           THEN IF nd = <<>> THEN Act("Build")
                ELSE \E op \in {TLCEval(RandIn(SelectSeq(OpBag, Enabled)))} : Act(op)
           ELSE \E op \in Bag : Enabled(op) /\ Act(op)
Spec == Init /\ [][Next]_vars

View == <<nd, ch, nst>>          \* the history does not make states different

------------------------------------------------------------------------------
(* What the model guarantees: checked by TLC in every state it visits      *)
InvParentKids ==                                                     \* C07
  \A i \in 1..Len(nd) :
    /\ \A p \in 1..Len(nd) : nd[p].dead \/
         Cardinality({k \in 1..Len(nd[p].kids) : nd[p].kids[k] = i}) = (IF nd[i].par = p THEN 1 ELSE 0)
    /\ i \notin (Sub(nd, i) \ {i}) /\ ~\E k \in 1..Len(nd[i].kids) : nd[i].kids[k] = i
InvLimits ==                                                         \* C03
  \A i \in 1..Len(nd) : nd[i].sure => InRange(nd[i], nd[i].pos)
InvMimicGraph ==                                                     \* C05
  \A i \in 1..Len(nd) : /\ i \notin Sources(nd, i)
    /\ \A s \in 1..Len(nd) : Cardinality({k \in 1..Len(nd[s].mk) : nd[s].mk[k] = i}) = (IF nd[i].mp = s THEN 1 ELSE 0)
Follows(i) == nd[i].pos = nd[i].mc[1] * nd[nd[i].mp].pos + nd[i].mc[2]
InvMimic ==                                                          \* C05
  (last.op = "SetPos" /\ last.ok /\ nd[last.k].mp = 0) =>
     \A i \in 1..Len(nd) : last.k \in Sources(nd, i) => Follows(i)
InvVector ==                                                         \* C04
  (last.op = "CSet" /\ last.ok) =>
     \A j \in 1..Len(last.v) : LET i == ch[last.k].mov[j] IN nd[i].mp = 0 => nd[i].pos = last.v[j]
InvChains ==                                                         \* C08
  \A k \in 1..Len(ch) :
    /\ ch[k].live => Cardinality(ToSet(ch[k].ns)) = Len(ch[k].ns)
    /\ (k = Len(ch) /\ last.op \in {"ChRoot", "ChEnd", "ChE2R", "Clone"}) =>
         \A j \in 2..Len(ch[k].ns) : \E q \in 1..(j-1) : ch[k].ns[q] = nd[ch[k].ns[j]].par
    /\ (k = Len(ch) /\ last.op = "ChRoot") => ToSet(ch[k].ns) = {i \in 1..Len(nd) : last.k \in ToSet(Anc(nd, i))}
InvClone ==                                                          \* C06
  \A i, j \in 1..Len(nd) :
    (nd[i].par = j \/ nd[i].mp = j \/ j \in ToSet(nd[i].kids) \/ j \in ToSet(nd[i].mk)) => nd[i].grp = nd[j].grp
InvJacobian ==                                                       \* C09
  last.op = "Jac" => LET k == last.k ns == ch[k].ns IN
     \A j \in 1..Len(ns) : Movable(nd, ns[j]) => JacCol(nd, ns, ns[j]) = GeoCol(nd, ns, j)
InvVelocity ==                                                       \* C10
  last.op = "UpdV" => \A i \in ToSet(ch[last.k].ns) :
     LET d == DFK(nd, i) IN GeoVel(nd, i) = [lin |-> d.dt, ang |-> AngVel(d)]
InvRotations == last.op = "UpdT" => \A i \in ToSet(ch[last.k].ns) : IsRot(FK(nd, i).r)
InvFresh ==                                                          \* C02: a valid cache holds the current pose
  \A i \in 1..Len(nd) : (~nd[i].dead /\ nd[i].tf = "f") => nd[i].gp = FK(nd, i)
=============================================================================
