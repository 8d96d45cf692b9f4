------------------------------- MODULE KUrdf -------------------------------
(***************************************************************************)
(* Loading URDF documents.                                                 *)
(*                                                                         *)
(* State: one document (links and joints in document order) that is edited *)
(* step by step: elements are moved, added, removed, renamed or given      *)
(* other parameters.  After every edit the document is loaded, and the     *)
(* step is printed with the tree, the parameters and the maps that the     *)
(* library has to come up with.                                            *)
(*                                                                         *)
(* The expected result is defined twice: declaratively (what the tree of a *)
(* document is, Tree) and as the library's procedure (LoadAlg, a fold over *)
(* joints, links, mimics and roots in document order).  TLC checks that    *)
(* they agree, and that moving elements changes nothing but the order of   *)
(* siblings.                                                               *)
(*                                                                         *)
(* Units: lengths 1/2, angles quarter turns, limits 1/10000, mimic         *)
(* coefficients 1/4, everything else 1/8.                                  *)
(***************************************************************************)
EXTENDS Kin, FiniteSets, SequencesExt, Json

CONSTANTS Sim, MaxLinks, MaxLen, JNames, LNames, Edits, Docs

VARIABLES doc, prev, nst, hist
vars == <<doc, prev, nst, hist>>

Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Roll(p) == RandomElement(1..100) <= p
RandIn(s) == s[RandomElement(1..Len(s))]

------------------------------------------------------------------------------
(* Documents: [links |-> seq of links, joints |-> seq of joints]            *)
JTypes == <<"revolute", "continuous", "prismatic", "fixed", "floating", "planar">>
Axes == << <<1,0,0>>, <<0,1,0>>, <<0,0,1>>, <<0,0,-1>>, <<0,-1,0>>, <<0,0,2>>, <<-3,0,0>>, <<1,2,2>>, <<3,0,4>>, <<0,-6,8>>, <<-2,3,6>> >>
Norms == <<1, 1, 1, 1, 1, 2, 3, 3, 5, 10, 7>>
Lims == << <<0, 0>>, <<-10000, 10000>>, <<0, 1>>, <<5000, 5000>>, <<-3, -3>>, <<0, 20000>>, <<-20000, 0>>, <<-7, 7>>, <<-15000, 2500>>, <<100, 30000>> >>

LinkNamed(d, nm) == d.links[CHOOSE i \in 1..Len(d.links) : d.links[i].nm = nm]
JointOf(d, ln) == {i \in 1..Len(d.joints) : d.joints[i].chi = ln}          \* joints whose child link is ln
IsRootLink(d, ln) == JointOf(d, ln) = {}
JIndex(d, jn) == CHOOSE i \in 1..Len(d.joints) : d.joints[i].nm = jn
RECURSIVE MimicUp(_, _, _)
MimicUp(d, jn, seen) == IF jn \in seen THEN {jn} \cup seen
  ELSE LET m == d.joints[JIndex(d, jn)].mim IN
       IF m = <<>> THEN seen \cup {jn} ELSE MimicUp(d, m[1].j, seen \cup {jn})
RECURSIVE LinkUp(_, _, _)
LinkUp(d, ln, k) == IF k = 0 \/ IsRootLink(d, ln) THEN ln
  ELSE LinkUp(d, d.joints[CHOOSE i \in JointOf(d, ln) : TRUE].par, k - 1)
WellFormed(d) ==
  /\ Cardinality({d.links[i].nm : i \in 1..Len(d.links)}) = Len(d.links)
  /\ Cardinality({d.joints[i].nm : i \in 1..Len(d.joints)}) = Len(d.joints)
  /\ \A i \in 1..Len(d.joints) : d.joints[i].nm # "root"
  /\ \A i \in 1..Len(d.links) : Cardinality(JointOf(d, d.links[i].nm)) <= 1
  /\ Cardinality({i \in 1..Len(d.links) : IsRootLink(d, d.links[i].nm)}) = 1
  /\ \A i \in 1..Len(d.joints) : {d.joints[i].par, d.joints[i].chi} \subseteq {d.links[q].nm : q \in 1..Len(d.links)}
  /\ \A i \in 1..Len(d.links) : IsRootLink(d, LinkUp(d, d.links[i].nm, Len(d.links)))
RootLink(d) == d.links[CHOOSE i \in 1..Len(d.links) : IsRootLink(d, d.links[i].nm)].nm

------------------------------------------------------------------------------
(* What the tree of a document is.  Nodes are joints; "root" is one more.   *)
NodeOfLink(d, ln) == IF IsRootLink(d, ln) THEN "root" ELSE d.joints[CHOOSE i \in JointOf(d, ln) : TRUE].nm
LinkOfNode(d, jn) == IF jn = "root" THEN RootLink(d) ELSE d.joints[JIndex(d, jn)].chi
KidsOf(d, jn) == LET s == SelectSeq(d.joints, LAMBDA j : j.par = LinkOfNode(d, jn)) IN [i \in 1..Len(s) |-> s[i].nm]
ParOf(d, jn) == IF jn = "root" THEN "" ELSE NodeOfLink(d, d.joints[JIndex(d, jn)].par)
NodeNames(d) == {"root"} \cup {d.joints[i].nm : i \in 1..Len(d.joints)}
Tree(d) == [jn \in NodeNames(d) |-> [par |-> ParOf(d, jn), kids |-> KidsOf(d, jn), lk |-> LinkOfNode(d, jn),
               mim |-> IF jn = "root" \/ d.joints[JIndex(d, jn)].mim = <<>> THEN "" ELSE d.joints[JIndex(d, jn)].mim[1].j]]

(* The order in which a chain lists them: depth first, last child first     *)
RECURSIVE Dfs(_, _)
Dfs(t, jn) == <<jn>> \o FlattenSeq([k \in 1..Len(t[jn].kids) |-> Dfs(t, t[jn].kids[Len(t[jn].kids) + 1 - k])])

------------------------------------------------------------------------------
(* The library's procedure: connect below each link's node the joints that  *)
(* have it as parent, in the order of links; then what has no parent goes   *)
(* below the root node, in the order of joints.                             *)
Empty(d) == [jn \in NodeNames(d) |-> [par |-> "", kids |-> <<>>, lk |-> "", mim |-> ""]]
Put(t, jn, p) == [t EXCEPT ![jn].par = p, ![p].kids = Append(@, jn)]
RECURSIVE PutAll(_, _, _, _)
PutAll(t, js, p, k) == IF k > Len(js) THEN t ELSE PutAll(Put(t, js[k].nm, p), js, p, k + 1)
RECURSIVE ByLinks(_, _, _), ByMimics(_, _, _), ByRoots(_, _, _)
ByLinks(d, t, k) == IF k > Len(d.links) THEN t
  ELSE LET ln == d.links[k].nm
           own == JointOf(d, ln)
           at == IF own = {} THEN "root" ELSE d.joints[CHOOSE i \in own : TRUE].nm
           u == IF own = {} THEN t ELSE PutAll(t, SelectSeq(d.joints, LAMBDA j : j.par = ln), at, 1)
       IN ByLinks(d, [u EXCEPT ![at].lk = ln], k + 1)
ByMimics(d, t, k) == IF k > Len(d.joints) THEN t
  ELSE ByMimics(d, IF d.joints[k].mim = <<>> THEN t ELSE [t EXCEPT ![d.joints[k].nm].mim = d.joints[k].mim[1].j], k + 1)
ByRoots(d, t, k) == IF k > Len(d.joints) THEN t
  ELSE ByRoots(d, IF t[d.joints[k].nm].par = "" THEN Put(t, d.joints[k].nm, "root") ELSE t, k + 1)
LoadAlg(d) == ByRoots(d, ByMimics(d, ByLinks(d, Empty(d), 1), 1), 1)

------------------------------------------------------------------------------
(* Parameters                                                               *)
Rpy(r, p, y) == MM(AxisRot(3, y), MM(AxisRot(2, p), AxisRot(1, r)))
UPose(o) == IF o = <<>> THEN PId ELSE Pose(Rpy(o[4], o[5], o[6]), [d |-> 1, v |-> <<o[1], o[2], o[3]>>])
TypeOf(ty) == CASE ty \in {"revolute", "continuous"} -> "R" [] ty = "prismatic" -> "L" [] OTHER -> "F"
\* (a document whose lower limit is above the upper one is not well-formed)
LimOf(j) == LET lo == IF j.lim = <<>> \/ j.limw = "upper" THEN 0 ELSE j.lim[1]
                up == IF j.lim = <<>> \/ j.limw = "lower" THEN 0 ELSE j.lim[2]
            IN IF lo = up THEN <<>> ELSE <<lo, up>>
MimOf(m) == IF m = <<>> THEN <<>> ELSE << IF m[1].m = <<>> THEN 4 ELSE m[1].m[1], IF m[1].o = <<>> THEN 0 ELSE m[1].o[1] >>
GeoOf(g) == [k |-> g.k, v |-> IF g.k = "mesh" /\ g.v = <<>> THEN <<8, 8, 8>> ELSE g.v, f |-> g.f]
VisOf(v) == [nm |-> v.nm, org |-> PoseOut(UPose(v.org)), geo |-> GeoOf(v.geo), mat |-> v.mat]
ColOf(v) == [nm |-> v.nm, org |-> PoseOut(UPose(v.org)), geo |-> GeoOf(v.geo)]
LinkOut(l) == [nm |-> l.nm, inr |-> IF l.inr = <<>> THEN <<>> ELSE
                  << [mass |-> l.inr[1].mass, org |-> PoseOut(UPose(l.inr[1].org)),
                      m |-> LET i == l.inr[1].i IN <<i[1], i[2], i[3], i[2], i[4], i[5], i[3], i[5], i[6]>>] >>,
               vis |-> [k \in 1..Len(l.vis) |-> VisOf(l.vis[k])],
               col |-> [k \in 1..Len(l.col) |-> ColOf(l.col[k])]]
NodeOut(d, t, jn) ==
  [nm |-> jn, par |-> t[jn].par, kids |-> t[jn].kids, lk |-> LinkOut(LinkNamed(d, t[jn].lk)), mim |-> t[jn].mim,
   j |-> IF jn = "root" THEN <<>> ELSE LET j == d.joints[JIndex(d, jn)] IN
         << [ty |-> TypeOf(j.ty),
             ax |-> IF j.ax = 0 THEN <<1, <<1, 0, 0>>>> ELSE <<Norms[j.ax], Axes[j.ax]>>,
             lim |-> LimOf(j), org |-> PoseOut(UPose(j.org)), mc |-> MimOf(j.mim)] >>]
Expected(d) ==
  LET t == TLCEval(Tree(d))
      order == TLCEval(Dfs(t, "root"))
  IN [order |-> order,
      nodes |-> [k \in 1..Len(order) |-> NodeOut(d, t, order[k])],
      l2j |-> [k \in 1..Len(d.links) |-> <<d.links[k].nm, NodeOfLink(d, d.links[k].nm)>>],
      j2l |-> <<<<"root", RootLink(d)>>>> \o [k \in 1..Len(d.joints) |-> <<d.joints[k].nm, d.joints[k].chi>>]]

------------------------------------------------------------------------------
(* Random parts                                                             *)
Q == -2..3
RandPose(z) == IF Roll(25) THEN <<>> ELSE
  << RandomElement(Q), RandomElement(Q), RandomElement(Q),
     RandomElement(0..3), RandomElement(0..3), RandomElement(0..3) >>
RandGeo(z) ==
  LET k == RandIn(<<"box", "cylinder", "capsule", "sphere", "mesh">>)
      n == CASE k \in {"box"} -> 3 [] k \in {"cylinder", "capsule"} -> 2 [] k = "sphere" -> 1
             [] k = "mesh" -> IF Roll(50) THEN 3 ELSE 0
  IN [k |-> k, v |-> [i \in 1..n |-> TLCEval(RandomElement(1..40))], f |-> IF k = "mesh" THEN RandIn(<<"a.dae", "b.stl", "dir/c.obj">>) ELSE ""]
RandMat(z) == IF Roll(40) THEN <<>> ELSE
  << [nm |-> RandIn(<<"red", "blue", "">>),
      c |-> IF Roll(70) THEN << TLCEval([i \in 1..4 |-> TLCEval(RandomElement(0..8))]) >> ELSE <<>>,
      t |-> IF Roll(50) THEN << RandIn(<<"t.png", "u.jpg">>) >> ELSE <<>>] >>
RandVis(z) == LET g == TLCEval(RandGeo(0)) o == TLCEval(RandPose(0)) m == TLCEval(RandMat(0)) IN
  [nm |-> RandIn(<<"", "va", "vb">>), org |-> o, geo |-> g, mat |-> m]
RandCol(z) == LET g == TLCEval(RandGeo(0)) o == TLCEval(RandPose(0)) IN
  [nm |-> RandIn(<<"", "ca", "cb">>), org |-> o, geo |-> g]
RandInr(z) == IF Roll(30) THEN <<>> ELSE
  LET o == TLCEval(RandPose(0)) IN
  << [mass |-> RandomElement(0..50), org |-> o, i |-> TLCEval([k \in 1..6 |-> TLCEval(RandomElement(-40..40))])] >>
RandLink(nm) ==
  LET i == TLCEval(RandInr(0))
      v == TLCEval([k \in 1..RandomElement(0..2) |-> TLCEval(RandVis(0))])
      c == TLCEval([k \in 1..RandomElement(0..2) |-> TLCEval(RandCol(0))])
  IN [nm |-> nm, inr |-> i, vis |-> v, col |-> c]
(* which of the two limits a document may leave out (0 is its default)     *)
LimWs(l) == <<"both", "both", "both">> \o (IF l[1] <= 0 THEN <<"lower">> ELSE <<>>) \o (IF l[2] >= 0 THEN <<"upper">> ELSE <<>>)
RandJoint(nm, par, chi) ==
  LET o == TLCEval(RandPose(0)) IN
  LET l == TLCEval(IF Roll(25) THEN <<>> ELSE RandIn(Lims)) IN
  [nm |-> nm, ty |-> RandIn(JTypes), par |-> par, chi |-> chi,
   ax |-> RandomElement(0..Len(Axes)), lim |-> l,
   limw |-> IF l = <<>> THEN "both" ELSE RandIn(LimWs(l)), org |-> o, mim |-> <<>>]
MimTo(j) == << [j |-> j, m |-> IF Roll(30) THEN <<>> ELSE <<RandomElement(-8..8)>>, o |-> IF Roll(30) THEN <<>> ELSE <<RandomElement(-8..8)>>] >>

Used(d) == {d.links[i].nm : i \in 1..Len(d.links)}
UsedJ(d) == {d.joints[i].nm : i \in 1..Len(d.joints)}
MoveTo(s, a, b) == InsertAt(RemoveAt(s, a), b, s[a])

(* Add a leaf anywhere in the document *)
AddLeaf(d) ==
  LET ln == RandomElement(LNames \ Used(d))
      jn == RandomElement(JNames \ UsedJ(d))
      l == TLCEval(RandLink(ln))
      j == TLCEval(RandJoint(jn, RandomElement(Used(d)), ln))
  IN [links |-> InsertAt(d.links, RandomElement(1..(Len(d.links) + 1)), l),
      joints |-> InsertAt(d.joints, RandomElement(1..(Len(d.joints) + 1)), j)]
(* Add a new root link above the old one *)
AddTop(d) ==
  LET ln == RandomElement(LNames \ Used(d))
      jn == RandomElement(JNames \ UsedJ(d))
      l == TLCEval(RandLink(ln))
      j == TLCEval(RandJoint(jn, ln, RootLink(d)))
  IN [links |-> InsertAt(d.links, RandomElement(1..(Len(d.links) + 1)), l),
      joints |-> InsertAt(d.joints, RandomElement(1..(Len(d.joints) + 1)), j)]
(* Joints whose link is a leaf and which no joint mimics *)
Leaves(d) == {i \in 1..Len(d.joints) : /\ \A q \in 1..Len(d.joints) : d.joints[q].par # d.joints[i].chi
                                       /\ \A q \in 1..Len(d.joints) : d.joints[q].mim = <<>> \/ d.joints[q].mim[1].j # d.joints[i].nm}
DropLeaf(d, i) == [links |-> SelectSeq(d.links, LAMBDA l : l.nm # d.joints[i].chi), joints |-> RemoveAt(d.joints, i)]
CanMimic(d, i) == {s \in 1..Len(d.joints) : s # i /\ d.joints[i].nm \notin MimicUp(d, d.joints[s].nm, {})}
Rename(d, old, new) ==
  [d EXCEPT !.joints = [i \in 1..Len(d.joints) |->
     LET j == d.joints[i] IN [j EXCEPT !.nm = IF @ = old THEN new ELSE @,
                                       !.mim = IF @ # <<>> /\ @[1].j = old THEN <<[@[1] EXCEPT !.j = new]>> ELSE @]]]
RECURSIVE Grow(_, _)
Grow(d, k) == IF k = 0 THEN d ELSE Grow(TLCEval(IF Roll(85) THEN AddLeaf(d) ELSE AddTop(d)), k - 1)
RandDoc(z) == Grow([links |-> <<TLCEval(RandLink(RandomElement(LNames)))>>, joints |-> <<>>], RandomElement(0..(MaxLinks - 1)))

------------------------------------------------------------------------------
Emit(op, d) ==
  LET rec == TLCEval([op |-> op, a |-> <<d>>, r |-> Expected(d)]) IN
  /\ doc' = d
  /\ prev' = doc
  /\ nst' = nst + 1
  /\ hist' = IF Sim THEN <<>> ELSE Append(hist, op)
  /\ IF Sim THEN PrintT("@S" \o ToJson([k |-> nst, s |-> rec])) ELSE PrintT("@P" \o ToJson(<<rec>>))

Can(op) ==
  CASE op = "Load" -> nst = 0
    [] nst = 0 -> FALSE
    [] op = "AddLeaf" -> Len(doc.links) < MaxLinks
    [] op = "AddTop" -> Len(doc.links) < MaxLinks
    [] op = "DropLeaf" -> Leaves(doc) # {}
    [] op = "MoveLink" -> Len(doc.links) > 1
    [] op = "MoveJoint" -> Len(doc.joints) > 1
    [] op = "SetMimic" -> \E i \in 1..Len(doc.joints) : CanMimic(doc, i) # {}
    [] op = "NoMimic" -> \E i \in 1..Len(doc.joints) : doc.joints[i].mim # <<>>
    [] op = "Retype" -> doc.joints # <<>>
    [] op = "Relink" -> TRUE
    [] op = "Rename" -> doc.joints # <<>> /\ JNames \ UsedJ(doc) # {}
Act(op) ==
  CASE op = "Load" -> \E d \in {IF Sim THEN TLCEval(RandDoc(0)) ELSE doc} : Emit(op, d)
    [] op = "AddLeaf" -> \E d \in {TLCEval(AddLeaf(doc))} : Emit(op, d)
    [] op = "AddTop" -> \E d \in {TLCEval(AddTop(doc))} : Emit(op, d)
    [] op = "DropLeaf" -> \E i \in Pick(Leaves(doc)) : Emit(op, DropLeaf(doc, i))
    [] op = "MoveLink" -> \E a \in Pick(1..Len(doc.links)) : \E b \in Pick((1..Len(doc.links)) \ {a}) : Emit(op, [doc EXCEPT !.links = MoveTo(@, a, b)])
    [] op = "MoveJoint" -> \E a \in Pick(1..Len(doc.joints)) : \E b \in Pick((1..Len(doc.joints)) \ {a}) : Emit(op, [doc EXCEPT !.joints = MoveTo(@, a, b)])
    [] op = "SetMimic" -> \E i \in Pick({q \in 1..Len(doc.joints) : CanMimic(doc, q) # {}}) : \E s \in Pick(CanMimic(doc, i)) :
                            \E m \in {TLCEval(IF Sim THEN MimTo(doc.joints[s].nm) ELSE << [j |-> doc.joints[s].nm, m |-> <<2>>, o |-> <<1>>] >>)} :
                               Emit(op, [doc EXCEPT !.joints[i].mim = m])
    [] op = "NoMimic" -> \E i \in Pick({q \in 1..Len(doc.joints) : doc.joints[q].mim # <<>>}) : Emit(op, [doc EXCEPT !.joints[i].mim = <<>>])
    [] op = "Retype" -> \E i \in Pick(1..Len(doc.joints)) :
                          \E j \in {TLCEval([RandJoint(doc.joints[i].nm, doc.joints[i].par, doc.joints[i].chi) EXCEPT !.mim = doc.joints[i].mim])} :
                             Emit(op, [doc EXCEPT !.joints[i] = j])
    [] op = "Relink" -> \E i \in Pick(1..Len(doc.links)) : \E l \in {TLCEval(RandLink(doc.links[i].nm))} : Emit(op, [doc EXCEPT !.links[i] = l])
    [] op = "Rename" -> \E i \in Pick(1..Len(doc.joints)) : \E nm \in Pick(JNames \ UsedJ(doc)) : Emit(op, Rename(doc, doc.joints[i].nm, nm))

NoDoc == [links |-> <<[nm |-> "l", inr |-> <<>>, vis |-> <<>>, col |-> <<>>]>>, joints |-> <<>>]
Init == /\ nst = 0
        /\ hist = <<>>
        /\ IF Sim THEN doc = NoDoc ELSE doc \in Docs
        /\ prev = doc
EditBag == ToSet(Edits)
Next == /\ nst < MaxLen
        /\ IF nst = 0 THEN Act("Load")
           ELSE IF Sim THEN \E op \in {TLCEval(RandIn(SelectSeq(Edits, Can)))} : Act(op)
           ELSE \E op \in EditBag : Can(op) /\ Act(op)
Spec == Init /\ [][Next]_vars
View == <<doc, nst>>

------------------------------------------------------------------------------
InvWellFormed == WellFormed(doc)
InvLoad == LoadAlg(doc) = Tree(doc)                                            \* C18
InvCover == LET t == Tree(doc) IN ToSet(Dfs(t, "root")) = NodeNames(doc)      \* C18: exactly one node per joint, and root
            /\ Len(Dfs(t, "root")) = Len(doc.joints) + 1
InvMaps == LET e == Expected(doc) IN                                          \* C20
  /\ {<<e.l2j[k][2], e.l2j[k][1]>> : k \in 1..Len(e.l2j)} = ToSet(e.j2l)
  /\ Len(e.l2j) = Len(e.j2l)
Shape(d) == LET t == Tree(d) IN [jn \in NodeNames(d) |-> [t[jn] EXCEPT !.kids = ToSet(@)]]
(* moving elements only changes the order of siblings                      *)
InvOrder == (ToSet(doc.links) = ToSet(prev.links) /\ ToSet(doc.joints) = ToSet(prev.joints)) => Shape(doc) = Shape(prev)
=============================================================================
