------------------------------- MODULE KData -------------------------------
(***************************************************************************)
(* The value types of the library, each used on its own: builders, joints, *)
(* link elements, ranges, mimics and the documents of IK constraints.      *)
(*                                                                         *)
(* State: one value under construction (and a copy kept aside).  Part      *)
(* selects which of the types it is.  Every call is an action that yields  *)
(* the new value and what must be readable afterwards; the harness makes   *)
(* the same calls on the library and reads everything back.                *)
(*                                                                         *)
(* Units: lengths 1/2, rotational positions quarter turns, everything else *)
(* 1/4.                                                                    *)
(***************************************************************************)
EXTENDS Kin, FiniteSets, SequencesExt, Json

CONSTANTS Sim, Part, MaxLen,
  Names,    \* names
  Orgs,     \* origins, drawn from <<quaternion, x, y, z>> (enumeration)
  Lims,     \* limits
  Nums      \* numbers for positions, masses, sizes

VARIABLES val, kept, nst, hist
vars == <<val, kept, nst, hist>>

Inf == 9999
NaN == 8888
Pick(S) == IF Sim THEN {RandomElement(S)} ELSE S
Roll(p) == RandomElement(1..100) <= p
SomeOrg == IF Sim THEN {TLCEval(<<RandomElement(1..Len(QuatTab)), RandomElement(-3..3), RandomElement(-3..3), RandomElement(-3..3)>>)} ELSE Orgs
SomeAxis == IF Sim THEN {TLCEval(RandomElement(1..Len(AxisTab)))} ELSE {3, 7}

------------------------------------------------------------------------------
(* Node builders: what was set last                                        *)
NodeNew == [nm |-> "", ty |-> "F", ax |-> 1, lim |-> <<>>, org |-> OrgId]
NodeOps == {"NNew", "NName", "NType", "NLim", "NOrg", "NTrans", "NRot", "NKeep", "NBack"}
NodeStep(op, a) ==
  CASE op = "NNew" -> NodeNew
    [] op = "NName" -> [val EXCEPT !.nm = a[1]]
    [] op = "NType" -> [val EXCEPT !.ty = a[1], !.ax = a[2]]
    [] op = "NLim" -> [val EXCEPT !.lim = a[1]]
    [] op = "NOrg" -> [val EXCEPT !.org = a[1]]
    [] op = "NTrans" -> [val EXCEPT !.org = <<@[1], a[1][2], a[1][3], a[1][4]>>]
    [] op = "NRot" -> [val EXCEPT !.org = <<a[1][1], @[2], @[3], @[4]>>]
    [] op = "NKeep" -> val
    [] op = "NBack" -> kept
NodeArgs(op) ==
  CASE op = "NName" -> {<<n>> : n \in Pick(Names)}
    [] op = "NType" -> {<<"F", 1>>} \cup {<<t, x>> : t \in {"R", "L"}, x \in SomeAxis}
    [] op = "NLim" -> {<<l>> : l \in Pick(Lims)}
    [] op \in {"NOrg", "NTrans", "NRot"} -> {<<o>> : o \in SomeOrg}
    [] OTHER -> {<<>>}
NodeOut(v) == [v EXCEPT !.ty = @] @@ [pose |-> PoseOut(OrgPose(v.org))]

------------------------------------------------------------------------------
(* Link builders                                                           *)
LinkNew == [nm |-> "", inr |-> [org |-> OrgId, mass |-> 0, i |-> <<1, 0, 0, 1, 0, 1>>], vis |-> <<>>, col |-> <<>>]
LinkOps == {"LName", "LInr", "LMass", "LVis", "LCol"}
Geom == {<<"box", 1, 2, 3>>, <<"cylinder", 2, 3, 0>>, <<"capsule", 3, 1, 0>>, <<"sphere", 2, 0, 0>>, <<"mesh", 1, 2, -1>>}
SomeGeom == IF Sim THEN {TLCEval(RandomElement(Geom))} ELSE {<<"box", 1, 2, 3>>}
SomeMat == IF Sim THEN {TLCEval(<<RandomElement(Names), RandomElement(0..4), RandomElement(0..4), RandomElement(0..4), RandomElement(0..4), RandomElement(Names)>>)}
           ELSE {<<"m", 1, 2, 3, 4, "t">>}
SomeI == IF Sim THEN {TLCEval([k \in 1..6 |-> RandomElement(-3..3)])} ELSE {<<1, 2, 3, 4, 5, 6>>}
LinkStep(op, a) ==
  CASE op = "LName" -> [val EXCEPT !.nm = a[1]]
    [] op = "LInr" -> [val EXCEPT !.inr = [org |-> a[1], mass |-> a[2], i |-> a[3]]]
    [] op = "LMass" -> [val EXCEPT !.inr = [org |-> OrgId, mass |-> a[1], i |-> <<1, 0, 0, 1, 0, 1>>]]
    [] op = "LVis" -> [val EXCEPT !.vis = Append(@, a)]
    [] op = "LCol" -> [val EXCEPT !.col = Append(@, a)]
LinkArgs(op) ==
  CASE op = "LName" -> {<<n>> : n \in Pick(Names)}
    [] op = "LInr" -> {<<o, m, i>> : o \in SomeOrg, m \in Pick(Nums), i \in SomeI}
    [] op = "LMass" -> {<<m>> : m \in Pick(Nums)}
    [] op = "LVis" -> {<<n, o, g, m>> : n \in Pick(Names), o \in SomeOrg, g \in SomeGeom, m \in SomeMat}
    [] op = "LCol" -> {<<n, o, g>> : n \in Pick(Names), o \in SomeOrg, g \in SomeGeom}

------------------------------------------------------------------------------
(* Joints that are in no tree                                              *)
JointStart == [ty |-> "F", ax |-> 1, lim |-> <<>>, org |-> OrgId, pos |-> 0, vel |-> 0, made |-> FALSE]
JointOps == {"JMake", "JPos", "JPosC", "JPosU", "JOrg", "JVel", "JLim", "JKeep", "JBack"}
InRange(l, v) == l = <<>> \/ (v # NaN /\ l[1] <= v /\ v <= l[2])
Clamp(l, v) == IF l = <<>> THEN v ELSE IF v < l[1] THEN l[1] ELSE IF v > l[2] THEN l[2] ELSE v
JointRes(op, a) ==
  IF op \in {"JPos", "JVel"} /\ val.ty = "F" THEN <<"fixed">>
  ELSE IF op = "JPos" /\ ~InRange(val.lim, a[1]) THEN <<"limit", a[1], val.lim[1], val.lim[2]>>
  ELSE <<"ok">>
JointStep(op, a) ==
  CASE op = "JMake" -> [JointStart EXCEPT !.ty = a[1], !.ax = a[2], !.made = TRUE]
    [] JointRes(op, a) # <<"ok">> -> val
    [] op = "JPos" -> [val EXCEPT !.pos = a[1]]
    [] op = "JPosC" -> IF val.ty = "F" THEN val ELSE [val EXCEPT !.pos = Clamp(val.lim, a[1])]
    [] op = "JPosU" -> IF val.ty = "F" THEN val ELSE [val EXCEPT !.pos = a[1]]
    [] op = "JOrg" -> [val EXCEPT !.org = a[1]]
    [] op = "JVel" -> [val EXCEPT !.vel = a[1]]
    [] op = "JLim" -> [val EXCEPT !.lim = a[1]]
    [] op = "JKeep" -> val
    [] op = "JBack" -> kept
JointArgs(op) ==
  CASE op = "JMake" -> {<<"F", 1>>} \cup {<<t, x>> : t \in {"R", "L"}, x \in SomeAxis}
    [] op = "JPos" -> {<<v>> : v \in Pick({x \in Nums : x \notin {Inf, -Inf} /\ (x = NaN => val.ty = "F" \/ val.lim # <<>>)})}
    [] op \in {"JPosC", "JPosU", "JVel"} -> {<<v>> : v \in Pick(Nums \ {NaN, Inf, -Inf})}
    [] op = "JOrg" -> {<<o>> : o \in SomeOrg}
    [] op = "JLim" -> {<<l>> : l \in Pick({x \in Lims : x = <<>> \/ (x[1] # -Inf /\ x[2] # Inf)})}
    [] OTHER -> {<<>>}
JointOut(v) == v @@ [local |-> PoseOut(PMul(OrgPose(v.org), Motion(v.ty, v.ax, v.pos)))]

------------------------------------------------------------------------------
(* Elements of links: their origin and world transform                     *)
ElemNew(k) == [kind |-> k, org |-> OrgId, wt |-> <<>>]
ElemOps == {"ENew", "EOrg", "ESet", "EClear", "EKeep", "EBack"}
ElemStep(op, a) ==
  CASE op = "ENew" -> [kind |-> a[1], org |-> a[2], wt |-> <<>>]
    [] op = "EOrg" -> [val EXCEPT !.org = a[1], !.wt = <<>>]
    [] op = "ESet" -> [val EXCEPT !.wt = a[1]]
    [] op = "EClear" -> [val EXCEPT !.wt = <<>>]
    [] op = "EKeep" -> val
    [] op = "EBack" -> kept
ElemArgs(op) ==
  CASE op = "ENew" -> {<<k, o>> : k \in Pick({"inertial", "visual", "collision"}), o \in SomeOrg}
    [] op \in {"EOrg", "ESet"} -> {<<o>> : o \in SomeOrg}
    [] OTHER -> {<<>>}

------------------------------------------------------------------------------
(* Ranges and mimics: single questions                                     *)
RangeOps == {"Range"}
Ordered(l, h) == l # NaN /\ h # NaN /\ l <= h
RangeArgs == {<<l, h, v>> : l \in Pick(Nums), h \in Pick(Nums), v \in Pick(Nums)}
RangeOut(a) == IF ~Ordered(a[1], a[2]) THEN <<"panic">>
               ELSE <<"range", InRange(<<a[1], a[2]>>, a[3]), IF a[3] = NaN THEN NaN ELSE Clamp(<<a[1], a[2]>>, a[3])>>
MimicOps == {"Mimic"}
Finite == Nums \ {NaN, Inf, -Inf}
MimicArgs == {<<m, o, x>> : m \in Pick(Finite), o \in Pick(Finite), x \in Pick(Finite)}
MimicOut(a) == a[1] * a[3] + 4 * a[2]       \* in 1/16

------------------------------------------------------------------------------
(* Documents of constraints: for each flag 0 (left out), 1 (false) or      *)
(* 2 (true); names <<>> (left out) or <<list>>; the order of the fields    *)
Flags == 1..6
NameLists == { <<>>, << <<>> >>, << <<"a">> >>, << <<"b", "a">> >> }
DocOps == {"Doc"}
Perms == IF Sim THEN {TLCEval(SetToSeq(1..7))} ELSE {<<1,2,3,4,5,6,7>>, <<7,6,5,4,3,2,1>>}
RECURSIVE RandPerm(_)
RandPerm(S) == IF S = {} THEN <<>> ELSE LET x == TLCEval(RandomElement(S)) IN <<x>> \o RandPerm(S \ {x})
DocArgs == IF Sim THEN {TLCEval(<<[f \in Flags |-> RandomElement(0..2)], RandomElement(NameLists), RandPerm(1..7)>>)}
           ELSE {<<fl, nm, p>> : fl \in [Flags -> 0..2], nm \in NameLists, p \in Perms}
DocOut(a) == [flags |-> [f \in Flags |-> a[1][f] # 1], names |-> IF a[2] = <<>> THEN <<>> ELSE a[2][1]]

------------------------------------------------------------------------------
Ops == CASE Part = "node" -> NodeOps [] Part = "link" -> LinkOps [] Part = "joint" -> JointOps [] Part = "elem" -> ElemOps
         [] Part = "range" -> RangeOps [] Part = "mimic" -> MimicOps [] Part = "doc" -> DocOps
Start == CASE Part = "node" -> NodeNew [] Part = "link" -> LinkNew [] Part = "joint" -> JointStart [] Part = "elem" -> ElemNew("inertial")
         [] OTHER -> <<>>
Enabled(op) ==
  CASE Part = "joint" -> (op = "JMake") = ~val.made
    [] Part = "elem" -> (op = "ENew") = (nst = 0)
    [] OTHER -> TRUE
Args(op) ==
  CASE Part = "node" -> NodeArgs(op) [] Part = "link" -> LinkArgs(op) [] Part = "joint" -> JointArgs(op) [] Part = "elem" -> ElemArgs(op)
    [] Part = "range" -> RangeArgs [] Part = "mimic" -> MimicArgs [] Part = "doc" -> DocArgs
NewVal(op, a) ==
  CASE Part = "node" -> NodeStep(op, a) [] Part = "link" -> LinkStep(op, a) [] Part = "joint" -> JointStep(op, a) [] Part = "elem" -> ElemStep(op, a)
    [] OTHER -> <<>>
OutOf(op, a, v) ==
  CASE Part = "node" -> NodeOut(v) [] Part = "link" -> v [] Part = "joint" -> [res |-> JointRes(op, a), j |-> JointOut(v)]
    [] Part = "elem" -> v [] Part = "range" -> RangeOut(a) [] Part = "mimic" -> MimicOut(a) [] Part = "doc" -> DocOut(a)

Do(op, a) ==
  LET v == TLCEval(NewVal(op, a))
      rec == TLCEval([op |-> op, a |-> a, r |-> OutOf(op, a, v)])
  IN /\ val' = v
     /\ kept' = IF op \in {"NKeep", "JKeep", "EKeep", "JMake", "ENew"} THEN v ELSE kept
     /\ nst' = nst + 1
     /\ hist' = IF Sim THEN <<>> ELSE Append(hist, rec)
     /\ IF Sim THEN PrintT("@S" \o ToJson([k |-> nst, s |-> rec]))
        ELSE (nst + 1 = MaxLen) => PrintT("@P" \o ToJson(Append(hist, rec)))

Init == val = Start /\ kept = Start /\ nst = 0 /\ hist = <<>>
Next == /\ nst < MaxLen
        /\ \E op \in Pick({o \in Ops : Enabled(o)}) : \E a \in (IF Sim THEN {TLCEval(RandomElement(Args(op)))} ELSE Args(op)) : Do(op, a)
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What the model guarantees                                               *)
InvJointLimits == (Part = "joint" /\ val.made /\ val.lim # <<>> /\ hist # <<>> /\ hist[Len(hist)].op \in {"JPos", "JPosC"}
                                       /\ hist[Len(hist)].r.res = <<"ok">> /\ val.ty # "F") => InRange(val.lim, val.pos)
InvClamp == Part = "range" => \A l \in Nums \ {NaN} : \A h \in {x \in Nums : Ordered(l, x)} : \A v \in Nums \ {NaN} :
              /\ InRange(<<l, h>>, Clamp(<<l, h>>, v))
              /\ InRange(<<l, h>>, v) => Clamp(<<l, h>>, v) = v
              /\ \A w \in Nums \ {NaN} : InRange(<<l, h>>, w) => Abs(Clamp(<<l, h>>, v) - v) <= Abs(w - v)
InvDefaults == (Part = "doc") => DocOut(<<[f \in Flags |-> 0], <<>>, <<>>>>) = [flags |-> [f \in Flags |-> TRUE], names |-> <<>>]
(* Origin parts: only calls that set a part change it                       *)
PropParts == [][(Part = "node" /\ hist' # <<>>) =>
                 LET op == hist'[Len(hist')].op IN
                 /\ op = "NTrans" => val'.org[1] = val.org[1]
                 /\ op = "NRot" => SubSeq(val'.org, 2, 4) = SubSeq(val.org, 2, 4)
                 /\ op \in {"NName", "NType", "NLim"} => val'.org = val.org]_vars
=============================================================================
