------------------------------- MODULE KConc -------------------------------
(***************************************************************************)
(* Calls that overlap in time.                                             *)
(*                                                                         *)
(* A program gives each thread a sequence of calls on one shared tree.     *)
(* A call is                                                               *)
(*   - one atomic step, if it reads or writes one joint: also an           *)
(*     assignment to a mimic source together with all that follow it;      *)
(*   - one step per joint, in order, if it reads or writes a vector;       *)
(*   - an interval, if it computes something from many joints: it may use  *)
(*     for each of them, and for each joint above them, any position that  *)
(*     joint had in the interval.                                          *)
(*                                                                         *)
(* TLC explores every interleaving of these steps and prints, for each     *)
(* final state, the results the calls may have and the state they may      *)
(* leave (Report).  The harness runs the real calls under all schedules of *)
(* their mutexes (up to a number of preemptions) and looks for a result    *)
(* that none of the final states of the program explains.                  *)
(*                                                                         *)
(* "S" programs change the tree or the mimic relations while it is in use. *)
(* What they compute is open, but every call returns.                      *)
(***************************************************************************)
EXTENDS KOps

CONSTANTS
  Worlds,      \* sequence of [n |-> nodes, end |-> last node of the arm that starts at node 1,
               \* dof |-> movable joints below node 1 and of the arm]
  Programs     \* set of [w |-> index of the world, th |-> sequence of threads]; a thread is a sequence of calls <<op, arg, ...>>

VARIABLES
  prog,
  n,           \* nodes
  pc,          \* per thread: the call it is at
  k,           \* per thread: 0 before the call, otherwise the joint it comes to next
  acc,         \* per thread: what a vector call has read
  win,         \* per thread: what each joint and each link was in the interval
  seen,        \* what each joint has ever been
  res          \* per thread: results of the finished calls
vars == <<prog, n, pc, k, acc, win, seen, res>>

Threads == 1..Len(prog.th)
Nodes == 1..Len(n)
(* 1: everything below node 1; 2: the arm; 3: the arm without its first     *)
(* joint.  Made before the threads start.                                  *)
Chain(c) == LET m == Worlds[prog.w].n a == Reverse(Anc(m, Worlds[prog.w].end)) IN
  CASE c = 1 -> DfsR(m, 1) [] c = 2 -> a [] c = 3 -> Tail(a)
Op(t) == prog.th[t][pc[t]]
Running(t) == pc[t] <= Len(prog.th[t])

Updates == {"UpdT", "UpdV", "UpdL", "CoM"}
Spans == Updates \cup {"EndTf", "Jac", "Clone", "Links", "Print"}
Vectors == {"CSet", "CSetC", "CSetU", "CGet"}
Structural == {"SetParent", "RmParent", "SetMimic"}

Cf(m, i) == <<m[i].pos, m[i].org>>
Now(m) == [j |-> [i \in 1..Len(m) |-> {Cf(m, i)}], l |-> [i \in 1..Len(m) |-> {m[i].lk}]]
Join(w, m) == [j |-> [i \in 1..Len(m) |-> w.j[i] \cup {Cf(m, i)}], l |-> [i \in 1..Len(m) |-> w.l[i] \cup {m[i].lk}]]
Nothing == [j |-> <<>>, l |-> <<>>]
InSpan(t) == Running(t) /\ Op(t)[1] \in Spans /\ k[t] > 0

------------------------------------------------------------------------------
(* One step calls: new nodes and result                                    *)
Same(m, r) == [n |-> m, r |-> r]
One(m, o) ==
  CASE o[1] = "Get" -> Same(m, IF m[o[2]].ty = "F" THEN <<"n">> ELSE <<"i", m[o[2]].pos>>)
    [] o[1] = "Set" -> NSet(m, o[2], o[3])
    [] o[1] = "SetC" -> [n |-> DoSetPosC(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "SetU" -> [n |-> DoSetPosU(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "SetOrg" -> [n |-> DoSetOrg(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "SetLink" -> [n |-> DoSetLink(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "GetLink" -> Same(m, IF m[o[2]].lk = <<>> THEN <<"n">> ELSE <<"s", m[o[2]].lk[1].nm>>)
    [] o[1] = "Find" -> Same(m, <<"i", o[2]>>)
    [] o[1] = "IterA" -> Same(m, <<"ids", Anc(m, o[2])>>)
    [] o[1] = "IterD" -> Same(m, <<"ids", DfsR(m, o[2])>>)
    [] o[1] = "ChRoot" -> Same(m, <<"ids", DfsR(m, o[2])>>)
    [] o[1] = "ChEnd" -> Same(m, <<"ids", Reverse(Anc(m, o[2]))>>)
    [] o[1] = "ChE2R" -> Same(m, <<"ids", Reverse(UpTo(m, o[2], o[3]))>>)
    [] o[1] = "TryNew" -> Same(m, IF IsSerial(m, Chain(1)) THEN <<"s", "some">> ELSE <<"s", "none">>)
    [] o[1] = "Near" -> Same(m, <<"ids", (IF m[o[2]].par = 0 THEN <<>> ELSE <<m[o[2]].par>>) \o <<0>> \o m[o[2]].kids>>)
    (* of interest only for how they end *)
    [] o[1] = "SetParent" -> [n |-> DoSetParent(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "RmParent" -> [n |-> DoRmParent(m, <<>>, o[2], o[3]).n, r |-> Ok]
    [] o[1] = "SetMimic" -> [n |-> DoSetMimic(m, <<>>, o[2], o[3], o[4]).n, r |-> Ok]
    [] o[1] = "Solve" -> Same(m, Ok)

------------------------------------------------------------------------------
Done(t, m, r) ==
  /\ n' = m
  /\ pc' = [pc EXCEPT ![t] = @ + 1]
  /\ k' = [k EXCEPT ![t] = 0]
  /\ acc' = [acc EXCEPT ![t] = <<>>]
  /\ res' = [res EXCEPT ![t] = Append(@, r)]

(* What the others remember of a change to m                               *)
Seen(m, but) ==
  /\ win' = [t \in Threads |-> IF t = but THEN Nothing ELSE IF InSpan(t) THEN Join(win[t], m) ELSE win[t]]
  /\ seen' = Join(seen, m)

Step1(t) ==
  /\ Op(t)[1] \notin Spans \cup Vectors
  /\ LET x == One(n, Op(t)) IN Done(t, x.n, x.r) /\ Seen(x.n, 0)

(* One joint of a vector call                                              *)
StepV(t) ==
  /\ Op(t)[1] \in Vectors
  /\ LET o == Op(t)
         mv == Mov(n, Chain(o[2]))
         i == mv[k[t] + 1]
         x == CASE o[1] = "CSet" -> NSet(n, i, o[3][k[t] + 1])
                [] o[1] = "CSetC" -> Same(PosRaw(n, i, Clamp(n[i], o[3][k[t] + 1]), TRUE), Ok)
                [] o[1] = "CSetU" -> Same(PosRaw(n, i, o[3][k[t] + 1], TRUE), Ok)
                [] o[1] = "CGet" -> Same(n, Ok)
         a == IF o[1] = "CGet" THEN Append(acc[t], n[i].pos) ELSE <<>>
     IN /\ Seen(x.n, 0)
        /\ IF k[t] + 1 = Len(mv) \/ x.r # Ok
           THEN Done(t, x.n, IF o[1] = "CGet" THEN <<"ids", a>> ELSE x.r)
           ELSE n' = x.n /\ k' = [k EXCEPT ![t] = @ + 1] /\ acc' = [acc EXCEPT ![t] = a] /\ UNCHANGED <<pc, res>>

Begin(t) ==
  /\ Op(t)[1] \in Spans /\ k[t] = 0
  /\ k' = [k EXCEPT ![t] = 1]
  /\ win' = [win EXCEPT ![t] = Now(n)]
  /\ UNCHANGED <<n, pc, acc, seen, res>>
End(t) ==
  /\ InSpan(t)
  /\ Done(t, n, <<"span", win[t]>>)
  /\ Seen(n, t)

Init ==
  \E p \in Programs :
    /\ prog = p
    /\ n = Worlds[p.w].n
    /\ pc = [t \in 1..Len(p.th) |-> 1]
    /\ k = [t \in 1..Len(p.th) |-> 0]
    /\ acc = [t \in 1..Len(p.th) |-> <<>>]
    /\ win = [t \in 1..Len(p.th) |-> Nothing]
    /\ seen = Now(Worlds[p.w].n)
    /\ res = [t \in 1..Len(p.th) |-> <<>>]
Next == \E t \in Threads : Running(t) /\ UNCHANGED prog /\ (Step1(t) \/ StepV(t) \/ Begin(t) \/ End(t))
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
(* What a call may return: a sequence of sets of values                    *)
At(i, c) == Local([n[i] EXCEPT !.pos = c[1], !.org = c[2]])
(* poses of node i, when the joints above it are as in up and it is as in own *)
RECURSIVE Above(_, _), Poses(_, _, _)
Poses(i, up, own) == {PMul(a, At(i, c)) : a \in Above(i, up), c \in own[i]}
Above(i, up) == IF n[i].par = 0 THEN {PId} ELSE Poses(n[i].par, up, up)

Rate(i, tp, vp, c) ==
  LET t == PMul(tp, At(i, c))
      a == VScale(n[i].vel, MV(t.r, AxisTab[n[i].ax]))
      lin == VAdd(vp.lin, Cross(vp.ang, VSub(t.t, tp.t)))
  IN CASE n[i].ty = "F" -> [lin |-> lin, ang |-> vp.ang]
       [] n[i].ty = "R" -> [lin |-> lin, ang |-> VAdd(vp.ang, a)]
       [] n[i].ty = "L" -> [lin |-> VAdd(lin, VScale(2, a)), ang |-> vp.ang]
RECURSIVE Rates(_, _, _)
Rates(i, up, own) ==
  {Rate(i, tp, vp, c) : tp \in Above(i, up), c \in own[i],
     vp \in IF n[i].par = 0 THEN {[lin |-> V0, ang |-> V0]} ELSE Rates(n[i].par, up, up)}

(* sums of mass and moment over members ns[q..]                            *)
RECURSIVE Sums(_, _, _, _, _)
Sums(ns, q, up, own, lw) ==
  IF q > Len(ns) THEN {[m |-> 0, c |-> V0]}
  ELSE LET i == ns[q]
           here == UNION {IF lk = <<>> THEN {[m |-> 0, c |-> V0]}
                          ELSE {[m |-> lk[1].mass, c |-> VScale(lk[1].mass, PMul(p, OrgPose(lk[1].i)).t)] : p \in Poses(i, up, own)} : lk \in lw[i]}
       IN {[m |-> a.m + b.m, c |-> VAdd(a.c, b.c)] : a \in here, b \in Sums(ns, q + 1, up, own, lw)}

(* poses of the q-th member of the arm, from the arm's first joint         *)
RECURSIVE ArmPoses(_, _, _)
ArmPoses(ns, q, w) == IF q = 0 THEN {PId} ELSE {PMul(a, At(ns[q], c)) : a \in ArmPoses(ns, q - 1, w), c \in w[ns[q]]}
Cols(ns, q, w) ==
  LET i == ns[q] IN
  {LET a == MV(t.r, AxisTab[n[i].ax]) IN
   IF n[i].ty = "L" THEN <<VecOut(VScale(2, a)), VecOut(V0)>> ELSE <<VecOut(Cross(a, VSub(e, t.t))), VecOut(a)>> :
     t \in ArmPoses(ns, q, w), e \in {p.t : p \in ArmPoses(ns, Len(ns), w)}}

RECURSIVE Names(_, _, _)
Names(ns, q, lw) == IF q > Len(ns) THEN {<<>>}
  ELSE UNION {{(IF lk = <<>> THEN <<>> ELSE <<lk[1].nm>>) \o s : s \in Names(ns, q + 1, lw)} : lk \in lw[ns[q]]}
RECURSIVE Depth(_)
Depth(i) == IF n[i].par = 0 THEN 0 ELSE 1 + Depth(n[i].par)
RECURSIVE Filtered(_, _)
Filtered(s, S) == SelectSeq(s, LAMBDA i : i \in S)

P(p) == <<"p", PoseOut(p)>>
LinkAt(i, up, own, lw) ==
  UNION {IF lk = <<>> THEN {<<"n">>} ELSE {P(PMul(p, OrgPose(lk[1].i))) : p \in Poses(i, up, own)} : lk \in lw[i]}
Allowed(o, r) ==
  IF r[1] # "span" THEN << {r} >>
  ELSE LET own == r[2].j lw == r[2].l
           ns == Chain(IF o[1] \in {"EndTf", "Jac"} THEN 2 ELSE o[2])
       IN CASE o[1] = "UpdT" -> [q \in 1..Len(ns) |-> {P(p) : p \in Poses(ns[q], own, own)}]
            [] o[1] = "UpdV" -> [q \in 1..Len(ns) |-> {<<"v", VecOut(v.lin), VecOut(v.ang)>> : v \in Rates(ns[q], own, own)}]
            [] o[1] = "UpdL" -> <<{Ok}>>
            [] o[1] = "CoM" -> << {IF s.m > 0 THEN <<"c", VecOut(VDiv(s.c, s.m))>> ELSE <<"any">> : s \in Sums(ns, 1, own, own, lw)} >>
            [] o[1] = "EndTf" -> << {P(p) : p \in ArmPoses(ns, Len(ns), own)} >>
            [] o[1] = "Jac" -> LET mv == SelectSeq([q \in 1..Len(ns) |-> q], LAMBDA q : Movable(n, ns[q])) IN
                               [q \in 1..Len(mv) |-> {<<"j", c[1], c[2]>> : c \in Cols(ns, mv[q], own)}]
            [] o[1] = "Clone" -> [q \in 1..Len(ns) |-> {<<"k", ns[q], IF Movable(n, ns[q]) THEN c[1] ELSE "none", c[2], IF lk = <<>> THEN "none" ELSE lk[1].nm>> :
                                                         c \in own[ns[q]], lk \in lw[ns[q]]}]
            [] o[1] = "Links" -> << {<<"ss", s>> : s \in Names(ns, 1, lw)} >>
            [] o[1] = "Print" -> LET ls == Filtered(DfsF(n, ns[1]), ToSet(ns)) IN
                                 [q \in 1..Len(ls) |-> {<<"l", Depth(ls[q]), ls[q], IF lk = <<>> THEN "none" ELSE lk[1].nm>> : lk \in lw[ls[q]]}]

(* What may be found when all calls have returned                          *)
HasOp(S) == \E t \in Threads : \E q \in 1..Len(prog.th[t]) : prog.th[t][q][1] \in S
Final(i) ==
  LET own == [seen.j EXCEPT ![i] = {Cf(n, i)}] IN
  [pos |-> IF Movable(n, i) THEN n[i].pos ELSE "none", org |-> n[i].org, lk |-> IF n[i].lk = <<>> THEN "none" ELSE n[i].lk[1].nm,
   tf |-> IF HasOp(Updates) THEN {P(p) : p \in Poses(i, seen.j, own)} ELSE {},
   vl |-> IF HasOp({"UpdV"}) THEN {<<"v", VecOut(v.lin), VecOut(v.ang)>> : v \in Rates(i, seen.j, own)} ELSE {},
   (* the inertial of the link: placed by an update, or not placed since it was set *)
   ls |-> IF HasOp({"UpdL"}) /\ n[i].lk # <<>> THEN {P(PMul(p, OrgPose(n[i].lk[1].i))) : p \in Poses(i, seen.j, seen.j)} ELSE {},
   placed |-> ~HasOp({"SetLink"}) /\ n[i].lk # <<>> /\
              \E t \in Threads : \E q \in 1..Len(prog.th[t]) : LET o == prog.th[t][q] IN o[1] = "UpdL" /\ i \in ToSet(Chain(o[2]))]

IsS == HasOp(Structural \cup {"Solve"})     (* positions found by the solver are not modelled here *)
Terminal == \A t \in Threads : ~Running(t)
Report ==
  Terminal => PrintT("@T" \o ToJson(
    IF IsS THEN [w |-> prog.w, th |-> prog.th, s |-> 1, r |-> <<>>, f |-> <<>>]
    ELSE [w |-> prog.w, th |-> prog.th, s |-> 0,
          r |-> [t \in Threads |-> [q \in 1..Len(prog.th[t]) |-> Allowed(prog.th[t][q], res[t][q])]],
          f |-> [i \in Nodes |-> Final(i)]]))

(* The worlds, once: the harness builds them                               *)
WorldOut(w) == [end |-> w.end, n |-> [i \in 1..Len(w.n) |->
  [nm |-> w.n[i].nm, ty |-> w.n[i].ty, ax |-> w.n[i].ax, lim |-> w.n[i].lim, vel |-> w.n[i].vel, org |-> w.n[i].org, par |-> w.n[i].par,
   mp |-> w.n[i].mp, mc |-> w.n[i].mc, lk |-> w.n[i].lk, kids |-> w.n[i].kids]]]
ASSUME PrintT("@W" \o ToJson([q \in 1..Len(Worlds) |-> WorldOut(Worlds[q])]))

------------------------------------------------------------------------------
(* What TLC checks of the model itself                                     *)
(* Between steps, what follows a joint is in agreement with it, as long as *)
(* nobody goes past the mimic relations.                                   *)
Bypass == {"SetC", "SetU", "CSetC", "CSetU", "SetMimic"}
Agreed(m) == \A i \in 1..Len(m) : m[i].mp # 0 => m[i].pos = m[i].mc[1] * m[m[i].mp].pos + m[i].mc[2]
InvMimicAtomic == (~HasOp(Bypass) /\ Agreed(Worlds[prog.w].n)) => Agreed(n)
InvLimits == ~HasOp({"SetU", "CSetU"}) => \A i \in Nodes : Movable(n, i) => InRange(n[i], n[i].pos)
InvWindows == \A t \in Threads : InSpan(t) =>
  /\ \A i \in Nodes : Cf(n, i) \in win[t].j[i] /\ win[t].j[i] \subseteq seen.j[i] /\ n[i].lk \in win[t].l[i]
InvTree ==
  \A i \in Nodes : /\ i \notin (Sub(n, i) \ {i})
                   /\ \A p \in Nodes : Cardinality({q \in 1..Len(n[p].kids) : n[p].kids[q] = i}) = (IF n[i].par = p THEN 1 ELSE 0)
(* Only written values are ever held: nothing is invented                  *)
InvNoInvention ==
  (IsS \/ \E i \in Nodes : n[i].mp # 0) \/ \A i \in Nodes : n[i].pos = Worlds[prog.w].n[i].pos \/
     \E t \in Threads : \E q \in 1..Len(prog.th[t]) : LET o == prog.th[t][q] IN
       \/ o[1] \in {"Set", "SetU"} /\ o[2] = i /\ o[3] = n[i].pos
       \/ o[1] = "SetC" /\ o[2] = i /\ Clamp(n[i], o[3]) = n[i].pos
       \/ o[1] \in {"CSet", "CSetU"} /\ \E j \in 1..Len(o[3]) : o[3][j] = n[i].pos
       \/ o[1] = "CSetC" /\ \E j \in 1..Len(o[3]) : Clamp(n[i], o[3][j]) = n[i].pos
(* With one call at a time an interval holds exactly the current state     *)
InvDof == \A c \in 1..2 : Len(Mov(Worlds[prog.w].n, Chain(c))) = Worlds[prog.w].dof[c]
InvAlone == (\A t \in Threads \ {1} : Len(prog.th[t]) = 0) => \A t \in Threads : InSpan(t) => \A i \in Nodes : win[t].j[i] = {Cf(n, i)}
=============================================================================
