------------------------------- MODULE MCConc -------------------------------
(* Instances of KConc for TLC: worlds and programs.                         *)
EXTENDS KConc

Lk(nm, mass, o) == <<[nm |-> nm, mass |-> mass, i |-> o, v |-> <<>>, c |-> <<>>]>>
(* (Written without recursion: TLC then evaluates these once.)              *)
NdX(i, ty, ax, lim, org, vel, par, kids, mp, mc, mk, lk) ==
  [Blank EXCEPT !.nm = "j" \o ToString(i), !.ty = ty, !.ax = ax, !.lim = lim, !.org = org, !.vel = vel, !.par = par, !.kids = kids,
                !.mp = mp, !.mc = mc, !.mk = mk, !.lk = lk, !.ls = LsOf(lk)]
(* an arm whose first joint is limited *)
W1 == [end |-> 3, dof |-> <<3, 3>>, n |->
  <<NdX(1, "R", 3, <<-1, 9>>, <<1, 1, 0, 0>>, 1, 0, <<2>>, 0, <<>>, <<>>, Lk("la", 1, <<1, 1, 0, 0>>)),
    NdX(2, "L", 1, <<>>, <<2, 0, 2, 0>>, 2, 1, <<3>>, 0, <<>>, <<>>, <<>>),
    NdX(3, "R", 2, <<>>, <<1, 2, 0, 1>>, -1, 2, <<>>, 0, <<>>, <<>>, Lk("lb", 2, <<1, 0, 1, 0>>))>>]
(* a fork; 3 follows 2, which follows 1 *)
W2 == [end |-> 3, dof |-> <<3, 2>>, n |->
  <<NdX(1, "L", 1, <<>>, <<1, 0, 0, 1>>, 1, 0, <<2, 3>>, 0, <<>>, <<2>>, Lk("la", 1, <<1, 1, 0, 0>>)),
    NdX(2, "L", 2, <<>>, <<3, 0, 1, 0>>, 2, 1, <<>>, 1, <<-1, 0>>, <<3>>, Lk("lb", 1, OrgId)),
    NdX(3, "L", 3, <<>>, <<1, 1, 0, 0>>, -1, 1, <<>>, 2, <<2, 0>>, <<>>, Lk("lc", 1, <<1, 0, 1, 0>>))>>]
(* an arm with a fixed joint whose first joint follows the last *)
W3 == [end |-> 3, dof |-> <<2, 2>>, n |->
  <<NdX(1, "R", 1, <<>>, <<1, 0, 1, 0>>, 1, 0, <<2>>, 3, <<-1, 0>>, <<>>, Lk("la", 1, <<1, 1, 0, 0>>)),
    NdX(2, "F", 1, <<>>, <<4, 0, 2, 0>>, 0, 1, <<3>>, 0, <<>>, <<>>, Lk("lb", 1, OrgId)),
    NdX(3, "R", 3, <<>>, <<1, 2, 0, 0>>, 2, 2, <<>>, 0, <<>>, <<1>>, <<>>)>>]
(* for changes of the tree: an arm and a loose node *)
W4 == [end |-> 3, dof |-> <<3, 3>>, n |->
  <<NdX(1, "R", 3, <<>>, <<1, 1, 0, 0>>, 1, 0, <<2>>, 0, <<>>, <<>>, Lk("la", 1, <<1, 1, 0, 0>>)),
    NdX(2, "L", 1, <<>>, <<1, 0, 2, 0>>, 2, 1, <<3>>, 0, <<>>, <<>>, <<>>),
    NdX(3, "R", 2, <<>>, <<1, 2, 0, 1>>, -1, 2, <<>>, 0, <<>>, <<>>, Lk("lb", 2, OrgId)),
    NdX(4, "R", 1, <<>>, OrgId, 0, 0, <<>>, 0, <<>>, <<>>, Lk("lc", 1, OrgId))>>]
(* the same where joints follow each other down the arm, and up the arm *)
Follow(w, m) == [w EXCEPT !.n = [i \in 1..4 |-> [w.n[i] EXCEPT !.mp = IF \E e \in m : e[1] = i THEN (CHOOSE e \in m : e[1] = i)[2] ELSE 0,
                                                 !.mc = IF \E e \in m : e[1] = i THEN <<1, i>> ELSE <<>>,
                                                 !.mk = IF \E e \in m : e[2] = i THEN <<(CHOOSE e \in m : e[2] = i)[1]>> ELSE <<>>]]]
W5 == Follow(W4, {<<2, 1>>, <<3, 2>>, <<4, 3>>})
W6 == Follow(W4, {<<1, 2>>, <<2, 3>>, <<4, 1>>})
TheWorlds == TLCEval(<<W1, W2, W3, W4, W5, W6>>)

Vals(w, c, v) == [j \in 1..TheWorlds[w].dof[c] |-> v]
(* the calls of a thread that writes v *)
Alpha(w, v) ==
  << <<"Get", 1>>, <<"Get", 3>>, <<"Set", 1, v>>, <<"Set", 2, v>>, <<"Set", 3, v>>, <<"SetC", 2, v>>, <<"SetU", 3, v>>, <<"SetU", 1, v>>,
     <<"SetOrg", 1, <<1, v, 0, 1>>>>, <<"SetOrg", 2, <<3, 0, v, 0>>>>,
     <<"CSet", 1, Vals(w, 1, v)>>, <<"CSetC", 2, Vals(w, 2, v)>>, <<"CSetU", 1, Vals(w, 1, v)>>, <<"CGet", 1>>, <<"CGet", 2>>,
     <<"UpdT", 1>>, <<"UpdT", 2>>, <<"UpdV", 1>>, <<"UpdL", 1>>, <<"CoM", 1>>, <<"EndTf">>, <<"Jac">>, <<"Clone", 1>>, <<"Clone", 2>>,
     <<"SetLink", 3, Lk("ld", 1, <<1, 0, 0, 1>>)>>, <<"SetLink", 2, <<>>>>, <<"GetLink", 3>>, <<"Links", 1>>, <<"Print", 1>>, <<"Print", 2>>,
     <<"Find", 2>>, <<"IterA", 3>>, <<"IterD", 1>>, <<"ChE2R", 3, 1>>, <<"TryNew">>, <<"Near", 2>>, <<"UpdT", 3>>, <<"UpdV", 3>>,
     <<"Set", 1, 50>>, <<"SetC", 1, 50>>, <<"CSetC", 1, [j \in 1..TheWorlds[w].dof[1] |-> IF j = 1 THEN -50 ELSE v]>> >>
NAlpha == 41
NLimited == 3      \* the last calls are of interest only in world 1, where a joint is limited
Tab == TLCEval([w \in 1..4 |-> [v \in 1..6 |-> TLCEval(Alpha(w, v))]])
Tests(w) == IF w = 1 THEN 1..NAlpha ELSE 1..(NAlpha - NLimited)
(* the tree does not change, nothing is written: of no interest in pairs    *)
Quiet == 31..36
PairsOf(ws) == UNION {{[w |-> w, th |-> << <<Tab[w][1][p[1]]>>, <<Tab[w][2][p[2]]>> >>] :
                       p \in {q \in Tests(w) \X Tests(w) : q[1] <= q[2] /\ ~(q[1] \in Quiet /\ q[2] \in Quiet)}} : w \in ws}

(* changes of the tree and of the mimic relations in worlds 4 to 6          *)
Change == << <<"SetParent", 3, 1>>, <<"SetParent", 3, 4>>, <<"SetParent", 2, 4>>, <<"SetParent", 4, 3>>, <<"SetParent", 4, 1>>, <<"SetParent", 4, 2>>, <<"RmParent", 3, 2>>, <<"RmParent", 2, 1>>,
             <<"SetMimic", 2, 1, <<1, 1>>>>, <<"SetMimic", 3, 1, <<-1, 0>>>>, <<"SetMimic", 3, 2, <<2, 0>>>>, <<"SetMimic", 1, 3, <<1, 0>>>>,
             <<"SetMimic", 4, 2, <<1, 2>>>>, <<"SetMimic", 2, 4, <<1, 0>>>> >>
More == << <<"Solve">>, <<"Near", 1>>, <<"Near", 3>>, <<"ChRoot", 1>>, <<"ChRoot", 4>>, <<"ChEnd", 3>>, <<"ChEnd", 4>>, <<"Set", 4, 2>>, <<"IterA", 4>> >>
AlphaS(v) == Change \o More \o Alpha(4, v)
TabS == TLCEval([v \in 1..6 |-> TLCEval(AlphaS(v))])
NChange == Len(Change)
NAlphaS == Len(Change) + Len(More) + NAlpha - NLimited
RECURSIVE Reach(_, _, _)
Reach(E, S, d) == IF d = 0 THEN S ELSE Reach(E, S \cup {e[2] : e \in {x \in E : x[1] \in S}}, d - 1)
Acyclic(E) == \A e \in E : e[1] \notin Reach(E, {e[2]}, 4)
Calls(p) == UNION {{p.th[t][q] : q \in 1..Len(p.th[t])} : t \in 1..Len(p.th)}
(* Whatever the order, nothing is put below itself and nothing follows itself. *)
SafeS(p) == /\ Acyclic({<<2, 1>>, <<3, 2>>} \cup {<<o[2], o[3]>> : o \in {c \in Calls(p) : c[1] = "SetParent"}})
            /\ Acyclic({<<i, TheWorlds[p.w].n[i].mp>> : i \in {j \in 1..4 : TheWorlds[p.w].n[j].mp # 0}}
                       \cup {<<o[2], o[3]>> : o \in {c \in Calls(p) : c[1] = "SetMimic"}})
PairsS == {p \in {[w |-> 4, th |-> << <<TabS[1][q[1]]>>, <<TabS[2][q[2]]>> >>] : q \in {x \in (1..NChange) \X (1..NAlphaS) : x[1] <= x[2]}} : SafeS(p)}
(* with joints that follow others: what takes more than one lock             *)
Locks == {"SetParent", "RmParent", "SetMimic", "Set", "SetC", "CSet", "CSetC", "UpdT", "UpdL", "Clone", "Print", "Near", "Solve", "ChRoot", "IterA"}
PairsF == {p \in {[w |-> w, th |-> << <<TabS[1][q[1]]>>, <<TabS[2][q[2]]>> >>] :
                   w \in {5, 6}, q \in {x \in (1..NChange) \X (1..NAlphaS) : x[1] <= x[2] /\ TabS[1][x[2]][1] \in Locks}} : SafeS(p)}

(* programs picked by number: <<world, threads of call numbers>>            *)
CONSTANT Picked
Made(p) == [w |-> p[1], th |-> [t \in 1..Len(p[2]) |-> [q \in 1..Len(p[2][t]) |->
              IF p[1] >= 4 THEN TabS[2 * (t - 1) + q][p[2][t][q]] ELSE Tab[p[1]][2 * (t - 1) + q][p[2][t][q]]]]]
PickedPrograms == {p \in {Made(Picked[i]) : i \in 1..Len(Picked)} : p.w < 4 \/ SafeS(p)}
=============================================================================
