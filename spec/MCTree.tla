------------------------------- MODULE MCTree -------------------------------
(* Instances of KTree for TLC: what each check explores.                    *)
EXTENDS KTree
BagAll == <<"SetPos", "SetPos", "SetPosC", "SetPosU", "CSet", "CSet", "CSetC", "CSetU", "SetOrg", "CSetOrg", "SetParent", "RmParent",
            "SetMimic", "SetLink", "Relink", "ChRoot", "ChRoot", "ChEnd", "ChE2R", "ChNodes", "UpdT", "UpdT", "UpdV", "UpdL", "CoM",
            "EndTf", "Jac", "TryNew", "Find", "Print", "IterA", "IterD", "Clone", "JVel", "New", "DropX">>
TyAll == <<"R", "R", "L", "F">>
LimAll == << <<>>, <<>>, <<-2, 2>>, <<-1, 3>>, <<1, 2>>, <<-3, -1>>, <<0, 0>>, <<-Inf, 1>>, <<-1, Inf>> >>
Vel == -2..2
Off == -2..3
Quats == CoordQuats \cup ObliqueQuats
Axs == CoordAxes \cup ObliqueAxes
Pos == -3..4
Mims == {<<-1, 0>>, <<2, 1>>, <<1, -1>>, <<0, 1>>, <<-2, 1>>}
NoStarts == {}

------------------------------------------------------------------------------
(* Worlds to start from when all behaviours up to a length are enumerated.  *)
(* loose nodes; a line with a loose node; a fork *)
StartsShape == {World([i \in 1..4 |-> Nd(i, IF i = 2 THEN "F" ELSE "R", 3, <<>>)], p, <<>>) :
                  p \in {<<0,0,0,0>>, <<0,1,2,3>>, <<0,1,1,1>>}}
StartsShape3 == {World([i \in 1..3 |-> Nd(i, "R", 3, <<>>)], <<0,0,0>>, <<>>)}

(* single joints of every type and limit *)
StartsJoint == {World(<<Nd(1, ty, 3, lim)>>, <<0>>, <<>>) : ty \in {"R", "L"}, lim \in ToSet(LimAll)}
               \cup {World(<<Nd(1, "F", 3, <<>>)>>, <<0>>, <<>>)}
PosJoint == {-Inf, -3, -2, -1, 0, 1, 2, 3, 4, Inf, NaN}

(* vectors: every placement of fixed joints in a line or fork of three *)
StartsVec == {World([i \in 1..3 |-> Nd(i, tys[i], 1, IF i = 2 /\ tys[i] # "F" THEN lim ELSE <<>>)], p, <<>>) :
                tys \in {<<"R","F","L">>, <<"F","R","R">>, <<"R","L","F">>, <<"L","R","R">>, <<"F","F","F">>},
                lim \in {<<>>, <<-1, 1>>}, p \in {<<0,1,2>>, <<0,1,1>>}}
StartsVecQ == {w \in StartsVec : w[2].lim # <<>> \/ w[2].ty = "F"}
PosVec == {-2, 0, 1}

(* mimic graphs over three movable joints *)
MimGraphs == { <<>>, << <<2, 1, <<2, 1>>>> >>, << <<2, 1, <<-1, 0>>>>, <<3, 2, <<2, -1>>>> >>, << <<2, 1, <<2, 1>>>>, <<3, 1, <<-1, 0>>>> >>,
               << <<1, 3, <<1, 1>>>> >>, << <<1, 2, <<2, 0>>>>, <<2, 3, <<1, 1>>>> >>, << <<1, 3, <<-2, 0>>>>, <<2, 3, <<1, 2>>>> >> }
StartsMim == {World([i \in 1..3 |-> Nd(i, "R", 3, IF i = f THEN <<-1, 2>> ELSE <<>>)], <<0,1,2>>, m) : m \in MimGraphs, f \in 0..3}
StartsMimQ == {w \in StartsMim : w[1].lim = <<>>}
MimsB == {<<2, 1>>, <<-1, 0>>}
PosMim == {-1, 0, 2}

(* caches: a line and a fork of three with a link on the last *)
LkB == <<[nm |-> "la", mass |-> 1, i |-> <<1, 1, 0, 0>>, v |-> << <<2, 0, 1, 0>> >>, c |-> << <<1, 0, 0, 2>> >>]>>
StartsCache == {World(<<NdV(1, "R", 3, <<1, 0, 1, 0>>, 1), NdV(2, ty, 1, <<2, 1, 0, 0>>, IF ty = "F" THEN 0 ELSE 1), WithLk(NdV(3, "R", 7, <<1, 0, 2, 1>>, -1), LkB)>>, p, <<>>) :
                  ty \in {"R", "F", "L"}, p \in {<<0,1,2>>, <<0,1,1>>}}
StartsCache1 == {World(<<NdV(1, "R", 3, <<1, 0, 1, 0>>, 1), NdV(2, "L", 1, <<2, 1, 0, 0>>, 1), WithLk(NdV(3, "R", 7, <<1, 0, 2, 1>>, -1), LkB)>>, <<0, 1, 2>>, <<>>)}

(* clones: trees of three or four with mimics *)
StartsClone == {World([i \in 1..3 |-> WithLk(NdV(i, IF i = 2 THEN "L" ELSE "R", 3, <<1, 0, 1, 0>>, 1), IF i = 3 THEN LkB ELSE <<>>)], p, m) :
                  p \in {<<0,1,2>>, <<0,1,1>>, <<0,0,1>>}, m \in { <<>>, << <<3, 1, <<2, 1>>>> >>, << <<1, 3, <<-1, 0>>>> >> }}

(* every tree of four nodes, for chains and printing; node 2 is fixed *)
Pars(k) == {p \in [1..k -> 0..(k-1)] : \A i \in 1..k : p[i] < i}
StartsTrees == {World([i \in 1..5 |-> WithLk(Nd(i, IF i = 2 THEN "F" ELSE IF i = 4 THEN "L" ELSE "R", i, <<>>), IF i % 2 = 1 THEN LkB ELSE <<>>)], p, <<>>) : p \in Pars(5)}

(* arms of two or three joints: every axis and type, for poses and Jacobians *)
Limd(r, lim) == [r EXCEPT !.lim = lim]
(* (some joints cannot move, or hardly) *)
Arm(t1, a1, t2, a2, q) == World(<<Limd(NdV(1, t1, a1, <<1, 1, 0, 0>>, 1), IF q = 4 THEN <<0, 0>> ELSE <<>>), Limd(NdV(2, t2, a2, <<q, 0, 2, 1>>, 2), IF q = 12 /\ a1 # 3 THEN <<1, 1>> ELSE <<>>), WithLk(NdV(3, "F", 1, <<3, 1, 1, 0>>, 0), LkB)>>, <<0,1,2>>, <<>>)
StartsArm == {Arm(t1, a1, t2, a2, q) : t1 \in {"R", "L"}, t2 \in {"R", "L"}, a1 \in {1, 2, 3, 7}, a2 \in {1, 3, 5, 9}, q \in {1, 4, 12}}
StartsArmQ == {Arm(t1, a1, t2, a2, q) : t1 \in {"R", "L"}, t2 \in {"R", "L"}, a1 \in {3, 7}, a2 \in {1, 9}, q \in {4, 12}}
PosArm == {0, 1, -1}
Off1 == {0, 1}
Vel1 == {0, 2}
=============================================================================
