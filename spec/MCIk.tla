-------------------------------- MODULE MCIk --------------------------------
(* Instances of KIk for TLC                                                 *)
EXTENDS KIk
BagGrid == <<"Solve", "Solve", "Solve", "Solve", "Solve", "Solver", "SetQ">>
BagFree == <<"Step", "Step", "Near", "Near", "Hard", "Hard", "Solver", "SetQ">>
NoArms == {}
NoSols(a) == {}
NoReqs(a) == {}

(* small arms: every choice of axes, types, limits and a wrist               *)
L(i, ax, lim, pos) == Node(Nm(i), "L", ax, <<1, 0, 1, 0>>, lim, pos, FALSE)
W(i, ax, pos) == Node(Nm(i), "R", ax, OrgId, <<>>, pos, FALSE)
X(i) == Node(Nm(i), "F", 1, <<1, 1, 0, 0>>, <<>>, 0, FALSE)
Lim1 == {<<>>, <<-1024, 1024>>}
ArmsSmall == {[nodes |-> <<L(1, 1, l1, p), L(2, a2, <<>>, 0), X(3), L(4, a4, l4, 1024)>>, from |-> f, how |-> "e2r"] :
                 l1 \in Lim1, a2 \in {1, 2, 5}, a4 \in {1, 2, 3, 6}, l4 \in {<<>>, <<0, 3072>>}, f \in {1, 2}, p \in {0, 2048}}
             \cup {[nodes |-> <<L(1, 1, <<>>, 0), L(2, 2, <<>>, 0), W(3, 3, 1024), W(4, 6, p)>>, from |-> 1, how |-> "end"] : p \in {0, -2048}}
ArmsSmallQ == {a \in ArmsSmall : a.from = 1 /\ (a.nodes[1].pos = 0 \/ a.nodes[2].ax = 2)}
SolOf(t, den, tries, ns) == [tolp |-> t, tola |-> t, den |-> den, tries |-> tries, ns |-> ns]
SolsSmall(a) == {SolOf(t, den, tries, ns) : t \in {40, 700}, den \in {1, 2}, tries \in {0, 1, 3, 6},
                    ns \in {<<>>, << [k \in 1..Dof(a) |-> -1], [k \in 1..Dof(a) |-> 1024] >>}}
SolsSmallQ(a) == {SolOf(40, 1, 1, <<>>), SolOf(700, 2, 3, <<>>), SolOf(40, 2, 6, << [k \in 1..Dof(a) |-> -1], [k \in 1..Dof(a) |-> 1024] >>), SolOf(40, 2, 0, <<>>)}
IgnsSmall(a) == {s \in UNION {[1..l -> MovNames(a)] : l \in 0..2} : TRUE} \cup {<<"none">>, <<Nm(1)>>, <<Nm(3)>>, <<Nm(1), Nm(2), Nm(4)>>}
ReqsSmall(a) == {[con |-> c, ign |-> g, tgt |-> [k \in 1..6 |-> IF k <= 3 THEN d[k] ELSE IF k = 6 /\ ~Plain(a) THEN 1024 ELSE IF k = 6 THEN d[1] ELSE 0], nf |-> <<>>] :
                    c \in {x \in SUBSET {1, 2, 3, 6} : Cardinality(x) \in 1..3}, g \in IgnsSmall(a), d \in {<<1024, 1024, 0>>, <<-3072, 2048, 1024>>}}
ReqsSmallQ(a) == {r \in ReqsSmall(a) : (Len(r.ign) < 2 \/ (r.ign[1] # "j2" /\ r.ign[2] = "j1")) /\ (r.tgt[1] > 0 => Cardinality(r.con) # 2)}
=============================================================================
