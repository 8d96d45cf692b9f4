------------------------------- MODULE MCUrdf -------------------------------
EXTENDS KUrdf
JN == {"a", "b", "c", "j1", "j2", "j10", "zz", "base_joint", "tip", "root_body"}
LN == {"a", "b", "c", "l1", "l2", "l10", "root", "base", "tip", "root_body"}
EditsAll == <<"AddLeaf", "AddLeaf", "AddTop", "DropLeaf", "MoveLink", "MoveLink", "MoveJoint", "MoveJoint", "SetMimic", "NoMimic", "Retype", "Retype", "Relink", "Relink", "Rename">>
NoDocs == {}

(* all trees over five links, with the joints named against the grain      *)
PlainLink(nm) == [nm |-> nm, inr |-> <<>>, vis |-> <<>>, col |-> <<>>]
PlainJoint(nm, par, chi, ax) == [nm |-> nm, ty |-> "revolute", par |-> par, chi |-> chi, ax |-> ax, lim |-> <<-10000, 10000>>, limw |-> "both",
                                 org |-> <<ax, 0, 1, 0, 0, 1>>, mim |-> <<>>]
LNm == <<"l3", "root", "l1", "a", "b">>
JNm == <<"", "c", "a", "b", "d">>
Doc(k, p) == [links |-> [i \in 1..k |-> PlainLink(LNm[i])],
              joints |-> [i \in 1..(k-1) |-> PlainJoint(JNm[i+1], LNm[p[i+1]], LNm[i+1], i)]]
Pars(k) == {p \in [1..k -> 0..(k-1)] : p[1] = 0 /\ \A i \in 2..k : 1 <= p[i] /\ p[i] < i}
Docs3 == UNION {{Doc(k, p) : p \in Pars(k)} : k \in 1..3}
Docs4 == UNION {{Doc(k, p) : p \in Pars(k)} : k \in 1..4}
Docs5 == UNION {{Doc(k, p) : p \in Pars(k)} : k \in 1..5}

(* every combination of type, axis and limits for one joint                *)
DocsParam == {d \in {[links |-> <<PlainLink("l1"), PlainLink("l2")>>,
               joints |-> << [PlainJoint("a", "l1", "l2", ax) EXCEPT !.ty = JTypes[ty], !.lim = Lims[lim], !.limw = w, !.org = <<1, 2, 3, r, p, y>>] >>] :
                 ax \in {0, 3, 6, 11}, ty \in 1..6, lim \in 1..Len(Lims), w \in {"both", "lower", "upper"}, r \in {0}, p \in {1}, y \in {2}} :
               d.joints[1].limw \in ToSet(LimWs(d.joints[1].lim))}
             \cup {[links |-> <<PlainLink("l1"), PlainLink("l2")>>,
               joints |-> << [PlainJoint("a", "l1", "l2", 1) EXCEPT !.org = <<1, 2, 3, r, p, y>>] >>] : r \in 0..3, p \in 0..3, y \in 0..3}
             \cup {[links |-> <<PlainLink("l1"), PlainLink("l2"), PlainLink("l3")>>,
               joints |-> << PlainJoint("a", "l1", "l2", 1), [PlainJoint("b", "l2", "l3", ax) EXCEPT !.ty = ty, !.mim = <<[j |-> "a", m |-> m, o |-> o]>>] >>] :
                 ax \in 1..Len(Axes), ty \in {"revolute", "prismatic"}, m \in {<<>>, <<0>>, <<2>>, <<-4>>}, o \in {<<>>, <<0>>, <<3>>}}
=============================================================================
