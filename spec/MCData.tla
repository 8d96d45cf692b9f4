------------------------------- MODULE MCData -------------------------------
EXTENDS KData
NamesQ == {"a", "b"}
NamesS == {"", "a", "b", "j 1", "ab", "root"}
OrgsQ == {<<3, 1, 0, -2>>, <<11, 0, 2, 1>>}
LimsQ == {<<>>, <<-1, 2>>, <<1, 3>>}
LimsS == {<<>>, <<-1, 2>>, <<1, 3>>, <<-3, -2>>, <<0, 0>>, <<-Inf, 1>>, <<0, Inf>>}
NumsQ == {0, 1, 2, -2}
NumsS == (-6..6) \cup {Inf, -Inf, NaN}
NumsJ == {-2, -1, 0, 1, 2, 3, NaN}
NumsL == {0, 2}
=============================================================================
