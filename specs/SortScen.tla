------------------------------ MODULE SortScen ------------------------------
(* Enumerates what the merges of the tree can meet: for every assignment of keys to N items, what each merge node does (halves in
   order already; equal at the border; a real merge, with or without ties; left half entirely after the right one).  *)
EXTENDS SortTree, TLC
CONSTANTS Keys
VARIABLE key
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
SetMin(S) == CHOOSE x \in S : \A y \in S : y >= x
Situation(nd) ==
    LET L == {key[i] : i \in Lo(nd)..(Mid(nd) - 1)} R == {key[i] : i \in Mid(nd)..(Hi(nd) - 1)} IN
    CASE SetMax(L) < SetMin(R) -> 0
      [] SetMax(L) = SetMin(R) -> 1
      [] SetMin(L) > SetMax(R) -> 2
      [] OTHER -> IF L \cap R = {} THEN 3 ELSE 4
Merges == {x \in Nodes : x[1] > 0}
RECURSIVE Vec(_, _)
Vec(lv, j) == IF lv = 0 THEN <<>> ELSE <<Situation(<<lv, j>>)>> \o Vec(lv - 1, 2 * j) \o Vec(lv - 1, 2 * j + 1)
Init == key \in [0..(N - 1) -> 0..Keys] /\ PrintT(<<"scen", Vec(Levels, 0), [i \in 1..N |-> key[i - 1]]>>)
Next == UNCHANGED key
Spec == Init /\ [][Next]_key
=============================================================================
