------------------------------- MODULE Extreme -------------------------------
(* The position of the least or greatest item: the first of those equal to it, or the first NaN (Nan is the greatest rank).
   The mechanism reads groups of Lanes items, keeps the best of every lane with its position, and joins the lanes and the
   items after the last group.                                                                                              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Keys, Lanes, Least, Bug
VARIABLES data, i, best, pos, done, answer
vars == <<data, i, best, pos, done, answer>>
Nan == Keys
Better(x, y) == \* x replaces y when x comes later
    IF Bug = "nan" THEN (IF Least THEN x < y ELSE x > y)
    ELSE y # Nan /\ (x = Nan \/ (IF Least THEN x < y ELSE x > y))
Takes(x, y) == IF Bug = "tie" THEN Better(x, y) \/ x = y ELSE Better(x, y)
Min(a, b) == IF a < b THEN a ELSE b
Groups == N \div Lanes
Init == /\ data \in [0..(N - 1) -> 0..Nan] /\ i = 0 /\ done = FALSE /\ answer = -1
        /\ best = [l \in 0..(Min(Lanes, N) - 1) |-> data[l]] /\ pos = [l \in 0..(Min(Lanes, N) - 1) |-> l]
Group == /\ ~done /\ i < Groups
         /\ best' = [l \in 0..(Lanes - 1) |-> IF Takes(data[i * Lanes + l], best[l]) THEN data[i * Lanes + l] ELSE best[l]]
         /\ pos' = [l \in 0..(Lanes - 1) |-> IF Takes(data[i * Lanes + l], best[l]) THEN i * Lanes + l ELSE pos[l]]
         /\ i' = i + 1 /\ UNCHANGED <<data, done, answer>>
        \* the lanes hold positions in any order: of equal items the lower position wins
RECURSIVE Join(_, _, _)
Join(l, b, p) == IF l = Min(Lanes, N) THEN <<b, p>>
                 ELSE IF Takes(best[l], b) \/ (best[l] = b /\ pos[l] < p /\ Bug # "lanes") THEN Join(l + 1, best[l], pos[l]) ELSE Join(l + 1, b, p)
RECURSIVE Rest(_, _, _)
Rest(k, b, p) == IF k >= (IF Bug = "tail" THEN Groups * Lanes ELSE N) THEN p ELSE IF Takes(data[k], b) THEN Rest(k + 1, data[k], k) ELSE Rest(k + 1, b, p)
End == /\ ~done /\ i = Groups /\ done' = TRUE /\ LET j == Join(1, best[0], pos[0]) IN answer' = Rest(Groups * Lanes, j[1], j[2])
       /\ UNCHANGED <<data, i, best, pos>>
Spec == Init /\ [][Group \/ End]_vars /\ WF_vars(Group \/ End)
----
Wanted(x) == \A k \in 0..(N - 1) : data[k] = Nan \/ (IF Least THEN x <= data[k] ELSE x >= data[k])
First == LET nans == {k \in 0..(N - 1) : data[k] = Nan}
             c == IF nans # {} THEN nans ELSE {k \in 0..(N - 1) : Wanted(data[k])} IN CHOOSE k \in c : \A m \in c : k <= m
Right == done => answer = First
Returns == <>done
=============================================================================
