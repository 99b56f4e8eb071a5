------------------------------ MODULE SortTree ------------------------------
(* The shape of the parallel merge sort: 2^Levels pieces of an array of N items and the tree that merges neighbours.
   Node <<lv, j>> covers the pieces j*2^lv .. (j+1)*2^lv - 1; ranges are half open and count from 0.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Levels
Leaves == 2 ^ Levels
RECURSIVE Cut(_, _, _, _)          \* where piece p starts, cutting [lo, hi) in halves
Cut(p, lv, lo, hi) ==
    IF lv = 0 THEN lo
    ELSE LET mid == lo + (hi - lo) \div 2 IN
         IF p < 2 ^ (lv - 1) THEN Cut(p, lv - 1, lo, mid) ELSE Cut(p - 2 ^ (lv - 1), lv - 1, mid, hi)
Ends == [p \in 0..Leaves |-> IF p = Leaves THEN N ELSE Cut(p, Levels, 0, N)]
Lo(nd) == Ends[nd[2] * 2 ^ nd[1]]
Hi(nd) == Ends[(nd[2] + 1) * 2 ^ nd[1]]
Mid(nd) == Lo(nd) + (Hi(nd) - Lo(nd)) \div 2
Nodes == UNION {{<<lv, j>> : j \in 0..(2 ^ (Levels - lv) - 1)} : lv \in 0..Levels}
ASSUME \A nd \in Nodes : nd[1] > 0 => Mid(nd) = Hi(<<nd[1] - 1, 2 * nd[2]>>) \* the merge meets its children's border
ASSUME \A nd \in Nodes : Lo(nd) <= Hi(nd)
Chunk == N \div (2 * Leaves) + 1           \* items of workspace per piece
WsLo(nd) == nd[2] * 2 ^ nd[1] * Chunk
WsNeed(nd) == (Hi(nd) - Lo(nd)) \div 2   \* the left half is moved out
ASSUME \A nd \in Nodes : WsLo(nd) + WsNeed(nd) <= (nd[2] + 1) * 2 ^ nd[1] * Chunk
=============================================================================
