------------------------------- MODULE Search -------------------------------
(* searchsorted: the insertion point of every query in items ordered by a sorter (any order which sorts them).  The queries are
   looked up one after another by bisection; the bounds of one query start the next.                                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, M, Keys, Right, Bug
VARIABLES data, sorter, query, q, lo, hi, last, out
vars == <<data, sorter, query, q, lo, hi, last, out>>
Perms == {p \in [1..N -> 1..N] : \A a, b \in 1..N : p[a] = p[b] => a = b}
At(k) == IF Bug = "nosorter" THEN data[k + 1] ELSE data[sorter[k + 1]]
Before(x, y) == IF Right /\ Bug # "side" THEN x <= y ELSE x < y     \* an item x before the query y
Start(x, l) == IF Before(l, x) THEN <<IF q = 1 THEN 0 ELSE lo, N>> ELSE <<IF Bug = "lower" THEN lo ELSE 0, IF Bug = "upper" THEN lo - 1 ELSE IF hi < N THEN hi + 1 ELSE N>>
Init == /\ data \in [1..N -> 1..Keys] /\ sorter \in {p \in Perms : \A k \in 1..(N - 1) : data[p[k]] <= data[p[k + 1]]}
        /\ query \in [1..M -> 0..(Keys + 1)] /\ q = 0 /\ lo = 0 /\ hi = N /\ last = 0 /\ out = <<>>
Begin == /\ q = 0 /\ q' = 1 /\ last' = query[1] /\ UNCHANGED <<data, sorter, query, lo, hi, out>>
Halve == /\ q \in 1..M /\ lo < hi
         /\ LET m == lo + (hi - lo) \div 2 IN IF Before(At(m), query[q]) THEN lo' = m + 1 /\ hi' = hi ELSE hi' = m /\ lo' = lo
         /\ UNCHANGED <<data, sorter, query, q, last, out>>
Found == /\ q \in 1..M /\ lo >= hi /\ out' = Append(out, lo) /\ q' = q + 1
         /\ IF q < M THEN LET s == Start(query[q + 1], query[q]) IN lo' = s[1] /\ hi' = s[2] /\ last' = query[q + 1] ELSE UNCHANGED <<lo, hi, last>>
         /\ UNCHANGED <<data, sorter, query>>
Spec == Init /\ [][Begin \/ Halve \/ Found]_vars /\ WF_vars(Begin \/ Halve \/ Found)
----
Point(x) == Cardinality({k \in 1..N : IF Right THEN data[k] <= x ELSE data[k] < x})
AllRight == \A k \in 1..Len(out) : out[k] = Point(query[k])
Returns == <>(q = M + 1)
=============================================================================
