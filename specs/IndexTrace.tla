------------------------------ MODULE IndexTrace ------------------------------
(* Recorded indexing.  kind "mask": mask (0/1) and rows, the numbers of the rows returned.  kind "gather": n rows, idx the
   index values (values beyond 2^30 cut to it), rows the row numbers returned, -1 where the default was returned.          *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
Ones(s) == {k \in 1..Len(s) : s[k] = 1}
        \* exactly the true rows, each once, in ascending order
MaskOk(r) == /\ Len(r.rows) = Cardinality(Ones(r.mask))
             /\ \A k \in 1..Len(r.rows) : r.rows[k] + 1 \in Ones(r.mask)
             /\ \A k \in 1..(Len(r.rows) - 1) : r.rows[k] < r.rows[k + 1]
Pick(s, x, n) == IF s /\ x < 0 THEN (IF x >= -n THEN x + n ELSE -1) ELSE IF x < n THEN x ELSE -1
GatherOk(r) == Len(r.rows) = Len(r.idx) /\ \A k \in 1..Len(r.idx) : r.rows[k] = Pick(r.signed, r.idx[k], r.n)
Good(r) == CASE r.kind = "mask" -> MaskOk(r) [] r.kind = "gather" -> GatherOk(r)
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
