---------------------------- MODULE PositionTrace ----------------------------
(* Recorded positions.  key: the rank of every item (equal items have equal ranks; nan: the rank of NaN, greater than every other
   rank); out: the position of the extreme, or the insertion points of the queries among the items.                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
Pos(r) == 1..Len(r.key)
Wanted(r) == LET nans == {k \in Pos(r) : r.key[k] = r.nan} IN
    IF nans # {} THEN nans ELSE {k \in Pos(r) : \A m \in Pos(r) : IF r.least THEN r.key[k] <= r.key[m] ELSE r.key[k] >= r.key[m]}
Extreme(r) == r.out + 1 \in Wanted(r) /\ \A m \in Wanted(r) : r.out + 1 <= m
Points(r) == /\ Len(r.out) = Len(r.query)
             /\ \A k \in 1..Len(r.out) : r.out[k] = Cardinality({m \in Pos(r) : IF r.right THEN r.key[m] <= r.query[k] ELSE r.key[m] < r.query[k]})
Good(r) == CASE r.kind = "extreme" -> Extreme(r) [] r.kind = "search" -> Points(r)
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
