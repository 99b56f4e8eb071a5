------------------------------ MODULE FillTrace ------------------------------
(* Recorded fills.  kind "int": the numbers are byte sequences, least significant first (IntSem): first and second item, the items
   sampled with their index; everything wraps.  kind "float": numbers for which the arithmetic is exact, as integers of a unit. *)
EXTENDS IntSem, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
IntOk(r) == LET d == Sub(r.second, r.first) IN
    \A k \in 1..Len(r.at) : r.val[k] = Add(r.first, Mul(SubSeq(r.at[k], 1, Len(d)), d))
FloatOk(r) == \A k \in 1..Len(r.at) : r.val[k] = r.first + r.at[k] * (r.second - r.first)
        \* start, stop, step as integers of one unit: how many items
CeilDiv(a, b) == LET q == IF b > 0 THEN a \div b ELSE (-a) \div (-b) IN IF q * b = a THEN q ELSE q + 1
LengthOk(r) == r.n = LET q == CeilDiv(r.stop - r.start, r.step) IN IF q < 0 THEN 0 ELSE q
Good(r) == CASE r.kind = "int" -> IntOk(r) [] r.kind = "float" -> FloatOk(r) [] r.kind = "length" -> LengthOk(r)
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
