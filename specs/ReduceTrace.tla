---------------------------- MODULE ReduceTrace -----------------------------
(* Recorded reductions of 8 bit integers: the result must be the left fold of the operation of IntSem.
   first: the initial value, or the first element when none was given.                              *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
I == INSTANCE IntSem
VARIABLE i
RECURSIVE FoldI(_, _, _, _, _)
FoldI(op, sg, v, s, k) == IF k > Len(s) THEN v ELSE FoldI(op, sg, I!MathBin(op, sg, v, s[k]), s, k + 1)
        \* reduceat: <<first, last>> of every segment
Segments(ix, n) == [k \in 1..Len(ix) |-> <<ix[k] + 1, IF k < Len(ix) /\ ix[k + 1] > ix[k] THEN ix[k + 1] ELSE IF k < Len(ix) THEN ix[k] + 1 ELSE n>>]
Arg(r, k, best) == \* first index of the least (greatest) element
    CHOOSE j \in 1..Len(r.data) : /\ \A q \in 1..Len(r.data) : IF best = "min" THEN r.data[j] <= r.data[q] ELSE r.data[j] >= r.data[q]
                                  /\ \A q \in 1..(j - 1) : r.data[q] # r.data[j]
Good(r) ==
    CASE r.kind = "reduce" -> r.result = FoldI(r.op, r.sg, r.first, r.data, 1)
      [] r.kind = "reduceat" -> r.result = [k \in 1..Len(r.ix) |-> LET s == Segments(r.ix, Len(r.data))[k] IN
                                             FoldI(r.op, r.sg, r.data[s[1]], SubSeq(r.data, s[1] + 1, s[2]), 1)]
      [] r.kind = "arg" -> r.result = Arg(r, 1, r.op) - 1
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
