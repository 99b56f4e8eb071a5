------------------------------- MODULE RecTrace -------------------------------
(* Recorded conversions: src, the bytes of the records; item, their size; rows; fields <<offset, size>>; cols, the bytes of each column;
   after, the bytes of the records afterwards.                                                                               *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
Good(r) == /\ r.after = r.src /\ Len(r.cols) = Len(r.fields)
           /\ \A f \in 1..Len(r.fields) :
                LET off == r.fields[f][1]
                    size == r.fields[f][2]
                IN /\ Len(r.cols[f]) = r.rows * size
                   /\ \A k \in 0..(r.rows * size - 1) : r.cols[f][k + 1] = r.src[(k \div size) * r.item + off + (k % size) + 1]
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
