------------------------------ MODULE SortTrace ------------------------------
(* Recorded sorts.  key: the rank of every item of the input (equal items have equal ranks, NaN ranks last);
   out: the ranks of a sorted copy, or the positions an indirect sort returned; keys: the key columns of a lexsort.    *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
Count(s, v) == Cardinality({k \in 1..Len(s) : s[k] = v})
Range(s) == {s[k] : k \in 1..Len(s)}
SortedCopy(r) == /\ Len(r.out) = Len(r.key)
                 /\ \A k \in 1..(Len(r.out) - 1) : r.out[k] <= r.out[k + 1]
                 /\ Range(r.out) = Range(r.key)
                 /\ \A v \in Range(r.key) : Count(r.out, v) = Count(r.key, v)
Permutation(p, n) == Len(p) = n /\ Range(p) = 0..(n - 1)
SortingPerm(r) == /\ Permutation(r.out, Len(r.key))
                  /\ \A k \in 1..(Len(r.out) - 1) : LET x == r.out[k] y == r.out[k + 1] IN
                       r.key[x + 1] < r.key[y + 1] \/ (r.key[x + 1] = r.key[y + 1] /\ (r.stable => x < y))
RECURSIVE LexLess(_, _, _, _)      \* the last column decides first; equal rows keep their order
LexLess(ks, c, x, y) == IF c = 0 THEN x < y
                        ELSE ks[c][x + 1] < ks[c][y + 1] \/ (ks[c][x + 1] = ks[c][y + 1] /\ LexLess(ks, c - 1, x, y))
LexPerm(r) == /\ Permutation(r.out, Len(r.keys[1]))
              /\ \A k \in 1..(Len(r.out) - 1) : LexLess(r.keys, Len(r.keys), r.out[k], r.out[k + 1])
        \* partitions: every piece [cut[j-1], cut[j]) holds the order of its own rows, counted from its start
LexParts(r) == \A j \in 1..Len(r.cuts) :
    LET s == IF j = 1 THEN 0 ELSE r.cuts[j - 1]
        sub == [keys |-> [c \in 1..Len(r.keys) |-> SubSeq(r.keys[c], s + 1, r.cuts[j])], out |-> SubSeq(r.out, s + 1, r.cuts[j])]
    IN s = r.cuts[j] \/ LexPerm(sub)
        \* a start order: the chosen rows, reordered; equal rows keep the order they were given in
PosIn(s, v) == CHOOSE k \in 1..Len(s) : s[k] = v
LexStart(r) == /\ Range(r.out) = Range(r.start) /\ Len(r.out) = Len(r.start)
               /\ \A k \in 1..(Len(r.out) - 1) : LET x == PosIn(r.start, r.out[k]) y == PosIn(r.start, r.out[k + 1])
                      ks == [c \in 1..Len(r.keys) |-> [q \in 1..Len(r.start) |-> r.keys[c][r.start[q] + 1]]] IN LexLess(ks, Len(ks), x - 1, y - 1)
Good(r) == CASE r.kind = "sort" -> SortedCopy(r)
             [] r.kind = "argsort" -> SortingPerm(r)
             [] r.kind = "lexsort" -> LexPerm(r)
             [] r.kind = "parts" -> LexParts(r)
             [] r.kind = "start" -> LexStart(r)
Valid == i > Len(Trace) \/ Good(Trace[i])
TInit == i = 1
TNext == i <= Len(Trace) /\ i' = i + 1
TSpec == TInit /\ [][TNext]_i
=============================================================================
