----------------------------- MODULE TransExec ------------------------------
(* How an array goes through a function that has a fast kernel valid only for some values: groups of W elements go to the
   fast kernel when all of them are valid for it and through the accurate one otherwise; what is left over, and arrays that
   are not contiguous, go through the accurate one; a long array is cut in chunks over threads.
   The result of an element must be a correct one for its own value, whatever its position and its neighbours are. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, SequencesExt
CONSTANTS W, MaxN, Chunk, Bug, OutFile
Classes == {"in", "out", "nan"}
Good(c) == <<"right", c>>
Fast(c) == IF c = "in" THEN Good(c) ELSE <<"wrong", c>>
Slow(c) == Good(c)
VARIABLES data, contiguous, out, chunks
vars == <<data, contiguous, out, chunks>>
N == Len(data)
Least(a, b) == IF a < b THEN a ELSE b
Untouched == <<"untouched">>
Init == /\ data \in UNION {[1..n -> Classes] : n \in 0..MaxN}
        /\ contiguous \in BOOLEAN
        /\ out = [i \in 1..Len(data) |-> Untouched]
        /\ chunks = 1..((Len(data) + Chunk - 1) \div Chunk)
Valid(g) == LET s == {g[i] : i \in 1..Len(g)} IN
    CASE Bug = "first" -> g[1] = "in"
      [] Bug = "any" -> "in" \in s
      [] Bug = "notout" -> "out" \notin s        \* a comparison that is not false for NaN
      [] OTHER -> s \subseteq {"in"}
\* the results of the elements a..b (a chunk)
Loop(a, b) ==
    LET groups == IF contiguous THEN (b - a + 1) \div W ELSE 0
        edge == a + groups * W
        of(i) == IF i < edge THEN LET g0 == a + ((i - a) \div W) * W
                                      g == SubSeq(data, g0, g0 + W - 1)
                                  IN IF Valid(g) THEN Fast(data[i]) ELSE IF Bug = "mixed" THEN Slow(g[1]) ELSE Slow(data[i])
                 ELSE IF Bug = "tailfast" THEN Fast(data[i]) ELSE Slow(data[i])
    IN [i \in a..b |-> of(i)]
Run(k) == /\ k \in chunks
          /\ LET a == (k - 1) * Chunk + 1
                 b == Least(N, k * Chunk)
                 r == Loop(a, b)
             IN out' = [i \in 1..N |-> IF i >= a /\ i <= b THEN r[i] ELSE out[i]]
          /\ chunks' = chunks \ {k}
          /\ UNCHANGED <<data, contiguous>>
Next == \E k \in chunks : Run(k)
Spec == Init /\ [][Next]_vars
EachRight == /\ \A i \in 1..N : out[i] \in {Untouched, Good(data[i])}
             /\ chunks = {} => \A i \in 1..N : out[i] = Good(data[i])

\* scenarios: which elements of a group of eight are valid, where the others are, what follows
Masks == [1..8 -> {"in", "out"}]
ASSUME OutFile # "" => JsonSerialize(OutFile, [masks |-> SetToSeq(Masks)])
=============================================================================
