------------------------------ MODULE BoolIndex ------------------------------
(* Boolean indexing in two passes over chunks which any number of threads may take in any order:
   pass 1 counts the true items of every chunk, the caller turns the counts into starting positions, allocates the result
   and pass 2 copies the chosen rows of every chunk from its starting position on.  Either pass may be done by the
   caller alone, who then gets the whole length in one call and must still use one chunk count per chunk.
   Counting adds vectors of Lanes bytes into counters which hold at most Cap, so that at most Cap vectors are added
   before they are emptied.  Copying looks at words of Word mask bytes and skips a word without a true byte.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Chunk, Word, Lanes, Cap, Threads, Bug, Show
VARIABLES mask, ph, todo, own, cnt, start, out, wr, par
vars == <<mask, ph, todo, own, cnt, start, out, wr, par>>
Chunks == 0..(((IF N > 1 THEN N ELSE 1) + Chunk - 1) \div Chunk - 1)
Lo(c) == c * Chunk
Hi(c) == IF (c + 1) * Chunk < N THEN (c + 1) * Chunk ELSE N
True(a, b) == {k \in a..(b - 1) : mask[k + 1]}
Selected == LET RECURSIVE Sel(_)
                Sel(k) == IF k > N THEN <<>> ELSE (IF mask[k] THEN <<k - 1>> ELSE <<>>) \o Sel(k + 1)
            IN Sel(1)
----
(* counting one stretch: groups of Cap vectors of Lanes counters, then the bytes which do not fill a vector *)
Min(a, b) == IF a < b THEN a ELSE b
Wrap(x) == x % (Cap + 1)
RECURSIVE SumLanes(_, _, _, _)
SumLanes(a, v, it, l) == IF l = Lanes THEN 0
                         ELSE Wrap(Cardinality({j \in 0..(it - 1) : mask[a + (v + j) * Lanes + l + 1]})) + SumLanes(a, v, it, l + 1)
RECURSIVE CountVec(_, _, _)
CountVec(a, v, nv) == IF v >= nv THEN 0
                      ELSE LET it == IF Bug = "cap" THEN nv - v ELSE Min(nv - v, Cap) IN SumLanes(a, v, it, 0) + CountVec(a, v + it, nv)
Count(a, b) == LET nv == (b - a) \div Lanes
                   t == IF Bug = "tail" THEN a + nv * Lanes + 1 ELSE a + nv * Lanes
               IN CountVec(a, 0, nv) + Cardinality(True(t, b))
----
(* copying one stretch from output position p: what is written where.  k is the next mask byte, v the next row: they are
   advanced separately in the code *)
RECURSIVE Copy(_, _, _, _)          \* b end
Copy(k, v, p, b) ==
    IF k >= b THEN <<>>
    ELSE IF b - k >= Word
         THEN LET w == True(k, k + Word) IN
              IF w = {} THEN Copy(k + Word, v + (IF Bug = "skip" THEN Word - 1 ELSE Word), p, b)
              ELSE LET RECURSIVE One(_, _)
                       One(j, q) == IF j = Word THEN <<>> ELSE (IF mask[k + j + 1] THEN <<<<q, v + j>>>> ELSE <<>>) \o One(j + 1, IF mask[k + j + 1] THEN q + 1 ELSE q)
                   IN One(0, p) \o Copy(k + Word, v + Word, p + Cardinality(w), b)
         ELSE (IF mask[k + 1] THEN <<<<p, v>>>> ELSE <<>>) \o Copy(k + 1, v + 1, IF mask[k + 1] THEN p + 1 ELSE p, b)
----
Init == /\ mask \in [1..N -> BOOLEAN] /\ ph = "count" /\ par \in [1..2 -> BOOLEAN]
        /\ todo = Chunks /\ own = [t \in Threads |-> -1] /\ cnt = [c \in Chunks |-> IF N = 0 THEN 0 ELSE -1] /\ start = [c \in Chunks |-> -1]
        /\ out = [k \in {} |-> 0] /\ wr = 0
Pass == IF ph = "count" THEN 1 ELSE 2
Take(t) == /\ ph \in {"count", "copy"} /\ par[Pass] /\ own[t] = -1
           /\ \E c \in todo : own' = [own EXCEPT ![t] = c] /\ todo' = todo \ {c}
           /\ UNCHANGED <<mask, ph, cnt, start, out, wr, par>>
Put(ws, o) == [k \in DOMAIN o \cup {ws[j][1] : j \in 1..Len(ws)} |->
                 IF \E j \in 1..Len(ws) : ws[j][1] = k THEN ws[CHOOSE j \in 1..Len(ws) : ws[j][1] = k][2] ELSE o[k]]
Do(t) == /\ own[t] # -1 /\ own' = [own EXCEPT ![t] = -1]
         /\ LET c == own[t] IN
              IF ph = "count" THEN cnt' = [cnt EXCEPT ![c] = Count(Lo(c), Hi(c))] /\ UNCHANGED <<out, wr>>
              ELSE LET ws == Copy(Lo(c), Lo(c), start[c], Hi(c)) IN out' = Put(ws, out) /\ wr' = wr + Len(ws) /\ UNCHANGED cnt
         /\ UNCHANGED <<mask, ph, todo, start, par>>
        \* the caller alone: one call for everything
Alone == /\ ph \in {"count", "copy"} /\ ~par[Pass] /\ todo # {} /\ todo' = {}
         /\ IF ph = "count"
            THEN /\ cnt' = IF Bug = "onecount" THEN [cnt EXCEPT ![0] = Count(0, N)] ELSE [c \in Chunks |-> IF N = 0 THEN 0 ELSE Count(Lo(c), Hi(c))]
                 /\ UNCHANGED <<out, wr>>
            ELSE LET ws == Copy(0, 0, start[0], N) IN out' = Put(ws, out) /\ wr' = wr + Len(ws) /\ UNCHANGED cnt
         /\ UNCHANGED <<mask, ph, own, start, par>>
Idle == todo = {} /\ (Bug = "early" \/ \A t \in Threads : own[t] = -1)
RECURSIVE Before(_)
Before(c) == IF c = 0 THEN 0 ELSE Before(c - 1) + cnt[c - 1]
Total == Before(Cardinality(Chunks))
Prefix == /\ ph = "count" /\ Idle
          /\ start' = [c \in Chunks |-> IF Bug = "inclusive" THEN Before(c + 1) ELSE Before(c)]
          /\ IF Total > 0 THEN ph' = "copy" /\ todo' = Chunks ELSE ph' = "done" /\ todo' = {}
          /\ UNCHANGED <<mask, own, cnt, out, wr, par>>
Finish == /\ ph = "copy" /\ Idle /\ ph' = "done" /\ UNCHANGED <<mask, todo, own, cnt, start, out, wr, par>>
          /\ (Show => PrintT(<<"mask", [k \in 1..N |-> IF mask[k] THEN 1 ELSE 0], Selected>>))
Next == \E t \in Threads : Take(t) \/ Do(t)
Spec == Init /\ [][Next \/ Alone \/ Prefix \/ Finish]_vars /\ WF_vars(Next \/ Alone \/ Prefix \/ Finish)
----
Right == ph = "done" => Total = Len(Selected) /\ DOMAIN out = 0..(Total - 1) /\ \A k \in DOMAIN out : out[k] = Selected[k + 1]
Once == wr = Cardinality(DOMAIN out)                             \* no place of the result is written twice
Inside == ph \in {"copy", "done"} => \A k \in DOMAIN out : k >= 0 /\ k < Total
NoLateWrite == ph = "done" => \A t \in Threads : own[t] = -1
Returns == <>(ph = "done")
=============================================================================
