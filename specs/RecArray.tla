------------------------------ MODULE RecArray ------------------------------
(* Records to columns.  The rows are cut into chunks which threads take in any order; a chunk is walked in blocks of rows small
   enough for the cache, and in a block every field is copied before the next block is begun.  Fields of some sizes are copied in
   groups of rows while more than one group is left, then row by row; other sizes in words and then bytes.
   The source is addressed by bytes, so that what is read for a column shows where it came from.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, Chunk, L1, W, Threads, Bug, Show
VARIABLES layout, todo, own, out, wr
vars == <<layout, todo, own, out, wr>>
        \* layouts: item size and fields <<offset, size>>; gaps, any order, overlapping fields, nothing but padding at the end
Layouts == { [item |-> i, f |-> fs] : i \in {2, 5, 7}, fs \in
    {<<<<0, 1>>>>, <<<<0, 2>>>>, <<<<0, 1>>, <<1, 1>>>>, <<<<1, 1>>, <<0, 1>>>>} }
  \cup { [item |-> i, f |-> fs] : i \in {5, 7}, fs \in
    {<<<<1, 4>>>>, <<<<0, 4>>, <<4, 1>>>>, <<<<1, 2>>, <<3, 2>>, <<0, 1>>>>, <<<<0, 5>>>>, <<<<0, 3>>, <<3, 2>>>>, <<<<0, 4>>, <<0, 2>>, <<2, 2>>>>, <<<<2, 3>>, <<2, 2>>>>} }
Group(size) == CASE size = 4 -> 2 [] size = 2 -> 3 [] OTHER -> 1
Cache == LET c == L1 \div (layout.item * 2) IN IF c < 1 /\ Bug # "nocache" THEN 1 ELSE c
Chunks == 0..((Rows + Chunk - 1) \div Chunk - 1)
Min(a, b) == IF a < b THEN a ELSE b
----
Addr(off, row, b) == row * layout.item + off + b
        \* stores for rows a..(e-1) of field fi: <<field, place, source address>>
RECURSIVE FieldCopy(_, _, _, _)
FieldCopy(fi, a, e, lo) ==
    LET off == layout.f[fi][1]
        size == layout.f[fi][2]
        g == Group(size)
        dst(r) == (IF Bug = "local" THEN r - lo ELSE r) * size
        One(r) == [b \in 1..size |-> <<fi, dst(r) + b - 1, Addr(IF Bug = "offset" /\ fi > 1 THEN layout.f[fi - 1][1] + layout.f[fi - 1][2] ELSE off, r, b - 1)>>]
        RECURSIVE Rows_(_, _)
        Rows_(r, n) == IF n = 0 THEN <<>> ELSE One(r) \o Rows_(r + 1, n - 1)
        RECURSIVE Words(_, _)
        Words(r, b) == IF b >= size THEN <<>>
                       ELSE LET n == IF b + W < size \/ Bug = "word" THEN W ELSE 1 IN
                            [q \in 1..n |-> <<fi, dst(r) + b + q - 1, Addr(off, r, b + q - 1)>>] \o Words(r, b + n)
    IN IF a >= e THEN <<>>
       ELSE IF size \in {1, 2, 4}
            THEN IF g > 1 /\ (IF Bug = "group" THEN a < e ELSE a < e - g) THEN Rows_(a, g) \o FieldCopy(fi, a + g, e, lo)
                 ELSE One(a) \o FieldCopy(fi, a + 1, e, lo)
            ELSE Words(a, 0) \o FieldCopy(fi, a + 1, e, lo)
RECURSIVE AllFields(_, _, _, _)
AllFields(fi, a, e, lo) == IF fi > Len(layout.f) THEN <<>> ELSE FieldCopy(fi, a, e, lo) \o AllFields(fi + 1, a, e, lo)
----
Init == layout \in Layouts /\ todo = Chunks /\ own = [t \in Threads |-> <<>>] /\ out = [k \in {} |-> 0] /\ wr = 0
Take(t) == /\ own[t] = <<>>
           /\ \E c \in todo : /\ todo' = todo \ {c}
                              /\ own' = [own EXCEPT ![t] = <<c * Chunk, IF Bug = "last" THEN (c + 1) * Chunk ELSE Min((c + 1) * Chunk, Rows), c * Chunk>>]
           /\ UNCHANGED <<layout, out, wr>>
Block(t) == /\ own[t] # <<>>
            /\ LET a == own[t][1]
                   e == own[t][2]
                   b == Min(a + Cache, e)
                   s == AllFields(1, a, b, own[t][3])
               IN /\ out' = [k \in DOMAIN out \cup {<<s[q][1], s[q][2]>> : q \in 1..Len(s)} |->
                               IF \E q \in 1..Len(s) : <<s[q][1], s[q][2]>> = k THEN s[CHOOSE q \in 1..Len(s) : <<s[q][1], s[q][2]>> = k][3] ELSE out[k]]
                  /\ wr' = wr + Len(s)
                  /\ own' = [own EXCEPT ![t] = IF b = e THEN <<>> ELSE <<b, e, own[t][3]>>]
            /\ UNCHANGED <<layout, todo>>
Done == todo = {} /\ \A t \in Threads : own[t] = <<>>
Next == \E t \in Threads : Take(t) \/ Block(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----
Wanted == UNION {{<<fi, p>> : p \in 0..(Rows * layout.f[fi][2] - 1)} : fi \in 1..Len(layout.f)}
OnlyOutput == DOMAIN out \subseteq Wanted
Once == wr = Cardinality(DOMAIN out)
Right == Done => /\ DOMAIN out = Wanted
                 /\ \A k \in Wanted : out[k] = Addr(layout.f[k[1]][1], k[2] \div layout.f[k[1]][2], k[2] % layout.f[k[1]][2])
                 /\ (Show => PrintT(<<"layout", layout.item, layout.f>>))
Returns == <>Done
=============================================================================
