------------------------------- MODULE Gather -------------------------------
(* Integer indexing: output row k is row Pick(index k) of the values, or the default where the index is out of range.
   Blocks of rows are taken by any thread in any order; every row is copied by bytes, words of W bytes first, then single
   bytes.  Values and index may be strided, also backwards; the output is contiguous.  Memory is a function from byte
   addresses, so that reading outside an item or writing outside the output is seen.                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Rows, Item, W, Gap, IdxGap, Back, Bits, Signed, M, Block, Threads, Bug
VARIABLES idx, todo, own, out, touched
vars == <<idx, todo, own, out, touched>>
Pow == 2 ^ Bits
Values == IF Signed THEN (-(Pow \div 2))..(Pow \div 2 - 1) ELSE 0..(Pow - 1)
Pick(x) == IF Signed /\ x < 0 THEN (IF x >= -Rows THEN x + Rows ELSE -1) ELSE IF x < Rows THEN x ELSE -1
----
(* the mechanism *)
Stride == (IF Back THEN -1 ELSE 1) * (Item + Gap)
First == IF Back THEN (Rows - 1) * (Item + Gap) ELSE 0
ByteAt(a) == LET r == a \div (Item + Gap) b == a % (Item + Gap) IN
             IF a < 0 \/ r >= Rows \/ b >= Item THEN <<"outside", a>> ELSE <<"value", IF Back THEN Rows - 1 - r ELSE r, b>>
InRange(x) == CASE Bug = "lowoff" -> x > -Rows /\ x < Rows
                [] Bug = "highoff" -> x >= -Rows /\ x <= Rows
                [] OTHER -> (Signed => x >= -Rows) /\ x < Rows
        \* an unsigned index read as signed
Seen(x) == IF Bug = "sign" /\ x >= Pow \div 2 THEN x - Pow ELSE x
Source(x, j) == LET y == Seen(x) IN
    IF InRange(y) THEN ByteAt(First + (IF y >= 0 THEN y ELSE y + Rows) * (IF Bug = "packed" THEN Item ELSE Stride) + j) ELSE <<"default", j>>
        \* the bytes of output row k, in the order they are stored: words while more than a word is left, then bytes
RECURSIVE RowBytes(_, _)
RowBytes(x, j) == IF j >= Item THEN <<>>
                  ELSE IF (IF Bug = "wordend" THEN j < Item ELSE j < Item - W)
                       THEN [q \in 1..W |-> <<j + q - 1, Source(x, j + q - 1)>>] \o RowBytes(x, j + W)
                       ELSE <<<<j, Source(x, j)>>>> \o RowBytes(x, j + 1)
IdxAt(b, k) == IF Bug = "idxadj" THEN (b * Block * IdxGap) \div 1 + k ELSE b * Block + k      \* index number read for row k of block b
Blocks == 0..((M + Block - 1) \div Block - 1)
Len_(b) == IF (b + 1) * Block <= M THEN Block ELSE M - b * Block
OutAdj(b) == IF Bug = "outstride" THEN b * Block * (Item + Gap) ELSE b * Block * Item
Init == idx \in [0..(M - 1) -> Values] /\ todo = Blocks /\ own = [t \in Threads |-> -1] /\ out = [a \in {} |-> 0] /\ touched = {}
Take(t) == own[t] = -1 /\ \E b \in todo : own' = [own EXCEPT ![t] = b] /\ todo' = todo \ {b} /\ UNCHANGED <<idx, out, touched>>
Stores(b) == LET RECURSIVE R(_)
                 R(k) == IF k = Len_(b) THEN <<>>
                         ELSE LET i == IdxAt(b, k)
                                  rb == IF i < M THEN RowBytes(idx[i], 0) ELSE <<<<0, <<"outside", i>>>>>>
                              IN [q \in 1..Len(rb) |-> <<OutAdj(b) + k * Item + rb[q][1], rb[q][2]>>] \o R(k + 1)
             IN R(0)
Do(t) == /\ own[t] # -1 /\ own' = [own EXCEPT ![t] = -1]
         /\ LET s == Stores(own[t]) IN
              /\ out' = [a \in DOMAIN out \cup {s[q][1] : q \in 1..Len(s)} |->
                           IF \E q \in 1..Len(s) : s[q][1] = a THEN s[CHOOSE q \in 1..Len(s) : s[q][1] = a /\ \A r \in (q + 1)..Len(s) : s[r][1] # a][2] ELSE out[a]]
              /\ touched' = touched \cup {s[q][2] : q \in 1..Len(s)}
         /\ UNCHANGED <<idx, todo>>
Done == todo = {} /\ \A t \in Threads : own[t] = -1
Next == \E t \in Threads : Take(t) \/ Do(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
----
NeverOutside == \A s \in touched : s[1] # "outside"
OnlyOutput == \A a \in DOMAIN out : a >= 0 /\ a < M * Item
Right == Done => /\ DOMAIN out = 0..(M * Item - 1)
                 /\ \A k \in 0..(M - 1) : \A j \in 0..(Item - 1) :
                       out[k * Item + j] = (IF Pick(idx[k]) = -1 THEN <<"default", j>> ELSE <<"value", Pick(idx[k]), j>>)
Returns == <>Done
=============================================================================
