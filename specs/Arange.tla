-------------------------------- MODULE Arange --------------------------------
(* Filling an array whose first two values are there: item k becomes first + k * (second - first), every operation rounded; blocks
   are taken by threads in any order, and every thread reads the first two items from the array itself while the others write.
   Arithmetic has P significant bits (P = 0: exact; Mod > 0: wraps), so that first + 1 * delta may differ from second.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Block, Threads, P, Mod, Span, Unsigned, Bug
VARIABLES first, second, buf, todo, own
vars == <<first, second, buf, todo, own>>
Lo == IF Unsigned THEN 0 ELSE -Span
Hi == IF Unsigned THEN 2 * Span - 1 ELSE IF Mod > 0 THEN Span - 1 ELSE Span
Unset == -1000000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Ulp(_, _)
Ulp(x, u) == IF x < 2 ^ P * u THEN u ELSE Ulp(x, 2 * u)
Rnd(x) == IF Mod > 0 THEN ((x - Lo) % Mod) + Lo
          ELSE IF P = 0 THEN x
          ELSE LET a == Abs(x)
                   u == Ulp(a, 1)
                   q == a \div u
                   r == a % u
                   up == (2 * r > u) \/ (2 * r = u /\ q % 2 = 1)
                   y == (IF up THEN q + 1 ELSE q) * u
               IN IF x < 0 THEN -y ELSE y
At(f, s, k) == Rnd(f + Rnd(k * Rnd(s - f)))
Want(k) == IF k = 0 THEN first ELSE IF k = 1 THEN second ELSE At(first, second, k)
----
Blocks == 0..((N + Block - 1) \div Block - 1)
Min(a, b) == IF a < b THEN a ELSE b
Init == /\ first \in {Rnd(x) : x \in Lo..Hi} /\ second \in {Rnd(x) : x \in Lo..Hi}
        /\ buf = [k \in 0..(N - 1) |-> IF k = 0 THEN first ELSE IF k = 1 THEN second ELSE Unset]
        /\ todo = Blocks /\ own = [t \in Threads |-> <<>>]
Take(t) == /\ own[t] = <<>> /\ \E b \in todo : own' = [own EXCEPT ![t] = <<b, "read">>] /\ todo' = todo \ {b}
           /\ UNCHANGED <<first, second, buf>>
        \* read the two values, then write item by item
Read(t) == /\ own[t] # <<>> /\ Len(own[t]) = 2
           /\ LET b == own[t][1]
                  k0 == b * Block
              IN own' = [own EXCEPT ![t] = <<b, buf[0], buf[1], IF Bug = "rewrite" \/ k0 >= 2 THEN k0 ELSE 2, 0>>]
           /\ UNCHANGED <<first, second, buf, todo>>
Write(t) == /\ Len(own[t]) = 5
            /\ LET b == own[t][1]
                   f == own[t][2]
                   s == own[t][3]
                   k == own[t][4]
                   e == IF Bug = "last" THEN Min((b + 1) * Block, N - 1) ELSE Min((b + 1) * Block, N)
               IN IF k >= e THEN own' = [own EXCEPT ![t] = <<>>] /\ UNCHANGED buf
                  ELSE /\ k < N
                       /\ buf' = [buf EXCEPT ![k] = CASE Bug = "restart" -> At(f, s, k - b * Block)
                                                      [] Bug = "add" /\ k > 2 /\ buf[k - 1] # Unset -> Rnd(buf[k - 1] + Rnd(s - f))
                                                      [] OTHER -> At(f, s, k)]
                       /\ own' = [own EXCEPT ![t][4] = k + 1]
            /\ UNCHANGED <<first, second, todo>>
Done == todo = {} /\ \A t \in Threads : own[t] = <<>>
Next == \E t \in Threads : Take(t) \/ Read(t) \/ Write(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Right == Done => \A k \in 0..(N - 1) : buf[k] = Want(k)
Returns == <>Done
=============================================================================
