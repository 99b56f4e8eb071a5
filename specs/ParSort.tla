------------------------------- MODULE ParSort -------------------------------
(* The parallel sort: threads claim pieces, sort them, and whoever finishes the second of two neighbours merges them, up to the
   root; the call returns when every piece has been reported complete.  Items are known by their first position, so that
   stability can be seen.  Bug selects a wrong variant: the invariants must reject each of them.                     *)
EXTENDS SortTree
CONSTANTS Keys, Threads, Some, Bug
VARIABLES key, data, ws, next, bits, done, pc, nd, a, b, o
vars == <<key, data, ws, next, bits, done, pc, nd, a, b, o>>
K(i) == key[i]
        \* Some = {}: every assignment of keys; else the assignments i -> (i*m + c) mod (Keys+1) for 10*m + c in Some
Inputs == IF Some = {} THEN [0..(N - 1) -> 0..Keys] ELSE {[i \in 0..(N - 1) |-> (i * (m \div 10) + (m % 10)) % (Keys + 1)] : m \in Some}
Init == /\ key \in Inputs /\ data = [i \in 0..(N - 1) |-> i] /\ ws = [i \in 0..(Leaves * Chunk - 1) |-> -1]
        /\ next = 0 /\ bits = {} /\ done = 0
        /\ pc = [t \in Threads |-> "idle"] /\ nd = [t \in Threads |-> <<0, 0>>]
        /\ a = [t \in Threads |-> 0] /\ b = [t \in Threads |-> 0] /\ o = [t \in Threads |-> 0]
WsOf(x) == IF Bug = "wsunscaled" THEN x[2] * Chunk ELSE WsLo(x)
Claim(t) == /\ pc[t] = "idle" /\ next < Leaves
            /\ nd' = [nd EXCEPT ![t] = <<0, next>>] /\ next' = next + 1 /\ pc' = [pc EXCEPT ![t] = "sort"]
            /\ UNCHANGED <<key, data, ws, bits, done, a, b, o>>
RECURSIVE Ins(_, _)
Less(x, y) == K(x) < K(y) \/ (K(x) = K(y) /\ x < y)
Ins(s, S) == IF S = {} THEN s ELSE LET m == CHOOSE x \in S : \A y \in S : x = y \/ Less(x, y) IN Ins(Append(s, m), S \ {m})
SortPiece(t) ==
    /\ pc[t] = "sort"
    /\ LET lo == Lo(nd[t]) hi == Hi(nd[t]) s == Ins(<<>>, {data[i] : i \in lo..(hi - 1)}) IN
       data' = [i \in 0..(N - 1) |-> IF lo <= i /\ i < hi THEN s[i - lo + 1] ELSE data[i]]
    /\ pc' = [pc EXCEPT ![t] = IF Bug = "early" THEN "report" ELSE "mark"]
    /\ UNCHANGED <<key, ws, next, bits, done, nd, a, b, o>>
Buddy(x) == <<x[1], IF x[2] % 2 = 0 THEN x[2] + 1 ELSE x[2] - 1>>
Up(x) == <<x[1] + 1, x[2] \div 2>>
Mark(t) ==
    /\ pc[t] = "mark"
    /\ bits' = IF Bug = "race" THEN bits ELSE bits \cup {nd[t]}
    /\ IF nd[t][1] < Levels /\ Buddy(nd[t]) \in bits
       THEN nd' = [nd EXCEPT ![t] = Up(nd[t])] /\ pc' = [pc EXCEPT ![t] = IF Bug = "race" THEN "set" ELSE "check"]
       ELSE pc' = [pc EXCEPT ![t] = IF Bug = "race" THEN "set" ELSE IF Bug = "early" THEN "idle" ELSE "report"] /\ UNCHANGED nd
    /\ UNCHANGED <<key, data, ws, next, done, a, b, o>>
Set(t) ==  \* the test and the set of a racy mark
    /\ pc[t] = "set"
    /\ LET up == nd[t][1] > 0 /\ \E j \in {2 * nd[t][2], 2 * nd[t][2] + 1} : <<nd[t][1] - 1, j>> \notin bits IN
       IF up THEN /\ bits' = bits \cup {<<nd[t][1] - 1, 2 * nd[t][2]>>, <<nd[t][1] - 1, 2 * nd[t][2] + 1>>} /\ pc' = [pc EXCEPT ![t] = "check"]
       ELSE bits' = bits \cup {nd[t]} /\ pc' = [pc EXCEPT ![t] = "report"]
    /\ UNCHANGED <<key, data, ws, next, done, nd, a, b, o>>
Check(t) ==      \* two halves already in order need no merge
    /\ pc[t] = "check"
    /\ LET m == Mid(nd[t]) l == IF Bug = "skip" THEN Lo(nd[t]) ELSE m - 1
           inorder == m >= Hi(nd[t]) \/ m <= Lo(nd[t]) \/ K(data[m]) >= K(data[l]) IN
       pc' = [pc EXCEPT ![t] = IF inorder THEN "mark" ELSE "copy"]
    /\ UNCHANGED <<key, data, ws, next, bits, done, nd, a, b, o>>
Copy(t) ==
    /\ pc[t] = "copy"
    /\ LET lo == Lo(nd[t]) h == WsNeed(nd[t]) w == WsOf(nd[t]) IN
       /\ ws' = [i \in DOMAIN ws |-> IF w <= i /\ i < w + h THEN data[lo + i - w] ELSE ws[i]]
       /\ a' = [a EXCEPT ![t] = 0] /\ b' = [b EXCEPT ![t] = Mid(nd[t])] /\ o' = [o EXCEPT ![t] = lo]
    /\ pc' = [pc EXCEPT ![t] = "merge"]
    /\ UNCHANGED <<key, data, next, bits, done, nd>>
Merge(t) ==
    /\ pc[t] = "merge"
    /\ LET w == WsOf(nd[t]) h == WsNeed(nd[t]) hi == Hi(nd[t]) IN
       IF a[t] >= h THEN pc' = [pc EXCEPT ![t] = "mark"] /\ UNCHANGED <<data, a, b, o>>
       ELSE LET left == b[t] >= hi \/ (IF Bug = "tie" THEN K(ws[w + a[t]]) < K(data[b[t]]) ELSE K(ws[w + a[t]]) <= K(data[b[t]])) IN
            /\ data' = [data EXCEPT ![o[t]] = IF left THEN ws[w + a[t]] ELSE data[b[t]]]
            /\ a' = IF left THEN [a EXCEPT ![t] = @ + 1] ELSE a
            /\ b' = IF left THEN b ELSE [b EXCEPT ![t] = @ + 1]
            /\ o' = [o EXCEPT ![t] = @ + 1]
            /\ UNCHANGED pc
    /\ UNCHANGED <<key, ws, next, bits, done, nd>>
Report(t) == /\ pc[t] = "report" /\ done' = done + 1 /\ pc' = [pc EXCEPT ![t] = IF Bug = "early" THEN "mark" ELSE "idle"]
             /\ UNCHANGED <<key, data, ws, next, bits, nd, a, b, o>>
Step(t) == Claim(t) \/ SortPiece(t) \/ Mark(t) \/ Set(t) \/ Check(t) \/ Copy(t) \/ Merge(t) \/ Report(t)
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
---------------------------------------------------------------------------
Returned == done = Leaves
SortedStable == Returned => \A i \in 0..(N - 2) : Less(data[i], data[i + 1])     \* strict on <<key, position>>: a permutation too
        \* two threads never touch the same items or the same workspace
Busy(t) == pc[t] \in {"sort", "check", "copy", "merge"}
Apart(l1, h1, l2, h2) == h1 <= l2 \/ h2 <= l1
Disjoint == \A t, u \in Threads : t # u /\ Busy(t) /\ Busy(u) =>
                /\ Apart(Lo(nd[t]), Hi(nd[t]), Lo(nd[u]), Hi(nd[u]))
                /\ Apart(WsOf(nd[t]), WsOf(nd[t]) + WsNeed(nd[t]), WsOf(nd[u]), WsOf(nd[u]) + WsNeed(nd[u]))
ChildrenReady == \A t \in Threads : pc[t] = "check" =>
                   \A i \in Lo(nd[t])..(Hi(nd[t]) - 2) : i + 1 # Mid(nd[t]) => Less(data[i], data[i + 1])
NotAfterReturn == Returned => \A t \in Threads : ~Busy(t)
Returns == <>Returned
=============================================================================
