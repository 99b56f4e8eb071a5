------------------------------- MODULE Reduce -------------------------------
(* Reductions (property C06): the specification is the left fold; the implementation keeps LANES partial results and
   splits long inputs in chunks whose partial results are combined, which is allowed only for associative and commutative
   operations.  Values are small numbers; "min" and "max" have 3 as NaN, which wins.                                     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Ops, MaxN, Lanes, Chunk, Threshold, Threads, Bug
Dom == 0..3
NaN == 3
Apply(op, x, y) ==
    CASE op = "add" -> (x + y) % 4
      [] op = "mul" -> (x * y) % 4
      [] op = "min" -> IF x = NaN \/ y = NaN THEN NaN ELSE IF y < x THEN y ELSE x
      [] op = "max" -> IF x = NaN \/ y = NaN THEN NaN ELSE IF y > x THEN y ELSE x
      [] op = "sub" -> (x - y) % 4
      [] op = "shl" -> IF y > 1 THEN 0 ELSE (x * (1 + y)) % 4
Reorderable(op) == op \in {"add", "mul", "min", "max"}
ASSUME \A op \in Ops : Reorderable(op) <=> \A x, y, z \in Dom : /\ Apply(op, x, y) = Apply(op, y, x)
                                                               /\ Apply(op, Apply(op, x, y), z) = Apply(op, x, Apply(op, y, z))
RECURSIVE Fold(_, _, _)
Fold(op, v, s) == IF s = <<>> THEN v ELSE Fold(op, Apply(op, v, Head(s)), Tail(s))

VARIABLES op, start, data,       \* the call: start is the first element or the initial value
          split, next, part,     \* chunks claimed so far; partial results, in order of completion
          th, result
vars == <<op, start, data, split, next, part, th, result>>
None == -1
N == Len(data)
Idle == [pc |-> "idle", k |-> 0]

Init == /\ op \in Ops
        /\ start \in Dom
        /\ data \in UNION {[1..n -> Dom] : n \in 0..MaxN}
        /\ split = (Len(data) >= Threshold /\ (Reorderable(op) \/ Bug = "anysplit"))
        /\ next = 0 /\ part = <<>> /\ th = [t \in Threads |-> Idle] /\ result = None

NChunks == IF split THEN (N + Chunk - 1) \div Chunk ELSE 1
Piece(k) == IF split THEN SubSeq(data, k * Chunk + 1, IF (k + 1) * Chunk < N THEN (k + 1) * Chunk ELSE N) ELSE data

\* the partial result of a piece that is not empty: lanes first, then the lanes, then the tail
Column(s, l, groups) == [g \in 1..groups |-> s[(g - 1) * Lanes + l]]
InLanes(o, s) ==
    LET groups == Len(s) \div Lanes
        lane(l) == IF Bug = "zerolane" THEN Fold(o, 0, Column(s, l, groups)) ELSE Fold(o, s[l], Tail(Column(s, l, groups)))
        ls == [l \in 1..Lanes |-> lane(l)]
        tail == IF Bug = "notail" THEN <<>> ELSE SubSeq(s, groups * Lanes + 1, Len(s))
    IN IF groups = 0 \/ ~Reorderable(o) THEN Fold(o, Head(s), Tail(s)) ELSE Fold(o, Fold(o, ls[1], Tail(ls)), tail)

Claim(t) == /\ th[t].pc = "idle" /\ next < NChunks /\ N > 0
            /\ th' = [th EXCEPT ![t] = [pc |-> "work", k |-> next]]
            /\ next' = next + 1
            /\ UNCHANGED <<op, start, data, split, part, result>>
Work(t) == /\ th[t].pc = "work"
           /\ part' = Append(part, [k |-> th[t].k, v |-> InLanes(op, Piece(th[t].k))])
           /\ th' = [th EXCEPT ![t] = Idle]
           /\ UNCHANGED <<op, start, data, split, next, result>>
\* only a split reduction works with partial results; otherwise the elements are added to the start one by one
Combine == /\ result = None /\ (N = 0 \/ Len(part) = NChunks)
           /\ result' = IF N = 0 THEN start
                        ELSE IF split \/ Reorderable(op) THEN Fold(op, IF Bug = "dropstart" THEN part[1].v ELSE start, [i \in 1..Len(part) |-> part[i].v])
                        ELSE Fold(op, start, data)
           /\ UNCHANGED <<op, start, data, split, next, part, th>>
Next == Combine \/ \E t \in Threads : Claim(t) \/ Work(t)
Spec == Init /\ [][Next]_vars
IsFold == result # None => result = Fold(op, start, data)
=============================================================================
