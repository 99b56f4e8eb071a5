----------------------------- MODULE UfuncScen -----------------------------
(* The shapes of calls UfuncExec distinguishes, for replay into the real code: strides of the operands, how an input lies
   relative to the output (in memory of its own, or shifted by a number of elements), and what this means for the call.
   A shape is concrete here for N elements and vectors of VW; the driver scales it to real lengths and vector widths:
   a shift is given by its relation to the vector width and the length.                                               *)
EXTENDS UfuncExec, Json, SequencesExt
CONSTANTS N, OutFile

Base == 40                                                   \* the output starts here; Size is large
Shift == {-(N + 1), -N, -(N - 1), -(VW + 1), -VW, -2, -1, 0, 1, 2, VW, VW + 1, N - 1, N, N + 1}
Rel(s) == LET m == IF s < 0 THEN -s ELSE s IN
          CASE m = 0 -> "same" [] m = 1 -> "one" [] m < VW -> "invec" [] m = VW -> "vec" [] m < N - 1 -> "beyond"
            [] m = N - 1 -> "last" [] m = N -> "touch" [] OTHER -> "apart"
Sign(s) == IF s < 0 THEN -1 ELSE 1
Ins == [own : {TRUE}, s : {0}, d : Strides \cup {0}] \cup [own : {FALSE}, s : Shift, d : Strides \cup {0}]
Place(i, far) == [a |-> IF i.own THEN far ELSE Base + i.s, d |-> i.d]
Class(x, y, d) ==
    LET o == [a |-> Base, d |-> d]
        c == [kind |-> "call", n |-> N, x |-> Place(x, 200), y |-> Place(y, 400), o |-> o]
    IN <<Private(c.x, c.o, N, TRUE), Private(c.y, c.o, N, TRUE), FeedsItself(LoopOf(c, TRUE)), d = 1, x.d = 1, y.d = 1, x.d = 0, y.d = 0>>
One(x, y, d) == [dx |-> x.d, dy |-> y.d, do |-> d, xo |-> x.own, yo |-> y.own, xs |-> <<Sign(x.s), Rel(x.s)>>,
                 ys |-> <<Sign(y.s), Rel(y.s)>>, cls |-> Class(x, y, d)]
Own == {i \in Ins : i.own}
Shapes == {One(x, y, d) : x \in Own, y \in Own, d \in Strides}
Near == {0, 1, -1}
Aliased == {One(x, y, d) : x \in Ins \ Own, y \in {i \in Own : i.d \in Near}, d \in Strides}
           \cup {One(x, y, d) : x \in {i \in Own : i.d \in Near}, y \in Ins \ Own, d \in Strides}
           \cup {One(x, y, d) : x \in {i \in Ins \ Own : i.d \in Near}, y \in {i \in Ins \ Own : i.d = 1}, d \in {1, -1}}
ASSUME JsonSerialize(OutFile, [apart |-> SetToSeq(Shapes), shared |-> SetToSeq(Aliased)])
SInit == call = 0 /\ trust = FALSE /\ mem = 0 /\ copies = 0 /\ next = 0 /\ th = 0
SSpec == SInit /\ [][UNCHANGED vars]_vars
=============================================================================
