----------------------------- MODULE UfuncExec -----------------------------
(* How one ufunc call or accumulate is executed on memory (properties C01-C04, C07): NumPy's overlap rule, then the inner
   loop: scalar, vectorized in groups of VW, or split in chunks over threads.
   An operand is a start and a stride in cells; the memory may be shared by operands in any way.
   The specification of a call (Expected): every output element is the operation applied to the elements the inputs had
   before the call, nothing else changes.  Of an accumulate: every output element is the operation applied to the output
   element before it and the input element.  TLC checks Exact: every execution ends in Expected.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Size,       \* cells of memory, 0 .. Size-1
          MaxN, Steps, \* strides are Steps and their negatives
          VW,         \* elements of a vector
          Chunk,      \* elements of a chunk (a multiple of VW or not)
          Threshold,  \* least length that is split over threads
          Threads,    \* set of threads
          Binary,     \* do calls have a second input of their own?
          Bug

Fn(x, y) == (x * 37 + y * 101 + 13) % 8191          \* stands for any operation: equal results mean equal arguments here

Addr(o, i) == o.a + i * o.d
Inside(o, n) == n = 0 \/ (Addr(o, 0) \in 0..(Size - 1) /\ Addr(o, n - 1) \in 0..(Size - 1))
Strides == Steps \cup {-s : s \in Steps}
Operands(n) == {o \in [a : 0..(Size - 1), d : Strides] : Inside(o, n)}
Scalars == {[a |-> p, d |-> 0] : p \in 0..(Size - 1)}
Distinct(o, n) == o.d # 0 \/ n <= 1
Cells(o, n) == {Addr(o, i) : i \in 0..(n - 1)}

\* what the user asks for
Calls(n) == {[kind |-> "call", n |-> n, x |-> x, y |-> y, o |-> o] :
               x \in Operands(n) \cup Scalars, y \in (IF Binary THEN Operands(n) ELSE {}) \cup {[a |-> 0, d |-> 0]}, o \in {p \in Operands(n) : Distinct(p, n)}}
Accumulates(n) == {[kind |-> "acc", n |-> n, x |-> x, y |-> x, o |-> o] : x \in Operands(n), o \in {p \in Operands(n) : Distinct(p, n)}}

M0 == [p \in 0..(Size - 1) |-> p + 1]
RECURSIVE Acc(_, _, _)
Acc(c, m, i) == IF i = 0 THEN m[Addr(c.x, 0)] ELSE Fn(Acc(c, m, i - 1), m[Addr(c.x, i)])
Expected(c, m) ==
    [p \in DOMAIN m |->
       IF p \in Cells(c.o, c.n) THEN
         LET i == CHOOSE i \in 0..(c.n - 1) : Addr(c.o, i) = p
         IN IF c.kind = "call" THEN Fn(m[Addr(c.x, i)], m[Addr(c.y, i)]) ELSE Acc(c, m, i)
       ELSE m[p]]

----------------------------------------------------------------------------
(* NumPy's front end: an input that shares cells with the output other than element by element is copied first. *)
Shares(i, o, n) == Cells(i, n) \cap Cells(o, n) # {}
SameElements(i, o) == i.a = o.a /\ i.d = o.d
(* It may leave the copy out when going through the elements in order gives the right answer anyway (Trust). *)
InOrder(i, o) == (i.d > 0 /\ i.d >= o.d /\ i.a >= o.a) \/ (i.d < 0 /\ i.d <= o.d /\ i.a <= o.a)
Private(i, o, n, tr) == Shares(i, o, n) /\ ~SameElements(i, o) /\ ~(tr /\ InOrder(i, o)) /\ Bug # "nocopy"
(* The operands of the inner loop: memory 0 is the shared one, memories 1 and 2 are the copies of the inputs. *)
Op(o, m) == [a |-> o.a, d |-> o.d, m |-> m]
LoopOf(c, tr) ==
    IF c.kind = "call" THEN
      [x |-> Op(c.x, IF Private(c.x, c.o, c.n, tr) THEN 1 ELSE 0), y |-> Op(c.y, IF Private(c.y, c.o, c.n, tr) THEN 2 ELSE 0), o |-> Op(c.o, 0), n |-> c.n]
    ELSE  \* the first element is stored by NumPy, the loop adds to each the next: its first input is its own output, one behind
      [x |-> Op(c.o, 0), y |-> [a |-> c.x.a + c.x.d, d |-> c.x.d, m |-> IF Shares(c.x, c.o, c.n) /\ ~SameElements(c.x, c.o) THEN 1 ELSE 0],
       o |-> [a |-> c.o.a + c.o.d, d |-> c.o.d, m |-> 0], n |-> IF c.n = 0 THEN 0 ELSE c.n - 1]

(* The inner loop may be vectorized or split only if no element reads what another element writes. *)
FeedsItself(l) == \E i \in 0..(l.n - 1), j \in 0..(l.n - 1) : i # j /\ ((l.x.m = 0 /\ Addr(l.x, i) = Addr(l.o, j)) \/ (l.y.m = 0 /\ Addr(l.y, i) = Addr(l.o, j)))
Careful(l) == FeedsItself(l) /\ Bug # "feeds"
Split(l) == ~Careful(l) /\ l.n >= Threshold
Group(l) == IF Careful(l) THEN 1 ELSE VW
NChunks(l) == IF l.n = 0 THEN 0 ELSE IF Split(l) THEN (l.n + Chunk - 1) \div Chunk ELSE 1
First(l, k) == IF Split(l) THEN k * Chunk ELSE 0
Last(l, k) == IF Split(l) THEN (IF (k + 1) * Chunk < l.n THEN (k + 1) * Chunk ELSE l.n) ELSE l.n    \* one past

VARIABLES call, trust, mem, copies, next, th
vars == <<call, trust, mem, copies, next, th>>
Idle == [pc |-> "idle", p |-> 0, e |-> 0, k |-> 0, reg |-> <<>>]

Init == /\ \E n \in 0..MaxN : call \in Calls(n) \cup Accumulates(n)
        /\ trust \in BOOLEAN
        /\ (trust => \E i \in {call.x, call.y} : InOrder(i, call.o) /\ ~SameElements(i, call.o) /\ Shares(i, call.o, call.n))
        /\ mem = IF call.kind = "acc" /\ call.n > 0 THEN [M0 EXCEPT ![call.o.a] = M0[call.x.a]] ELSE M0
        /\ copies = M0
        /\ next = 0
        /\ th = [t \in Threads |-> Idle]

L == LoopOf(call, trust)
Read(o, i) == IF o.m = 0 THEN mem[Addr(o, i)] ELSE copies[Addr(o, i)]

Claim(t) == /\ th[t].pc = "idle" /\ next < NChunks(L)
            /\ next' = next + 1
            /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "load", !.p = First(L, next), !.e = Last(L, next)]]
            /\ UNCHANGED <<call, trust, mem, copies>>

\* elements the next group processes
Take(s) == LET left == s.e - s.p IN
           IF left >= Group(L) THEN Group(L)
           ELSE IF Bug = "overrun" THEN Group(L) ELSE IF Bug = "tail" /\ Group(L) > 1 THEN 0 ELSE 1
Load(t) == /\ th[t].pc = "load"
           /\ LET s == th[t] g == Take(s) IN
              IF s.p >= s.e \/ g = 0
              THEN th' = [th EXCEPT ![t] = Idle]
              ELSE th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "store", !.k = g,
                     !.reg = [q \in 1..g |-> IF {Addr(L.x, s.p + q - 1), Addr(L.y, s.p + q - 1)} \subseteq 0..(Size - 1)
                                             THEN Fn(Read(L.x, s.p + q - 1), Read(L.y, s.p + q - 1)) ELSE 0]]]
           /\ UNCHANGED <<call, trust, mem, copies, next>>
Store(t) == /\ th[t].pc = "store"
            /\ LET s == th[t]
                   d == IF Bug = "outstride" /\ s.k > 1 THEN 1 ELSE L.o.d
                   w == {q \in 1..s.k : L.o.a + (s.p + q - 1) * d \in 0..(Size - 1)} IN
               /\ mem' = [p \in DOMAIN mem |-> IF \E q \in w : L.o.a + (s.p + q - 1) * d = p
                                              THEN s.reg[CHOOSE q \in w : L.o.a + (s.p + q - 1) * d = p] ELSE mem[p]]
               /\ th' = [th EXCEPT ![t] = [@ EXCEPT !.pc = "load", !.p = @ + s.k, !.reg = <<>>]]
            /\ UNCHANGED <<call, trust, copies, next>>
Next == \E t \in Threads : Claim(t) \/ Load(t) \/ Store(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Returned == next = NChunks(L) /\ \A t \in Threads : th[t].pc = "idle"
Exact == Returned => mem = Expected(call, M0)
Frame == \A p \in DOMAIN mem : p \notin Cells(call.o, call.n) => mem[p] = M0[p]
Ends == <>Returned
=============================================================================
