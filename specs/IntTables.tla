------------------------------ MODULE IntTables ------------------------------
(* One state per operator, width and signedness.  In each TLC checks the definitions of IntSem against each other and
   writes the table of the results for every pair of values of the alphabet. *)
EXTENDS IntSem, Json, IOUtils
CONSTANTS Types,         \* set of <<name, bytes, signed>>
          Alphabet,      \* type name -> sequence of numbers (sequences of bytes)
          Ops2, Ops1,    \* the operators wanted
          OutDir, Check  \* Check: compare the two definitions (8 bits)
VARIABLES ty, op, done
vars == <<ty, op, done>>
Init == /\ ty \in Types /\ op \in Ops2 \cup Ops1 /\ done = FALSE
V(t) == Alphabet[t[1]]
Num(x) == x      \* bytes
Cell(t, a, b) == IF ~Defined2(op, t[3], V(t)[a], V(t)[b]) THEN <<>>
                 ELSE IF t[2] = 1 THEN Enc(MathBin(op, t[3], Val(t[3], V(t)[a]), Val(t[3], V(t)[b])))
                 ELSE BinOp(op, t[3], V(t)[a], V(t)[b])
\* rows only, to keep the sequences short
Table2 == [a \in 1..Len(V(ty)) |-> [b \in 1..Len(V(ty)) |-> Cell(ty, a, b)]]
Table1 == [a \in 1..Len(V(ty)) |-> IF Defined1(op, ty[3], V(ty)[a]) THEN UnOp(op, ty[3], V(ty)[a]) ELSE <<>>]
FileName == OutDir \o "/" \o op \o "-" \o ty[1] \o ".json"
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED <<ty, op>>
        /\ JsonSerialize(FileName, IF op \in Ops2 THEN Table2 ELSE Table1)
Spec == Init /\ [][Next]_vars
Agree == done => LET v == V(ty) n == Len(v) IN
    /\ (ty[2] = 1) => IF op \in Ops2 THEN \A a \in 1..n, b \in 1..n : ((a + 7 * b) % Check = 0) => Agree2(op, ty[3], v[a], v[b])
                                             ELSE \A a \in 1..n : Agree1(op, ty[3], v[a])
\* the laws are checked once for each type (in the state of the first operator)
LawsHold == (done /\ op = "add") => LET v == V(ty) n == Len(v) IN
    \A a \in 1..n, b \in 1..n : ((a + 7 * b) % (IF n > 40 THEN 16 * Check ELSE Check) = 0) => Laws(ty[3], v[a], v[b])
=============================================================================
