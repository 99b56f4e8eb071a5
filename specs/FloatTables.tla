----------------------------- MODULE FloatTables -----------------------------
(* One state per operator: the laws of FloatSem are checked and the table of the results is written. *)
EXTENDS FloatSem, Json, SequencesExt
CONSTANTS Ops2, Ops1, OutDir
VARIABLES op, done
Vals == SetToSeq(Values)
Init == op \in Ops2 \cup Ops1 /\ done = FALSE
N == Len(Vals)
Short(x) == <<x.k, x.s, x.n, x.d>>
Out == [alphabet |-> [i \in 1..N |-> Short(Vals[i])],
        table |-> IF op \in Ops2 THEN [i \in 1..N |-> [j \in 1..N |-> Short(BinF(op, Vals[i], Vals[j]))]]
                  ELSE [i \in 1..N |-> Short(UnF(op, Vals[i]))]]
Next == ~done /\ done' = TRUE /\ UNCHANGED op /\ JsonSerialize(OutDir \o "/f-" \o op \o ".json", Out)
Spec == Init /\ [][Next]_<<op, done>>
LawsHold == done => /\ \A x \in Values, y \in Values : (x # y \/ TRUE) => LawsF(x, y)
                    /\ \A x \in Values : LawsU(x)
=============================================================================
