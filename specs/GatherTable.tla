----------------------------- MODULE GatherTable -----------------------------
(* The row addressed by every 8-bit index, signed and unsigned, for a range of lengths; -1: out of range. *)
EXTENDS Integers, Sequences, TLC
CONSTANT Lens
VARIABLE done
Pick(s, x, n) == IF s /\ x < 0 THEN (IF x >= -n THEN x + n ELSE -1) ELSE IF x < n THEN x ELSE -1
Row(s, n) == [k \in 1..256 |-> Pick(s, IF s THEN k - 129 ELSE k - 1, n)]
Init == done = FALSE
Next == ~done /\ done' = TRUE /\ \A n \in Lens : PrintT(<<"pick", n, 1, Row(TRUE, n)>>) /\ PrintT(<<"pick", n, 0, Row(FALSE, n)>>)
Spec == Init /\ [][Next]_done
=============================================================================
