------------------------------ MODULE LedgerGen ------------------------------
(* Histories of one thread and of a second thread with one long operation, with what each step must record.
   Step gives the state after a call and what the call must record: "none", "own" (its own record), "may" (a record or not).    *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Length, Calls, Long
VARIABLES on, fly, changed, hist, done
vars == <<on, fly, changed, hist, done>>
        \* fly: 0 no long operation under way, 1 begun while on, 2 begun while off
Ans(c) == CASE c \in {"op", "bad", "many"} -> IF on THEN "own" ELSE "none"
            [] c = "end" -> IF changed THEN "may" ELSE IF fly = 1 THEN "own" ELSE "none"
            [] c = "ask" -> IF on THEN "yes" ELSE "no"
            [] OTHER -> "none"
Can(c) == CASE c = "begin" -> Long /\ fly = 0 [] c = "end" -> fly # 0 [] OTHER -> TRUE
Init == on = FALSE /\ fly = 0 /\ changed = FALSE /\ hist = <<>> /\ done = FALSE
Call(c) == /\ Can(c) /\ Len(hist) < Length /\ hist' = Append(hist, <<c, Ans(c)>>)
           /\ on' = CASE c = "enable" -> TRUE [] c = "disable" -> FALSE [] OTHER -> on
           /\ fly' = CASE c = "begin" -> (IF on THEN 1 ELSE 2) [] c = "end" -> 0 [] OTHER -> fly
           /\ changed' = IF c = "begin" THEN FALSE ELSE changed \/ on' # on
           /\ UNCHANGED done
Stop == Len(hist) = Length /\ fly = 0 /\ ~done /\ done' = TRUE /\ (Long => \E k \in 1..Length : hist[k][1] = "begin")
        /\ PrintT(<<"HIST", ToJson(hist)>>) /\ UNCHANGED <<on, fly, changed, hist>>
Next == Stop \/ \E c \in Calls : Call(c)
Spec == Init /\ [][Next]_vars
=============================================================================
