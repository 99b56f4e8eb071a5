-------------------------------- MODULE Ledger --------------------------------
(* The ledger.  A hooked operation first asks whether it is to be recorded; if so it marks this, calls itself again to do the work,
   takes the mark away and writes one record.  Operations run in several threads at once (they give up the interpreter lock while they
   run), and any thread may switch the ledger on or off between its own operations.
   want is what was asked for, on is what the mechanism holds; nested depth is bounded by Depth.                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, MaxOps, MaxSwitch, Depth, Bug
VARIABLES on, want, mark, stack, saved, recs, op, n, sw, begun
vars == <<on, want, mark, stack, saved, recs, op, n, sw, begun>>
        \* stack[t]: the levels of the operation of thread t, each "ask", "work" or "timed" (called itself again)
        \* op[t]: its number; begun[k]: what was wanted at its start, and whether this was changed while it ran
Idle(t) == stack[t] = <<>>
Init == /\ on = FALSE /\ want = FALSE /\ mark = [t \in Threads |-> FALSE] /\ stack = [t \in Threads |-> <<>>] /\ saved = [t \in Threads |-> FALSE]
        /\ recs = <<>> /\ op = [t \in Threads |-> 0] /\ n = 0 /\ sw = 0 /\ begun = <<>>
Marked(t) == IF Bug = "shared" THEN \E u \in Threads : mark[u] ELSE mark[t]
Switch(t) == /\ Idle(t) /\ sw < MaxSwitch /\ sw' = sw + 1
             /\ \E v \in BOOLEAN : /\ on' = v /\ want' = v
                                   /\ begun' = [k \in 1..n |-> IF \E u \in Threads : ~Idle(u) /\ op[u] = k /\ v # want THEN [begun[k] EXCEPT !.steady = FALSE] ELSE begun[k]]
             /\ UNCHANGED <<mark, stack, saved, recs, op, n>>
Begin(t) == /\ Idle(t) /\ n < MaxOps /\ n' = n + 1
            /\ op' = [op EXCEPT ![t] = n + 1] /\ stack' = [stack EXCEPT ![t] = <<"ask">>]
            /\ begun' = Append(begun, [want |-> want, steady |-> TRUE])
            /\ UNCHANGED <<on, want, mark, saved, recs, sw>>
Top(t) == stack[t][Len(stack[t])]
SetTop(t, x) == [stack EXCEPT ![t] = [@ EXCEPT ![Len(@)] = x]]
        \* is this call to be recorded?
Ask(t) == /\ ~Idle(t) /\ Top(t) = "ask"
          /\ IF on /\ ~Marked(t) /\ Len(stack[t]) < Depth
             THEN /\ stack' = [stack EXCEPT ![t] = Append([@ EXCEPT ![Len(@)] = "timed"], "ask")]
                  /\ mark' = [mark EXCEPT ![t] = Bug \notin {"toggle", "restore", "double"}]
                  /\ on' = IF Bug \in {"toggle", "restore"} THEN FALSE ELSE on
                  /\ saved' = [saved EXCEPT ![t] = on]
             ELSE stack' = SetTop(t, "work") /\ UNCHANGED <<mark, on, saved>>
          /\ UNCHANGED <<want, recs, op, n, sw, begun>>
        \* the work is done (or gave an error) and the innermost level returns
Return(t) == /\ ~Idle(t) /\ Top(t) = "work"
             /\ \E error \in BOOLEAN :
                  stack' = [stack EXCEPT ![t] = IF Bug = "error" /\ error THEN <<>> ELSE SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<on, want, mark, saved, recs, op, n, sw, begun>>
Record(t) == /\ ~Idle(t) /\ Top(t) = "timed" 
             /\ mark' = [mark EXCEPT ![t] = IF Bug = "leave" THEN @ ELSE FALSE]
             /\ on' = CASE Bug = "toggle" -> TRUE [] Bug = "restore" -> saved[t] [] OTHER -> on
             /\ recs' = Append(recs, op[t])
             /\ stack' = [stack EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
             /\ UNCHANGED <<want, saved, op, n, sw, begun>>
Next == \E t \in Threads : Switch(t) \/ Begin(t) \/ Ask(t) \/ Return(t) \/ Record(t)
Spec == Init /\ [][Next]_vars
Fair == Spec /\ \A t \in Threads : WF_vars(Ask(t) \/ Return(t) \/ Record(t))
----
Running(k) == \E t \in Threads : ~Idle(t) /\ op[t] = k
Count(k) == Cardinality({i \in 1..Len(recs) : recs[i] = k})
        \* the setting is what was asked for last, whatever runs
Setting == on = want
        \* an operation which has ended is recorded once if the ledger was on while it ran, never if it was off
Once == \A k \in 1..n : ~Running(k) => IF begun[k].steady THEN Count(k) = (IF begun[k].want THEN 1 ELSE 0) ELSE Count(k) <= 1
Clean == \A t \in Threads : Idle(t) => ~mark[t]
Ends == \A t \in Threads : (~Idle(t)) ~> Idle(t)
=============================================================================
