----------------------------- MODULE PoolGuide -----------------------------
(* Schedules taken from random behaviours of WorkerPool: the order in which
   the threads take their steps, printed for the deterministic scheduler.    *)
EXTENDS WorkerPool, Json
CONSTANT HistLen
VARIABLES sched, out
GInit == Init /\ sched = <<>> /\ out = FALSE
GNext == \/ /\ Len(sched) < HistLen /\ Next
            /\ sched' = Append(sched, IF \E c \in Callers : pc'[c] # pc[c] \/ loc'[c] # loc[c]
                                      THEN CHOOSE c \in Callers : pc'[c] # pc[c] \/ loc'[c] # loc[c]
                                      ELSE CHOOSE w \in Workers : pc'[w] # pc[w] \/ loc'[w] # loc[w])
            /\ UNCHANGED out
         \/ /\ (Len(sched) = HistLen \/ ~ENABLED Next) /\ ~out
            /\ out' = TRUE /\ UNCHANGED <<vars, sched>>
GSpec == GInit /\ [][GNext]_<<vars, sched, out>>
Emit == ~out \/ PrintT(<<"SCHED", ToJson(sched)>>)
=============================================================================
