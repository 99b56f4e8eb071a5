----------------------------- MODULE PoolTrace -----------------------------
(* Validates executions recorded from the real worker pool (or from whole
   operations of the module) against PoolAbstract.  The items of a job are the
   integers 0..len-1; a piece is an interval <<lo, hi>>.  A job's todo set is
   the complement of the pieces begun, kept as the set of those pieces.

   Events: s submit(job)  b begin(job, start, length)  e end(job, start, length)
           r return(job)  q the execution is over      x stray access          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANT TraceFile
Traces == ndJsonDeserialize(TraceFile)     \* [jobs |-> lengths, ev |-> <<kind, thread, job, a, b>>, stuck |-> ""]

VARIABLES tr, i, phase, begun, busy, count, verdict
vars == <<tr, i, phase, begun, busy, count, verdict>>

T    == Traces[tr]
Jobs == 1..Len(T.jobs)

TInit == /\ tr \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
         /\ phase = [j \in Jobs |-> "new"]
         /\ begun = [j \in Jobs |-> {}]          \* pieces begun
         /\ busy  = [j \in Jobs |-> {}]          \* <<thread, piece>> begun, not ended
         /\ count = [j \in Jobs |-> 0]           \* items begun

Disjoint(p, S) == \A x \in S : p[2] <= x[1] \/ x[2] <= p[1]

Say(s) == verdict' = s /\ UNCHANGED <<phase, begun, busy, count>>

Step(k, t, j, a, n) ==
  LET p == <<a, a + n>> IN
  CASE k = "s" -> IF phase[j] = "new"
                  THEN phase' = [phase EXCEPT ![j] = "open"] /\ UNCHANGED <<begun, busy, count, verdict>>
                  ELSE Say("submitted twice")
    [] k = "b" -> IF phase[j] = "new" THEN Say("a piece was started before its job was submitted")
                  ELSE IF phase[j] = "returned" THEN Say("a piece was started after its job had returned")
                  ELSE IF ~(a >= 0 /\ n >= 0 /\ a + n <= T.jobs[j]) THEN Say("a piece outside of the job")
                  ELSE IF n > 0 /\ ~Disjoint(p, begun[j]) THEN Say("an element was processed twice")
                  ELSE /\ begun' = [begun EXCEPT ![j] = IF n > 0 THEN @ \cup {p} ELSE @]
                       /\ busy' = [busy EXCEPT ![j] = @ \cup {<<t, p>>}]
                       /\ count' = [count EXCEPT ![j] = @ + n]
                       /\ UNCHANGED <<phase, verdict>>
    [] k = "e" -> IF phase[j] # "open" THEN Say("a piece was still running after its job had returned")
                  ELSE IF <<t, p>> \notin busy[j] THEN Say("a piece changed while it was running")
                  ELSE busy' = [busy EXCEPT ![j] = @ \ {<<t, p>>}] /\ UNCHANGED <<phase, begun, count, verdict>>
    [] k = "r" -> IF phase[j] # "open" THEN Say("returned twice")
                  ELSE IF busy[j] # {} THEN Say("the job returned while a piece of it was running")
                  ELSE IF count[j] # T.jobs[j] THEN Say("the job returned before all of its elements were processed")
                  ELSE phase' = [phase EXCEPT ![j] = "returned"] /\ UNCHANGED <<begun, busy, count, verdict>>
    [] k = "x" -> Say("the operands were accessed after the call had returned")
    [] k = "q" -> IF \A x \in Jobs : phase[x] = "returned" THEN UNCHANGED <<phase, begun, busy, count, verdict>>
                  ELSE Say("a job did not return")
    [] OTHER   -> Say("unknown event")

TNext == /\ verdict = "ok"
         /\ i <= Len(T.ev) + 1
         /\ i' = i + 1
         /\ UNCHANGED tr
         /\ IF i <= Len(T.ev) THEN LET e == T.ev[i] IN Step(e[1], e[2], e[3], e[4], e[5])
            ELSE IF T.stuck # "" THEN Say(T.stuck) ELSE UNCHANGED <<phase, begun, busy, count, verdict>>

TSpec == TInit /\ [][TNext]_vars
Accepted == verdict = "ok"
=============================================================================
