---------------------------- MODULE ConfigTrace ----------------------------
(* Validates histories recorded from the real module: every recorded answer
   must be the one Config!Step gives in the state the history has reached.   *)
EXTENDS Config, Json

CONSTANT TraceFile

Traces == ndJsonDeserialize(TraceFile)      \* each: [ev |-> <<[f,u,d,n,ok,r]>>]

VARIABLES tr, i, verdict

TInit == Init /\ tr \in 1..Len(Traces) /\ i = 1 /\ verdict = "ok"
Ev == Traces[tr].ev[i]
Call(e) == [f |-> e.f, u |-> e.u, d |-> e.d, n |-> e.n, ok |-> e.ok]
TNext == /\ verdict = "ok"
         /\ i <= Len(Traces[tr].ev)
         /\ LET x == Step(st, Call(Ev)) IN
              /\ st' = x.s
              /\ verdict' = IF x.r = Ev.r \/ (Ev.f = "use" /\ Ev.r \in Use(st, Ev.u)) THEN "ok" ELSE "specification says " \o x.r
         /\ i' = i + 1
         /\ UNCHANGED <<tr, last>>
TSpec == TInit /\ [][TNext]_<<tr, i, st, last, verdict>>
Matches == verdict = "ok"
=============================================================================
