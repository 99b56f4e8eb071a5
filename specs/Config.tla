------------------------------- MODULE Config -------------------------------
(* The configuration API of pnumpy as one state machine (properties C18, C19).

   The state is what the configuration calls establish; Step(s, c) is the one
   transition function: the next state and the result (as a string) of call c
   in state s.  Computations are calls too: their result is Fresh(k), a
   constant of the computation, whatever the state - that is C19.

   The same Step is used (a) by Next, model checked below against the laws of
   the API, (b) to generate histories that are replayed on the real module and
   (c) by ConfigTrace.tla, which validates what the real module answered. *)
EXTENDS Naturals, Integers, Sequences, TLC

CONSTANTS CPUS,        \* CPUs the process may run on
          Hooked,      \* {<<ufunc name, dtype number>>}: loops atop accelerates
          DefaultMax,  \* [Hooked -> default number of workers of that loop]
          Calls        \* the calls Next may make

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

\* one worker per CPU, at most 15 of them; one of them is left to the caller
WakeLimit == Min2(15, Min2(15, CPUS) - 1)
WakeDefault == Min2(11, WakeLimit)
Clamp(n) == Min2(Max2(n, 1), WakeLimit)

InitState == [atop |-> TRUE, threads |-> TRUE, wake |-> WakeDefault, ledger |-> FALSE, recycler |-> FALSE,
              hook |-> FALSE, zig |-> FALSE, set |-> [h \in {} |-> 0]]

\* on this platform long and long long (7, 9) are one loop, and so are their unsigned versions (8, 10)
Canon(u, d) == <<u, IF d = 9 THEN 7 ELSE IF d = 10 THEN 8 ELSE d>>
Workers(s, h) == IF h \in DOMAIN s.set THEN s.set[h] ELSE DefaultMax[h]
B(b) == IF b THEN "True" ELSE "False"
R(s, r) == [s |-> s, r |-> r]
Rejection == "rejected"     \* an exception, or False from atop_setworkers

\* Which code works on the operands of a large operation, and where: NumPy's own ("plain"), pnumpy's in the calling thread
\* alone ("caller"), or with worker threads ("workers").
UfuncUses == {"add", "less", "floor", "negative"}        \* divided over the threads whenever there are any
SortUses == {"sort", "argsort"}                          \* may be divided
ExplicitUses == {"getmask", "getfancy", "colmajor"}      \* called by name
Uses == UfuncUses \cup SortUses \cup ExplicitUses \cup {"mask", "lexsort"}
Own(s, u) == IF u \in UfuncUses \cup SortUses THEN s.atop ELSE IF u = "mask" THEN s.hook ELSE TRUE
Use(s, u) == IF ~Own(s, u) THEN {"plain"}
             ELSE IF ~s.threads \/ CPUS = 1 THEN {"caller"}
             ELSE IF u \in SortUses \cup {"lexsort"} \/ s.wake < 2 THEN {"caller", "workers"} ELSE {"workers"}

\* a call is [f |-> function, u |-> ufunc, d |-> dtype, n |-> number, ok |-> well formed arguments]
Step(s, c) ==
  CASE ~c.ok -> R(s, Rejection)
    [] c.f = "atop_enable" -> R([s EXCEPT !.atop = TRUE], "None")
    [] c.f = "atop_disable" -> R([s EXCEPT !.atop = FALSE], "None")
    [] c.f = "atop_isenabled" -> R(s, B(s.atop))
    [] c.f = "thread_enable" -> R([s EXCEPT !.threads = TRUE], "None")
    [] c.f = "thread_disable" -> R([s EXCEPT !.threads = FALSE], "None")
    [] c.f = "thread_isenabled" -> R(s, B(s.threads))
    [] c.f = "enable" -> R([s EXCEPT !.atop = TRUE, !.threads = TRUE], "None")
    [] c.f = "disable" -> R([s EXCEPT !.atop = FALSE, !.threads = FALSE], "None")
    [] c.f = "thread_setworkers" -> R([s EXCEPT !.wake = Clamp(c.n)], ToString(s.wake))
    [] c.f = "thread_getworkers" -> R(s, ToString(s.wake))
    [] c.f = "thread_zigzag" -> R([s EXCEPT !.zig = ~s.zig], B(~s.zig))
    [] c.f = "ledger_enable" -> R([s EXCEPT !.ledger = TRUE], "None")
    [] c.f = "ledger_disable" -> R([s EXCEPT !.ledger = FALSE], "None")
    [] c.f = "ledger_isenabled" -> R(s, B(s.ledger))
    [] c.f = "ledger_info" -> R(s, "None")
    [] c.f = "recycler_enable" -> R([s EXCEPT !.recycler = TRUE], "None")
    [] c.f = "recycler_disable" -> R([s EXCEPT !.recycler = FALSE], "None")
    [] c.f = "recycler_isenabled" -> R(s, B(s.recycler))
    [] c.f = "recycler_info" -> R(s, "None")
    [] c.f = "hook_enable" -> R([s EXCEPT !.hook = TRUE], B(~s.hook))
    [] c.f = "hook_disable" -> R([s EXCEPT !.hook = FALSE], B(s.hook))
    [] c.f = "initialize" -> R(s, "None")
    [] c.f = "init" -> R(s, "None")
    [] c.f = "atop_setworkers" ->
         LET h == Canon(c.u, c.d) IN
         IF s.atop /\ h \in Hooked /\ c.n >= 0 /\ c.n < 64
         THEN R([s EXCEPT !.set = [x \in DOMAIN s.set \cup {h} |-> IF x = h THEN c.n ELSE s.set[x]]],
                ToString(Workers(s, h)))
         ELSE R(s, Rejection)
    [] c.f = "atop_info" ->
         LET h == Canon(c.u, c.d) IN R(s, IF h \in Hooked THEN ToString(Workers(s, h)) ELSE "False")
    [] c.f = "atop_keys" -> R(s, "same")       \* the set of accelerated loops never changes
    [] c.f = "use" -> R(s, IF Use(s, c.u) = {"plain"} THEN "plain" ELSE IF "workers" \in Use(s, c.u) THEN "workers" ELSE "caller")
    [] c.f = "compute" -> R(s, "fresh")        \* C19: what a fresh process computes, in every state

-----------------------------------------------------------------------------
VARIABLES st, last
Init == st = InitState /\ last = [c |-> [f |-> "none", u |-> "", d |-> 0, n |-> 0, ok |-> TRUE], r |-> ""]
Next == \E c \in Calls :
           /\ st' = Step(st, c).s
           /\ last' = [c |-> c, r |-> Step(st, c).r]
Spec == Init /\ [][Next]_<<st, last>>

Legal == /\ st.wake \in 0..15 /\ st.wake <= WakeLimit /\ (CPUS > 1 => st.wake >= 1)
         /\ \A h \in DOMAIN st.set : h \in Hooked /\ st.set[h] \in 0..63

C(f) == [f |-> f, u |-> "", d |-> 0, n |-> 0, ok |-> TRUE]
After(s, f) == Step(s, C(f)).s
\* laws that hold in every reachable state
Getters == \A f \in {"atop_isenabled", "thread_isenabled", "thread_getworkers", "ledger_isenabled",
                     "recycler_isenabled", "ledger_info", "recycler_info", "initialize", "init", "atop_keys", "compute"} :
              After(st, f) = st
Idempotent == \A f \in {"atop_enable", "atop_disable", "thread_enable", "thread_disable", "enable", "disable",
                        "ledger_enable", "ledger_disable", "recycler_enable", "recycler_disable", "hook_enable", "hook_disable"} :
              After(After(st, f), f) = After(st, f)
Inverse == /\ \A p \in {<<"atop_enable", "atop_disable">>, <<"thread_enable", "thread_disable">>, <<"hook_enable", "hook_disable">>,
                        <<"ledger_enable", "ledger_disable">>, <<"recycler_enable", "recycler_disable">>} :
                 /\ After(After(st, p[1]), p[2]) = After(st, p[2])
                 /\ After(After(st, p[2]), p[1]) = After(st, p[1])
           /\ After(After(st, "thread_zigzag"), "thread_zigzag") = st
SetGet == \A c \in Calls :
            (c.ok /\ c.f = "thread_setworkers") =>
              /\ Step(st, c).r = Step(st, C("thread_getworkers")).r
              /\ Step(Step(st, c).s, C("thread_getworkers")).r = ToString(Clamp(c.n))
PerLoop == \A c \in Calls :
            (c.ok /\ c.f = "atop_setworkers") =>
               LET i == [c EXCEPT !.f = "atop_info"]
                   n == Step(st, c)
               IN IF st.atop /\ <<c.u, c.d>> \in Hooked /\ c.n \in 0..63
                  THEN n.r = Step(st, i).r /\ Step(n.s, i).r = ToString(c.n)
                  ELSE n.s = st
Rejected == \A c \in Calls : ~c.ok => Step(st, c).s = st
\* a call changes nothing but the setting it names
Frame == \A c \in Calls :
           LET t == Step(st, c).s IN
             /\ (t.atop # st.atop => c.f \in {"atop_enable", "atop_disable", "enable", "disable"})
             /\ (t.threads # st.threads => c.f \in {"thread_enable", "thread_disable", "enable", "disable"})
             /\ (t.wake # st.wake => c.f = "thread_setworkers")
             /\ (t.zig # st.zig => c.f = "thread_zigzag")
             /\ (t.hook # st.hook => c.f \in {"hook_enable", "hook_disable"})
             /\ (t.ledger # st.ledger => c.f \in {"ledger_enable", "ledger_disable"})
             /\ (t.set # st.set => c.f = "atop_setworkers")
\* the settings are in force: threads and loops work if and only if they are enabled, and enabling undoes disabling
InForce == \A u \in Uses :
             /\ Use(After(st, "thread_disable"), u) \cap {"workers"} = {}
             /\ u \in UfuncUses \cup SortUses => (Use(After(st, "atop_disable"), u) = {"plain"} /\ "plain" \notin Use(After(st, "atop_enable"), u))
             /\ u = "mask" => (Use(After(st, "hook_disable"), u) = {"plain"} /\ "plain" \notin Use(After(st, "hook_enable"), u))
             /\ (u \in UfuncUses /\ st.wake > 1) => Use(After(st, "enable"), u) = {"workers"}
             /\ \A f \in {"init", "ledger_enable", "thread_zigzag", "thread_getworkers"} : Use(After(st, f), u) = Use(st, u)
Pure == \A k \in {1} : Step(st, C("compute")).r = "fresh"
=============================================================================
