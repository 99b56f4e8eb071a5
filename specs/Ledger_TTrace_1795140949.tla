---- MODULE Ledger_TTrace_1795140949 ----
EXTENDS Sequences, TLCExt, Toolbox, Ledger, Naturals, TLC

_expression ==
    LET Ledger_TEExpression == INSTANCE Ledger_TEExpression
    IN Ledger_TEExpression!expression
----

_trace ==
    LET Ledger_TETrace == INSTANCE Ledger_TETrace
    IN Ledger_TETrace!trace
----

_inv ==
    ~(
        TLCGet("level") = Len(_TETrace)
        /\
        op = (<<1, 2>>)
        /\
        stack = (<<<<"timed", "ask">>, <<>>>>)
        /\
        sw = (1)
        /\
        saved = (<<TRUE, FALSE>>)
        /\
        recs = (<<>>)
        /\
        want = (TRUE)
        /\
        begun = (<<[want |-> TRUE, steady |-> TRUE], [want |-> TRUE, steady |-> TRUE]>>)
        /\
        mark = (<<TRUE, FALSE>>)
        /\
        n = (2)
        /\
        on = (TRUE)
    )
----

_init ==
    /\ recs = _TETrace[1].recs
    /\ on = _TETrace[1].on
    /\ mark = _TETrace[1].mark
    /\ op = _TETrace[1].op
    /\ n = _TETrace[1].n
    /\ sw = _TETrace[1].sw
    /\ want = _TETrace[1].want
    /\ saved = _TETrace[1].saved
    /\ begun = _TETrace[1].begun
    /\ stack = _TETrace[1].stack
----

_next ==
    /\ \E i,j \in DOMAIN _TETrace:
        /\ \/ /\ j = i + 1
              /\ i = TLCGet("level")
        /\ recs  = _TETrace[i].recs
        /\ recs' = _TETrace[j].recs
        /\ on  = _TETrace[i].on
        /\ on' = _TETrace[j].on
        /\ mark  = _TETrace[i].mark
        /\ mark' = _TETrace[j].mark
        /\ op  = _TETrace[i].op
        /\ op' = _TETrace[j].op
        /\ n  = _TETrace[i].n
        /\ n' = _TETrace[j].n
        /\ sw  = _TETrace[i].sw
        /\ sw' = _TETrace[j].sw
        /\ want  = _TETrace[i].want
        /\ want' = _TETrace[j].want
        /\ saved  = _TETrace[i].saved
        /\ saved' = _TETrace[j].saved
        /\ begun  = _TETrace[i].begun
        /\ begun' = _TETrace[j].begun
        /\ stack  = _TETrace[i].stack
        /\ stack' = _TETrace[j].stack

\* Uncomment the ASSUME below to write the states of the error trace
\* to the given file in Json format. Note that you can pass any tuple
\* to `JsonSerialize`. For example, a sub-sequence of _TETrace.
    \* ASSUME
    \*     LET J == INSTANCE Json
    \*         IN J!JsonSerialize("Ledger_TTrace_1795140949.json", _TETrace)

=============================================================================

 Note that you can extract this module `Ledger_TEExpression`
  to a dedicated file to reuse `expression` (the module in the 
  dedicated `Ledger_TEExpression.tla` file takes precedence 
  over the module `Ledger_TEExpression` below).

---- MODULE Ledger_TEExpression ----
EXTENDS Sequences, TLCExt, Toolbox, Ledger, Naturals, TLC

expression == 
    [
        \* To hide variables of the `Ledger` spec from the error trace,
        \* remove the variables below.  The trace will be written in the order
        \* of the fields of this record.
        recs |-> recs
        ,on |-> on
        ,mark |-> mark
        ,op |-> op
        ,n |-> n
        ,sw |-> sw
        ,want |-> want
        ,saved |-> saved
        ,begun |-> begun
        ,stack |-> stack
        
        \* Put additional constant-, state-, and action-level expressions here:
        \* ,_stateNumber |-> _TEPosition
        \* ,_recsUnchanged |-> recs = recs'
        
        \* Format the `recs` variable as Json value.
        \* ,_recsJson |->
        \*     LET J == INSTANCE Json
        \*     IN J!ToJson(recs)
        
        \* Lastly, you may build expressions over arbitrary sets of states by
        \* leveraging the _TETrace operator.  For example, this is how to
        \* count the number of times a spec variable changed up to the current
        \* state in the trace.
        \* ,_recsModCount |->
        \*     LET F[s \in DOMAIN _TETrace] ==
        \*         IF s = 1 THEN 0
        \*         ELSE IF _TETrace[s].recs # _TETrace[s-1].recs
        \*             THEN 1 + F[s-1] ELSE F[s-1]
        \*     IN F[_TEPosition - 1]
    ]

=============================================================================



Parsing and semantic processing can take forever if the trace below is long.
 In this case, it is advised to uncomment the module below to deserialize the
 trace from a generated binary file.

\*
\*---- MODULE Ledger_TETrace ----
\*EXTENDS IOUtils, Ledger, TLC
\*
\*trace == IODeserialize("Ledger_TTrace_1795140949.bin", TRUE)
\*
\*=============================================================================
\*

---- MODULE Ledger_TETrace ----
EXTENDS Ledger, TLC

trace == 
    <<
    ([op |-> <<0, 0>>,stack |-> <<<<>>, <<>>>>,sw |-> 0,saved |-> <<FALSE, FALSE>>,recs |-> <<>>,want |-> FALSE,begun |-> <<>>,mark |-> <<FALSE, FALSE>>,n |-> 0,on |-> FALSE]),
    ([op |-> <<0, 0>>,stack |-> <<<<>>, <<>>>>,sw |-> 1,saved |-> <<FALSE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<>>,mark |-> <<FALSE, FALSE>>,n |-> 0,on |-> TRUE]),
    ([op |-> <<1, 0>>,stack |-> <<<<"ask">>, <<>>>>,sw |-> 1,saved |-> <<FALSE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<[want |-> TRUE, steady |-> TRUE]>>,mark |-> <<FALSE, FALSE>>,n |-> 1,on |-> TRUE]),
    ([op |-> <<1, 0>>,stack |-> <<<<"timed", "ask">>, <<>>>>,sw |-> 1,saved |-> <<TRUE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<[want |-> TRUE, steady |-> TRUE]>>,mark |-> <<TRUE, FALSE>>,n |-> 1,on |-> TRUE]),
    ([op |-> <<1, 2>>,stack |-> <<<<"timed", "ask">>, <<"ask">>>>,sw |-> 1,saved |-> <<TRUE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<[want |-> TRUE, steady |-> TRUE], [want |-> TRUE, steady |-> TRUE]>>,mark |-> <<TRUE, FALSE>>,n |-> 2,on |-> TRUE]),
    ([op |-> <<1, 2>>,stack |-> <<<<"timed", "ask">>, <<"work">>>>,sw |-> 1,saved |-> <<TRUE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<[want |-> TRUE, steady |-> TRUE], [want |-> TRUE, steady |-> TRUE]>>,mark |-> <<TRUE, FALSE>>,n |-> 2,on |-> TRUE]),
    ([op |-> <<1, 2>>,stack |-> <<<<"timed", "ask">>, <<>>>>,sw |-> 1,saved |-> <<TRUE, FALSE>>,recs |-> <<>>,want |-> TRUE,begun |-> <<[want |-> TRUE, steady |-> TRUE], [want |-> TRUE, steady |-> TRUE]>>,mark |-> <<TRUE, FALSE>>,n |-> 2,on |-> TRUE])
    >>
----


=============================================================================

---- CONFIG Ledger_TTrace_1795140949 ----
CONSTANTS
    Threads = { 1 , 2 }
    MaxOps = 3
    MaxSwitch = 3
    Depth = 3
    Bug = "shared"

INVARIANT
    _inv

CHECK_DEADLOCK
    \* CHECK_DEADLOCK off because of PROPERTY or INVARIANT above.
    FALSE

INIT
    _init

NEXT
    _next

CONSTANT
    _TETrace <- _trace

ALIAS
    _expression
=============================================================================
\* Generated on Fri Nov 20 02:15:49 UTC 2026