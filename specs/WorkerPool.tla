----------------------------- MODULE WorkerPool ----------------------------
(* The worker pool of src/atop/threads.{h,cpp}, one shared memory access per
   step: the ring of work items, the pools of sleeping workers with their
   published and completed indices, the futex, the three ways of splitting a
   job (shared block counter, per-core channels with stealing and zig-zag,
   numbered items), any number of callers.

   Refines PoolAbstract.  The switches of Bug select wrong variants, which the
   checks run as negative controls: each must be rejected by TLC.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NW,          \* number of workers
          PoolSize,    \* workers per pool, the first pool has one less (4 in the code)
          NPools,      \* 4 in the code
          RingSize,    \* 1024 in the code
          Callers,     \* set of callers
          Program,     \* [Callers -> sequence of jobs [id, mode, len, wake]]
          ZigZagOn,    \* alternate the direction of the channels
          Bug

JobIds  == UNION {{Program[c][k].id : k \in 1..Len(Program[c])} : c \in Callers}
JobOf(i) == CHOOSE j \in UNION {{Program[c][k] : k \in 1..Len(Program[c])} : c \in Callers} : j.id = i
ItemsOf(i) == 0..(JobOf(i).len - 1)
Workers == 1..NW
Threads == Callers \cup Workers
PoolOf(w) == w \div PoolSize
Cores   == 0..NW

VARIABLES
  main,        \* MainWorkIndex
  lock,        \* ExclusiveLock
  zig,         \* pParams->ZigZag
  pool,        \* [0..NPools-1 -> [wi, done]]
  ring,        \* [0..RingSize-1 -> item]
  pc,          \* [Threads -> label]
  loc,         \* [Threads -> local variables]
  jobk,        \* [Callers -> index of the current job]
  phase, todo, busy,   \* the abstract view, kept by the steps below
  faults       \* history: what went wrong (must stay empty)

vars == <<main, lock, zig, pool, ring, pc, loc, jobk, phase, todo, busy, faults>>
abs  == <<phase, todo, busy, faults>>

NoJob == 0
Item0 == [wi |-> 0, users |-> 0, job |-> NoJob, mode |-> "c", wake |-> 0, last |-> 0,
          next |-> 0, comp |-> 0, zz |-> 0, chan |-> [i \in Cores |-> [cur |-> 0, last |-> 0]]]
Loc0  == [wi |-> 0, s |-> 0, b |-> 0, did |-> FALSE, core |-> 0, i |-> 0, blk |-> 0, tries |-> 0, p |-> 0]

Init == /\ main = 0 /\ lock = 0 /\ zig = (IF ZigZagOn THEN 3 ELSE 0)
        /\ pool = [p \in 0..(NPools-1) |-> [wi |-> 0, done |-> 0]]
        /\ ring = [s \in 0..(RingSize-1) |-> Item0]
        /\ pc = [t \in Threads |-> IF t \in Callers THEN "next" ELSE "w_read"]
        /\ loc = [t \in Threads |-> IF t \in Callers THEN Loc0 ELSE [Loc0 EXCEPT !.core = t]]
        /\ jobk = [c \in Callers |-> 1]
        /\ phase = [j \in JobIds |-> "new"]
        /\ todo = [j \in JobIds |-> ItemsOf(j)]
        /\ busy = [j \in JobIds |-> {}]
        /\ faults = {}

asleep == {w \in Workers : pc[w] = "w_asleep"}      \* blocked in the futex

Go(t, l)  == pc' = [pc EXCEPT ![t] = l]
Set(t, r) == loc' = [loc EXCEPT ![t] = r]
L(t) == loc[t]
It(t) == ring[L(t).s]
Upd(s, r) == ring' = [ring EXCEPT ![s] = r]
Cur(c) == Program[c][jobk[c]]

-----------------------------------------------------------------------------
(* What the callbacks do, seen from outside *)
Unpublished(j) == \E c \in Callers : jobk[c] <= Len(Program[c]) /\ Cur(c).id = j /\ pc[c] \in {"c_fill", "c_fill2", "c_fill3"}
BeginItem(j, b) ==
  IF j \notin JobIds THEN /\ faults' = faults \cup {"no job"} /\ UNCHANGED <<phase, todo, busy>>
  ELSE /\ faults' = faults \cup (IF phase[j] # "open" THEN {<<"outside of the call", j>>} ELSE {})
                           \cup (IF Unpublished(j) THEN {<<"not published yet", j>>} ELSE {})
                           \cup (IF b \notin todo[j] THEN {<<"item not to be processed", j, b>>} ELSE {})
       /\ todo' = [todo EXCEPT ![j] = @ \ {b}]
       /\ busy' = [busy EXCEPT ![j] = @ \cup (IF b \in todo[j] THEN {b} ELSE {})]
       /\ UNCHANGED phase
EndItem(j, b) ==
  IF j \notin JobIds THEN UNCHANGED abs
  ELSE /\ busy' = [busy EXCEPT ![j] = @ \ {b}]
       /\ faults' = faults \cup (IF phase[j] # "open" THEN {<<"still running", j>>} ELSE {})
       /\ UNCHANGED <<phase, todo>>

-----------------------------------------------------------------------------
(* DoWork, run by the caller as core 0 and by the workers *)

\* shared counters: modes "c" (chunks) and "n" (numbered items)
\* a counter that has reached its end may as well stay there: every test is against the end
Cap(x, m) == IF x > m /\ Bug # "nousers" THEN m ELSE x
Out(t) == IF t \in Callers THEN "c_wait" ELSE "w_dec"
D_take(t) ==
  /\ pc[t] = "d_take" /\ (Bug = "lostupdate" => It(t).mode = "w")
  /\ LET s == L(t).s it == ring[s] IN
     IF it.mode \in {"c", "n"}
     THEN /\ Upd(s, [it EXCEPT !.next = Cap(@ + 1, it.last)])
          /\ IF it.next < it.last                           \* against BlockLast
             THEN Set(t, [L(t) EXCEPT !.blk = IF it.mode = "n" THEN it.next - 1 ELSE it.next]) /\ Go(t, "d_begin")
             ELSE Set(t, [L(t) EXCEPT !.p = 0]) /\ Go(t, Out(t))
     ELSE /\ UNCHANGED ring                                \* "w": own channel first
          /\ Set(t, [L(t) EXCEPT !.i = IF t \in Callers THEN 0 ELSE L(t).core, !.p = 0])
          /\ Go(t, "d_chan")
  /\ UNCHANGED <<main, lock, zig, pool, jobk, phase, todo, busy, faults>>

\* a wrong variant: the increment is a load and a store
D_lost(t) ==
  /\ Bug = "lostupdate"
  /\ \/ /\ pc[t] = "d_take" /\ It(t).mode # "w"
        /\ Set(t, [L(t) EXCEPT !.b = It(t).next]) /\ Go(t, "d_take2") /\ UNCHANGED ring
     \/ /\ pc[t] = "d_take2"
        /\ Upd(L(t).s, [It(t) EXCEPT !.next = L(t).b + 1])
        /\ IF L(t).b < It(t).last
           THEN Set(t, [L(t) EXCEPT !.blk = IF It(t).mode = "n" THEN L(t).b - 1 ELSE L(t).b]) /\ Go(t, "d_begin")
           ELSE Set(t, [L(t) EXCEPT !.p = 0]) /\ Go(t, Out(t))
  /\ UNCHANGED <<main, lock, zig, pool, jobk, phase, todo, busy, faults>>

D_chan(t) ==      \* GetNextWorkBlockCoreInternal(i): fetch and add
  /\ pc[t] = "d_chan"
  /\ LET s == L(t).s it == ring[s] i == L(t).i IN
       /\ Upd(s, [it EXCEPT !.chan[i].cur = Cap(@ + 1, it.chan[i].last)])
       /\ Set(t, [L(t) EXCEPT !.b = it.chan[i].cur])
       /\ Go(t, "d_chan2")
  /\ UNCHANGED <<main, lock, zig, pool, jobk, phase, todo, busy, faults>>

D_chan2(t) ==
  /\ pc[t] = "d_chan2"
  /\ LET s == L(t).s it == ring[s] i == L(t).i b == L(t).b
         b2 == IF it.zz % 2 = 1 THEN it.chan[i].last - b - 1 ELSE b IN
       IF b < it.chan[i].last
       THEN /\ Upd(s, [it EXCEPT !.next = @ + 1])
            /\ Set(t, [L(t) EXCEPT !.blk = b2 * (it.wake + 1) + i, !.b = 0, !.i = 0, !.p = 0])
            /\ Go(t, "d_begin")
       ELSE /\ Go(t, "d_steal")
            /\ Set(t, [L(t) EXCEPT !.b = 0])
            /\ UNCHANGED ring
  /\ UNCHANGED <<main, lock, zig, pool, jobk, phase, todo, busy, faults>>

D_steal(t) ==     \* own channel is done: anything left, then the other channels in order
  /\ pc[t] = "d_steal"
  /\ LET it == It(t)
         from == IF L(t).p = 0 THEN 0 ELSE L(t).i + 1
         own == IF t \in Callers THEN 0 ELSE L(t).core
         nxt == IF from = own THEN from + 1 ELSE from IN
       IF (L(t).p = 0 /\ it.next >= it.last) \/ nxt > it.wake
       THEN Go(t, Out(t)) /\ Set(t, [L(t) EXCEPT !.p = 0, !.i = 0])
       ELSE Go(t, "d_chan") /\ Set(t, [L(t) EXCEPT !.i = nxt, !.p = 1])
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

D_begin(t) ==
  /\ pc[t] = "d_begin"
  /\ IF Bug = "countfirst"
     THEN Upd(L(t).s, [It(t) EXCEPT !.comp = @ + 1])
     ELSE UNCHANGED ring
  /\ BeginItem(It(t).job, L(t).blk)
  /\ Set(t, [L(t) EXCEPT !.p = It(t).job])
  /\ Go(t, "d_end")
  /\ UNCHANGED <<main, lock, zig, pool, jobk>>

D_end(t) ==
  /\ pc[t] = "d_end"
  /\ EndItem(L(t).p, L(t).blk)
  /\ Go(t, "d_count")
  /\ Set(t, [L(t) EXCEPT !.did = t \in Workers, !.blk = 0, !.p = 0])
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk>>

D_count(t) ==     \* CompleteWorkBlock
  /\ pc[t] = "d_count"
  /\ IF Bug = "countfirst" \/ (Bug = "uncounted" /\ t \in Workers) THEN UNCHANGED ring
     ELSE Upd(L(t).s, [It(t) EXCEPT !.comp = @ + 1])
  /\ Go(t, "d_take")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

-----------------------------------------------------------------------------
(* Worker thread *)
W_read(w) ==
  /\ pc[w] = "w_read"
  /\ Set(w, [Loc0 EXCEPT !.core = w, !.wi = pool[PoolOf(w)].wi])
  /\ Go(w, "w_read2")
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

W_read2(w) ==
  /\ pc[w] = "w_read2"
  /\ LET new == L(w).wi > pool[PoolOf(w)].done
         from == L(w).wi IN
       /\ Set(w, [L(w) EXCEPT !.s = IF new THEN from % RingSize ELSE 0])
       /\ Go(w, IF new /\ Bug = "mainindex" THEN "w_slot" ELSE IF ~new THEN "w_sleep" ELSE IF Bug = "nousers" THEN "w_check" ELSE "w_inc")
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

\* a wrong variant: the item is looked up with the newest index of the ring
W_slot(w) ==
  /\ pc[w] = "w_slot"
  /\ Set(w, [L(w) EXCEPT !.s = main % RingSize])
  /\ Go(w, "w_inc")
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

W_inc(w) ==
  /\ pc[w] = "w_inc"
  /\ Upd(L(w).s, [It(w) EXCEPT !.users = @ + 1])
  /\ Go(w, "w_check")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

W_check(w) ==
  /\ pc[w] = "w_check"
  /\ LET it == It(w) same == Bug \in {"nousers", "mainindex", "nocheck"} \/ it.wi = L(w).wi IN
       Go(w, IF same /\ w <= it.wake THEN "d_take" ELSE IF Bug = "nousers" THEN "w_sleep" ELSE "w_dec")
  /\ UNCHANGED <<main, lock, zig, pool, ring, loc, jobk, phase, todo, busy, faults>>

W_dec(w) ==
  /\ pc[w] = "w_dec"
  /\ IF Bug = "nousers" THEN UNCHANGED ring ELSE Upd(L(w).s, [It(w) EXCEPT !.users = @ - 1])
  /\ Go(w, IF L(w).did THEN "w_read" ELSE "w_sleep")
  /\ Set(w, [Loc0 EXCEPT !.core = w, !.wi = IF L(w).did THEN 0 ELSE L(w).wi])
  /\ UNCHANGED <<main, lock, zig, pool, jobk, phase, todo, busy, faults>>

W_sleep(w) ==     \* FUTEX_WAIT compares and sleeps atomically
  /\ pc[w] = "w_sleep"
  /\ Go(w, IF pool[PoolOf(w)].wi = L(w).wi THEN "w_asleep" ELSE "w_read")
  /\ Set(w, [Loc0 EXCEPT !.core = w])
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

-----------------------------------------------------------------------------
(* Caller *)
C_next(c) ==
  /\ pc[c] = "next" /\ jobk[c] <= Len(Program[c])
  /\ phase' = [phase EXCEPT ![Cur(c).id] = "open"]
  /\ Set(c, [Loc0 EXCEPT !.blk = 0])
  /\ Go(c, IF Cur(c).mode = "i" THEN "c_inline"                    \* below the threshold, or threading off
           ELSE IF Cur(c).mode = "n" THEN "c_get" ELSE "c_lock")
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, todo, busy, faults>>

C_lock(c) ==
  /\ pc[c] = "c_lock"
  /\ lock' = 1
  /\ Go(c, IF lock = 0 THEN "c_get" ELSE "c_inline")
  /\ UNCHANGED <<main, zig, pool, ring, loc, jobk, phase, todo, busy, faults>>

C_get(c) ==
  /\ pc[c] = "c_get"
  /\ main' = main + 1
  /\ Set(c, [L(c) EXCEPT !.wi = main + 1, !.s = (main + 1) % RingSize, !.tries = @ + 1])
  /\ Go(c, IF Bug = "nousers" THEN "c_setwi" ELSE "c_claim")
  /\ UNCHANGED <<lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

C_claim(c) ==
  /\ pc[c] = "c_claim"
  /\ Upd(L(c).s, [It(c) EXCEPT !.users = @ + 1])
  /\ Go(c, IF It(c).users = 0 THEN "c_setwi" ELSE "c_unclaim")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

C_unclaim(c) ==
  /\ pc[c] = "c_unclaim"
  /\ Upd(L(c).s, [It(c) EXCEPT !.users = @ - 1])
  /\ Go(c, IF L(c).tries < RingSize THEN "c_get" ELSE "c_none")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

C_none(c) ==
  /\ pc[c] = "c_none"
  /\ IF Cur(c).mode = "n" THEN UNCHANGED lock ELSE lock' = 0
  /\ Go(c, "c_inline")
  /\ UNCHANGED <<main, zig, pool, ring, loc, jobk, phase, todo, busy, faults>>

C_setwi(c) ==
  /\ pc[c] = "c_setwi"
  /\ Upd(L(c).s, [It(c) EXCEPT !.wi = L(c).wi, !.zz = zig])
  /\ IF Cur(c).mode = "n" THEN UNCHANGED lock ELSE lock' = 0
  /\ Go(c, IF Cur(c).mode = "g" THEN (IF Bug = "leak" THEN "c_inline" ELSE "c_giveback")
           ELSE IF Bug = "publishfirst" THEN "c_pub" ELSE "c_fill")
  /\ UNCHANGED <<main, zig, pool, loc, jobk, phase, todo, busy, faults>>

\* WorkMain fills the item: three groups of stores
C_fill(c) ==
  /\ pc[c] \in {"c_fill", "c_fill2", "c_fill3", "c_fill2", "c_fill3"}
  /\ LET th == Cur(c).wake + 1
         last == IF Cur(c).mode = "n" THEN Cur(c).len + 1 ELSE Cur(c).len
         next == IF Cur(c).mode = "n" /\ Bug # "counterzero" THEN 1 ELSE 0
         chan == [i \in Cores |-> [cur |-> 0, last |-> IF i < th THEN last \div th + (IF i < last % th THEN 1 ELSE 0) ELSE 0]] IN
       CASE pc[c] = "c_fill" ->        \* callback, argument, TotalElements, ThreadWakeup
              /\ Upd(L(c).s, [It(c) EXCEPT !.job = Cur(c).id, !.mode = Cur(c).mode, !.wake = Cur(c).wake])
              /\ Go(c, "c_fill2")
         [] pc[c] = "c_fill2" ->       \* BlockLast, BlocksCompleted
              /\ Upd(L(c).s, [It(c) EXCEPT !.last = last, !.comp = 0])
              /\ Go(c, "c_fill3")
         [] OTHER ->                   \* BlockNext, BlockSize, the channels
              /\ Upd(L(c).s, [It(c) EXCEPT !.next = next, !.chan = chan])
              /\ Go(c, IF Bug = "publishfirst" THEN "d_take" ELSE "c_pub")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

\* SetWorkItem: for each pool concerned, store the index, then wake
WakeCount(p) == IF p = 0 THEN PoolSize - 1 ELSE PoolSize
MaxPool(k)   == IF k > NW THEN 0 ELSE k \div PoolSize          \* last pool concerned by k wake-ups
C_pub(c) ==
  /\ pc[c] = "c_pub"
  /\ pool' = [pool EXCEPT ![L(c).p].wi = L(c).wi]
  /\ zig' = IF L(c).p = 0 /\ zig # 0 THEN (IF zig % 2 = 1 THEN zig - 1 ELSE zig + 1) ELSE zig
  /\ Go(c, "c_wakeup")
  /\ UNCHANGED <<main, lock, ring, loc, jobk, phase, todo, busy, faults>>

C_wakeup(c) ==
  /\ pc[c] = "c_wakeup"
  /\ LET p == L(c).p
         sl == {w \in asleep : PoolOf(w) = p}
         last == MaxPool(Cur(c).wake) 
         n == IF last = 0 THEN Cur(c).wake ELSE WakeCount(p)
         k == IF n < Cardinality(sl) THEN n ELSE Cardinality(sl) IN
       /\ \E ws \in {x \in SUBSET sl : Cardinality(x) = k} :
            pc' = [t \in Threads |-> IF t \in ws THEN "w_read" ELSE IF t # c THEN pc[t]
                                     ELSE IF p < last THEN "c_pub" ELSE IF Bug = "publishfirst" THEN "c_fill" ELSE "d_take"]
       /\ Set(c, [L(c) EXCEPT !.p = IF p < last THEN p + 1 ELSE 0])
  /\ UNCHANGED <<main, lock, zig, pool, ring, jobk, phase, todo, busy, faults>>

C_wait(c) ==
  /\ pc[c] = "c_wait"
  /\ It(c).comp >= Cur(c).len \/ Bug = "nowait"
  /\ Go(c, "c_done")
  /\ UNCHANGED <<main, lock, zig, pool, ring, loc, jobk, phase, todo, busy, faults>>

C_done(c) ==      \* CompleteWorkItem: Completed of each pool concerned
  /\ pc[c] = "c_done"
  /\ pool' = [pool EXCEPT ![L(c).p].done = It(c).wi]
  /\ IF L(c).p < MaxPool(Cur(c).wake) THEN Set(c, [L(c) EXCEPT !.p = @ + 1]) /\ UNCHANGED pc
     ELSE Go(c, "c_clear") /\ UNCHANGED loc
  /\ UNCHANGED <<main, lock, zig, ring, jobk, phase, todo, busy, faults>>

Returned(c) ==
  /\ LET j == Cur(c).id IN
       /\ faults' = faults \cup (IF todo[j] # {} THEN {<<"items left", j>>} ELSE {})
                           \cup (IF busy[j] # {} THEN {<<"items still running", j>>} ELSE {})
       /\ phase' = [phase EXCEPT ![j] = "returned"]
  /\ jobk' = [jobk EXCEPT ![c] = @ + 1]
  /\ Go(c, "next") /\ Set(c, Loc0)

C_clear(c) ==
  /\ pc[c] = "c_clear"
  /\ Upd(L(c).s, [It(c) EXCEPT !.wi = 0])
  /\ Go(c, "c_release")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

C_release(c) ==
  /\ pc[c] = "c_release"
  /\ IF Bug = "nousers" THEN UNCHANGED ring ELSE Upd(L(c).s, [It(c) EXCEPT !.users = @ - 1])
  /\ Returned(c)
  /\ UNCHANGED <<main, lock, zig, pool, todo, busy>>

\* mode "g": the caller got an item, then finds that the operation cannot be split
C_giveback(c) ==
  /\ pc[c] \in {"c_giveback", "c_giveback2"}
  /\ IF pc[c] = "c_giveback" THEN Upd(L(c).s, [It(c) EXCEPT !.wi = 0]) /\ Go(c, "c_giveback2")
     ELSE Upd(L(c).s, [It(c) EXCEPT !.users = @ - 1]) /\ Go(c, "c_inline")
  /\ UNCHANGED <<main, lock, zig, pool, loc, jobk, phase, todo, busy, faults>>

C_inline(c) ==    \* the caller does it all itself: begins everything, ends everything, returns
  /\ pc[c] \in {"c_inline", "c_inline2", "c_inline3"}
  /\ LET j == Cur(c).id IN
       CASE pc[c] = "c_inline" -> /\ Go(c, "c_inline2") /\ UNCHANGED <<loc, jobk, phase, faults>>
                                  /\ todo' = [todo EXCEPT ![j] = {}] /\ busy' = [busy EXCEPT ![j] = todo[j]]
         [] pc[c] = "c_inline2" -> /\ Go(c, "c_inline3") /\ UNCHANGED <<loc, jobk, phase, faults, todo>>
                                   /\ busy' = [busy EXCEPT ![j] = {}]
         [] OTHER -> Returned(c) /\ UNCHANGED <<todo, busy>>
  /\ UNCHANGED <<main, lock, zig, pool, ring>>

-----------------------------------------------------------------------------
DoWork(t) == D_take(t) \/ D_lost(t) \/ D_chan(t) \/ D_chan2(t) \/ D_steal(t) \/ D_begin(t) \/ D_end(t) \/ D_count(t)
WStep(w)  == W_slot(w) \/ W_read(w) \/ W_read2(w) \/ W_inc(w) \/ W_check(w) \/ W_dec(w) \/ W_sleep(w) \/ DoWork(w)
CStep(c)  == C_next(c) \/ C_lock(c) \/ C_get(c) \/ C_claim(c) \/ C_unclaim(c) \/ C_none(c) \/ C_setwi(c)
             \/ C_fill(c) \/ C_pub(c) \/ C_wakeup(c) \/ C_wait(c) \/ C_done(c) \/ C_clear(c)
             \/ C_release(c) \/ C_inline(c) \/ C_giveback(c) \/ DoWork(c)
Next == (\E c \in Callers : CStep(c)) \/ (\E w \in Workers : WStep(w))

Spec == Init /\ [][Next]_vars /\ (\A c \in Callers : WF_vars(CStep(c))) /\ (\A w \in Workers : WF_vars(WStep(w)))

-----------------------------------------------------------------------------
(* Properties *)
NoFaults  == faults = {}
AllDone   == \A j \in JobIds : phase[j] = "returned"
Covered   == \A j \in JobIds : phase[j] = "returned" => todo[j] = {} /\ busy[j] = {}
\* the slot of a job is its own from the claim to the release
Owned     == \A c, d \in Callers : c # d /\ pc[c] \in {"c_setwi", "c_fill", "c_fill2", "c_fill3", "c_pub", "c_wakeup",
               "c_wait", "c_done", "c_clear", "c_release", "d_take", "d_chan", "d_chan2", "d_steal", "d_begin", "d_end", "d_count"}
               /\ pc[d] \in {"c_setwi", "c_fill", "c_fill2", "c_fill3", "c_pub", "c_wakeup", "c_wait", "c_done", "c_clear",
               "c_release", "d_take", "d_chan", "d_chan2", "d_steal", "d_begin", "d_end", "d_count"} => L(c).s # L(d).s
UsersBack == AllDone /\ asleep = Workers => \A s \in 0..(RingSize-1) : ring[s].users = 0 /\ ring[s].wi = 0
\* every caller comes back, and the workers go back to sleep (no lost wake-up, no livelock)
Terminates == <>AllDone
Quiet      == <>[](asleep = Workers)

Abstract == INSTANCE PoolAbstract WITH Jobs <- JobIds, Items <- ItemsOf, phase <- phase, todo <- todo, busy <- busy
Refines  == Abstract!ASpec
=============================================================================
