----------------------------- MODULE LedgerTrace -----------------------------
(* Recorded histories with the ledger: ev, the calls with what was written.  call: the name; op events carry the name, type,
   category and number of items asked for (name a set of aliases; loops the number of inner loops, 0 if unknown), rec the records seen
   after the call (name, type, length, category), same whether the result was that of the operation without a ledger.        *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLES i, k, on, fly, changed
Range(s) == {s[j] : j \in 1..Len(s)}
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1].len + Sum(Tail(s))
Fits(e, r) == r.op \in Range(e.names) /\ r.type = e.type /\ r.cat \in Range(e.cats)
Own(e) == /\ \A j \in 1..Len(e.rec) : Fits(e, e.rec[j])
          /\ Len(e.rec) = e.loops
          /\ Sum(e.rec) \in Range(e.total)
Ok(e) == CASE e.call = "op" -> e.same /\ IF on THEN Own(e) ELSE e.rec = <<>>
           [] e.call = "end" -> e.same /\ CASE changed -> e.rec = <<>> \/ Own(e) [] fly = 1 -> Own(e) [] OTHER -> e.rec = <<>>
           [] e.call = "ask" -> e.answer = on /\ e.rec = <<>>
           [] OTHER -> e.rec = <<>>
Ev == Trace[i].ev
Valid == i > Len(Trace) \/ k > Len(Ev) \/ Ok(Ev[k])
TInit == i = 1 /\ k = 1 /\ on = FALSE /\ fly = 0 /\ changed = FALSE
Step == LET e == Ev[k] IN
        /\ k' = k + 1 /\ i' = i
        /\ on' = CASE e.call = "enable" -> TRUE [] e.call = "disable" -> FALSE [] OTHER -> on
        /\ fly' = CASE e.call = "begin" -> (IF on THEN 1 ELSE 2) [] e.call = "end" -> 0 [] OTHER -> fly
        /\ changed' = IF e.call = "begin" THEN FALSE ELSE changed \/ on' # on
TNext == i <= Len(Trace) /\ IF k <= Len(Ev) THEN Step ELSE i' = i + 1 /\ k' = 1 /\ on' = FALSE /\ fly' = 0 /\ changed' = FALSE
TSpec == TInit /\ [][TNext]_<<i, k, on, fly, changed>>
=============================================================================
