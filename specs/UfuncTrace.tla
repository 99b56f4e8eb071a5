----------------------------- MODULE UfuncTrace -----------------------------
(* Validates recorded calls of the real ufuncs on 8 bit integers: the memory before, the operands, the memory after.
   Fn of UfuncExec is replaced by the operation of the record (IntSem), the rest of Expected is used as it is.       *)
EXTENDS UfuncExec, Json
CONSTANT TraceFile
Trace == ndJsonDeserialize(TraceFile)
VARIABLE i
I == INSTANCE IntSem
R == Trace[i]
FnT(x, y) == I!MathBin(R.op, R.sg, x, y)
Image(s) == [p \in 0..(Len(s) - 1) |-> s[p + 1]]
Valid == i > Len(Trace) \/ Expected([kind |-> R.kind, n |-> R.n, x |-> R.x, y |-> R.y, o |-> R.o], Image(R.before)) = Image(R.after)
TInit == i = 1 /\ call = 0 /\ trust = FALSE /\ mem = 0 /\ copies = 0 /\ next = 0 /\ th = 0
TNext == i <= Len(Trace) /\ i' = i + 1 /\ UNCHANGED vars
TSpec == TInit /\ [][TNext]_<<i, vars>>
=============================================================================
