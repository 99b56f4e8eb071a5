------------------------------- MODULE Wrapped -------------------------------
(* A function which asks its first argument for a method of the same name.  The argument may lack the method, have it, or have one
   which refuses the arguments (TypeError) or fails otherwise; the argument may know how to wrap results.  Where the method is
   missing or refuses, the argument is made an array and the result is wrapped.                                                   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Show, Bug
VARIABLES method, wraps, scalar, pc, result
vars == <<method, wraps, scalar, pc, result>>
Methods == {"none", "works", "refuses", "fails"}
Init == method \in Methods /\ wraps \in BOOLEAN /\ scalar \in BOOLEAN /\ pc = "ask" /\ result = "-"
Ask == pc = "ask" /\ UNCHANGED <<method, wraps, scalar>> /\
       CASE method = "none" -> pc' = "array" /\ UNCHANGED result
         [] method = "works" -> pc' = "done" /\ result' = "method's"
         [] method = "refuses" -> IF Bug = "raise" THEN pc' = "done" /\ result' = "TypeError" ELSE pc' = "array" /\ UNCHANGED result
         [] method = "fails" -> IF Bug = "catchall" THEN pc' = "array" /\ UNCHANGED result ELSE pc' = "done" /\ result' = "its error"
AsArray == pc = "array" /\ pc' = "wrap" /\ result' = (IF scalar THEN "scalar" ELSE "array") /\ UNCHANGED <<method, wraps, scalar>>
Wrap == pc = "wrap" /\ pc' = "done" /\ UNCHANGED <<method, wraps, scalar>>
        /\ result' = (IF wraps /\ ~(Bug = "scalar" /\ scalar) THEN "wrapped" ELSE result)
Tell == pc = "done" /\ pc' = "end" /\ (Show => PrintT(<<"shape", method, wraps, scalar, result>>)) /\ UNCHANGED <<method, wraps, scalar, result>>
Spec == Init /\ [][Ask \/ AsArray \/ Wrap \/ Tell]_vars /\ WF_vars(Ask \/ AsArray \/ Wrap \/ Tell)
----
Allowed(m, w, s) == CASE m = "works" -> "method's" [] m = "fails" -> "its error"
                      [] OTHER -> IF w THEN "wrapped" ELSE IF s THEN "scalar" ELSE "array"
AsNumPy == pc \in {"done", "end"} => result = Allowed(method, wraps, scalar)
Returns == <>(pc = "end")
=============================================================================
