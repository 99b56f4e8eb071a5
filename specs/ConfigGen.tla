------------------------------ MODULE ConfigGen -----------------------------
(* Generates histories of Config for replay: printed when they have Len steps. *)
EXTENDS Config, Json
CONSTANT HistLen
VARIABLES hist, done
GInit == Init /\ hist = <<>> /\ done = FALSE
GNext == \/ /\ Len(hist) < HistLen
            /\ Next
            /\ hist' = Append(hist, last'.c)
            /\ UNCHANGED done
         \/ /\ Len(hist) = HistLen /\ ~done
            /\ done' = TRUE
            /\ UNCHANGED <<st, last, hist>>
GSpec == GInit /\ [][GNext]_<<st, last, hist, done>>
Emit == ~done \/ PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
