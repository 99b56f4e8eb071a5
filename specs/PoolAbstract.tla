--------------------------- MODULE PoolAbstract ----------------------------
(* What a user of the worker pool may rely on (properties C08, C09, C10): a
   job is a set of items; between its submission and its return every item is
   processed exactly once, by anyone; nothing of it is processed before the
   submission or after the return; every submitted job returns.              *)
EXTENDS Naturals, FiniteSets

CONSTANTS Jobs, Items(_)               \* Items(j): the items of job j

VARIABLES phase,                       \* [Jobs -> {"new","open","returned"}]
          todo,                        \* [Jobs -> SUBSET Items(j)]: not yet begun
          busy                         \* [Jobs -> SUBSET Items(j)]: begun, not ended

avars == <<phase, todo, busy>>

AInit == /\ phase = [j \in Jobs |-> "new"]
         /\ todo = [j \in Jobs |-> Items(j)]
         /\ busy = [j \in Jobs |-> {}]

Submit(j) == /\ phase[j] = "new"
             /\ phase' = [phase EXCEPT ![j] = "open"]
             /\ UNCHANGED <<todo, busy>>

Begin(j, piece) == /\ phase[j] = "open"
                   /\ piece # {} /\ piece \subseteq todo[j]
                   /\ todo' = [todo EXCEPT ![j] = @ \ piece]
                   /\ busy' = [busy EXCEPT ![j] = @ \cup piece]
                   /\ UNCHANGED phase

End(j, piece) == /\ piece # {} /\ piece \subseteq busy[j]
                 /\ busy' = [busy EXCEPT ![j] = @ \ piece]
                 /\ UNCHANGED <<phase, todo>>

Return(j) == /\ phase[j] = "open" /\ todo[j] = {} /\ busy[j] = {}
             /\ phase' = [phase EXCEPT ![j] = "returned"]
             /\ UNCHANGED <<todo, busy>>

ANext == \E j \in Jobs : \/ Submit(j) \/ Return(j)
                         \/ \E p \in SUBSET todo[j] : Begin(j, p)
                         \/ \E p \in SUBSET busy[j] : End(j, p)

ASpec == AInit /\ [][ANext]_avars

ExactlyOnce == \A j \in Jobs : phase[j] = "returned" => todo[j] = {} /\ busy[j] = {}
NoEarly     == \A j \in Jobs : phase[j] = "new" => todo[j] = Items(j) /\ busy[j] = {}
AllReturn   == <>(\A j \in Jobs : phase[j] = "returned")
=============================================================================
