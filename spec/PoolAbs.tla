-------------------------------- MODULE PoolAbs -------------------------------
(***************************************************************************)
(* What a buffer pool promises, and no more: a buffer is new, held by one  *)
(* taker, retained by the pool, or gone.  Get gives a retained buffer or a *)
(* new one; Put retains the buffer if there is room, or may drop it.  Both *)
(* are possible in every state.                                            *)
(***************************************************************************)
EXTENDS Integers, FiniteSets

CONSTANTS Buffers           \* Buffers: all that can ever be made
VARIABLES size, held, retained, made

Init == held = {} /\ retained = {} /\ made = {} /\ size \in Nat
Get == \E b \in retained \cup (Buffers \ made) :
         /\ held' = held \cup {b} /\ retained' = retained \ {b} /\ made' = made \cup {b}
Put == \E b \in held :
         /\ held' = held \ {b} /\ made' = made
         /\ \/ retained' = retained
            \/ Cardinality(retained) < size /\ retained' = retained \cup {b}
Next == (Get \/ Put) /\ UNCHANGED size
Spec == Init /\ [][Next]_<< size, held, retained, made >>

Exclusive == held \cap retained = {}
Bounded == Cardinality(retained) <= size
===============================================================================
