------------------------------- MODULE TracePool ------------------------------
(***************************************************************************)
(* Recorded histories of a buffer pool, checked against PoolAbs.           *)
(* log: << kind, buffer, flag >>; kind 0: Get returned the buffer (0: nil);*)
(* kind 1: the holder gave it to Put, flag 1 if somebody else had written  *)
(* to it while it was held.  Since Put may drop a buffer, the retained set *)
(* is not known; it is part of `free`, and no more than the size of it can *)
(* be handed out again without a Put in between.                           *)
(***************************************************************************)
EXTENDS TraceBase, FiniteSets, SequencesExt

e == Trace[l]
vars == << l, tally >>

Step(acc, x) ==
  CASE x[1] = 0 /\ x[2] = 0 -> [acc EXCEPT !.flaws = @ \cup {"nil"}]
    [] x[1] = 0 ->
         [acc EXCEPT !.free = @ \ {x[2]}, !.held = @ \cup {x[2]},
                     !.streak = IF x[2] \in acc.free THEN @ + 1 ELSE @,
                     !.flaws = @ \cup (IF x[2] \in acc.held THEN {"held"} ELSE {})
                                 \cup (IF x[2] \in acc.free /\ e.size > 0 /\ acc.streak >= e.size
                                       THEN {"retains"} ELSE {})]
    [] OTHER ->
         [acc EXCEPT !.free = @ \cup {x[2]}, !.held = @ \ {x[2]}, !.streak = 0,
                     !.flaws = IF x[3] = 0 THEN @ ELSE @ \cup {"altered"}]
Start == [free |-> {}, held |-> {}, streak |-> 0, flaws |-> {}]
Flaws == FoldLeft(Step, Start, e.log).flaws

RunClauses ==
  LET f == Flaws IN
  { << "C15", "Get and Put never block or panic", e.out = "ok" >>,
    << "C15", "Get never returns nil", "nil" \notin f >>,
    << "C15", "no buffer is handed out while it is held", "held" \notin f >>,
    << "C15", "a held buffer is its holder's alone", "altered" \notin f >> }
  \cup (IF e.par THEN {} ELSE
    { << "C15", "no more buffers than the size are retained", "retains" \notin f >> })
StressClauses ==
  { << "C15", "Get and Put never block or panic", e.out = "ok" >>,
    << "C15", "Get never returns nil", e.nils = 0 >>,
    << "C15", "no buffer is handed out while it is held", e.doubles = 0 >>,
    << "C15", "a held buffer is its holder's alone", e.altered = 0 >> }
  \cup (IF e.size <= 0 THEN {} ELSE
    { << "C15", "no more buffers than the size are retained", e.drained <= e.size >> })

Init == TraceBaseInit
Next ==
  /\ l <= Len(Trace) /\ l' = l + 1
  /\ CASE e.ev = "poolrun" -> Judge(RunClauses)
       [] e.ev = "poolstress" -> Judge(StressClauses)
       [] e.ev = "died" -> Judge({ << "C15", "Get and Put never block or panic", FALSE >> })
       [] e.ev = "race" -> Judge({ << "C15", "memory is not shared without synchronization", e.races = 0 >> })
       [] OTHER -> UNCHANGED tally
Spec == Init /\ [][Next]_vars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
