--------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* A keyed generator and its callers.  The keystream is the sequence of    *)
(* positions 0, 1, 2, ...; a read takes the next len positions, in two     *)
(* steps (reserve, fill), so that reads of several callers can interleave. *)
(* Knobs are the mistakes: the position is not advanced, it is advanced in *)
(* another step than it is read, or the buffer's old contents go in.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Callers, Lens, MaxReads,
  NoAdvance,      \* knob: every read starts at 0
  SplitAdvance,   \* knob: reserving is a load and a store
  Dirty,          \* knob: the result depends on what the buffer held
  BlockRound      \* knob: the position is advanced by whole blocks of 2

VARIABLES
  offset,     \* of the generator
  at,         \* caller -> [phase, from, len]
  got,        \* sequence of << caller, positions read >>, in order of reservation
  finished    \* how many reads are complete

vars == << offset, at, got, finished >>

Idle == [phase |-> "idle", from |-> 0, len |-> 0, dirty |-> 0]
Init == offset = 0 /\ at = [p \in Callers |-> Idle] /\ got = << >> /\ finished = 0

Positions(from, len) == [i \in 1 .. len |-> from + i - 1]
Step(len) == IF NoAdvance THEN 0 ELSE IF BlockRound THEN ((len + 1) \div 2) * 2 ELSE len

Reserve(p) ==
  /\ at[p].phase = "idle" /\ Len(got) < MaxReads
  /\ \E len \in Lens, dirty \in {0, 1} :
       /\ at' = [at EXCEPT ![p] = [phase |-> IF SplitAdvance THEN "store" ELSE "fill",
                                   from |-> offset, len |-> len, dirty |-> dirty]]
       /\ offset' = IF SplitAdvance THEN offset ELSE offset + Step(len)
       /\ got' = Append(got, << p, Positions(offset, len), -1 >>)
  /\ UNCHANGED finished
Store(p) ==
  /\ at[p].phase = "store"
  /\ offset' = at[p].from + Step(at[p].len)
  /\ at' = [at EXCEPT ![p].phase = "fill"]
  /\ UNCHANGED << got, finished >>
Fill(p) ==
  /\ at[p].phase = "fill"
  /\ LET mine == { i \in DOMAIN got : got[i][1] = p /\ got[i][3] = -1 }
         i == CHOOSE x \in mine : TRUE
     IN  got' = [got EXCEPT ![i][3] = IF Dirty THEN at[p].dirty ELSE 0]
  /\ at' = [at EXCEPT ![p] = Idle]
  /\ finished' = finished + 1
  /\ UNCHANGED offset
Next == \E p \in Callers : Reserve(p) \/ Store(p) \/ Fill(p)
Spec == Init /\ [][Next]_vars /\ \A p \in Callers : WF_vars(Store(p) \/ Fill(p))

-----------------------------------------------------------------------------
Elems(s) == { s[i] : i \in DOMAIN s }
\* C04: no position of the keystream is given out twice.
NoReuse ==
  \A i, j \in DOMAIN got : i < j => Elems(got[i][2]) \cap Elems(got[j][2]) = {}
\* C14: the reads, in order, concatenated, are the keystream from its beginning.
RECURSIVE Cat(_)
Cat(n) == IF n = 0 THEN << >> ELSE Cat(n - 1) \o got[n][2]
Contiguous == Cat(Len(got)) = Positions(0, Len(Cat(Len(got))))
OldContentsIrrelevant == \A i \in DOMAIN got : got[i][3] \in {-1, 0}
\* Every read comes back.
Returns == \A p \in Callers : (at[p].phase # "idle") ~> (at[p].phase = "idle")
===============================================================================
