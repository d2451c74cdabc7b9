-------------------------------- MODULE MC_Perm -------------------------------
(***************************************************************************)
(* How permutations and unique bytes are made from a stream of bytes, with *)
(* a byte of B values: Perm(n) shuffles by swaps, one draw each; unique    *)
(* bytes are drawn and drawn again while they repeat.  All streams are     *)
(* explored.  Knobs: the mistakes.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANTS
  B,            \* values of a byte: 0 .. B-1
  MaxN,
  NoRedraw,     \* knob: repeated bytes are kept
  OffByOne,     \* knob: the swap partner may lie behind the end
  NoSelf,       \* knob: an element never stays (Sattolo's cycle)
  TopOnly       \* knob: only values below 2 are ever drawn

VARIABLES kind, n, arr, i, crashed

vars == << kind, n, arr, i, crashed >>

Draws == IF TopOnly THEN 0 .. 1 ELSE 0 .. (B - 1)
Identity(m) == [x \in 1 .. m |-> x - 1]
Init ==
  /\ kind \in {"perm", "uniq"} /\ n \in 0 .. MaxN
  /\ arr = (IF kind = "perm" THEN Identity(n) ELSE << >>)
  /\ i = 0 /\ crashed = FALSE

Done == crashed \/ i = n
Swap(s, x, y) == [s EXCEPT ![x] = s[y], ![y] = s[x]]
Shuffle ==
  /\ kind = "perm" /\ ~Done
  /\ \E v \in Draws :
       LET room == n - i
           j == i + (IF NoSelf THEN (IF room = 1 THEN 0 ELSE 1 + (v % (room - 1)))
                     ELSE IF OffByOne THEN v % (room + 1) ELSE v % room)
       IN  IF j >= n THEN crashed' = TRUE /\ UNCHANGED << arr, i >>
           ELSE /\ arr' = Swap(arr, i + 1, j + 1) /\ i' = i + 1 /\ UNCHANGED crashed
  /\ UNCHANGED << kind, n >>
Draw(v) ==
  /\ kind = "uniq" /\ ~Done
  /\ IF ~NoRedraw /\ \E x \in DOMAIN arr : arr[x] = v
     THEN UNCHANGED << arr, i >>
     ELSE arr' = Append(arr, v) /\ i' = i + 1
  /\ UNCHANGED << kind, n, crashed >>
Unique == \E v \in Draws : Draw(v)
Next == Shuffle \/ Unique
\* A stream in which every byte keeps coming.
Spec == Init /\ [][Next]_vars /\ WF_vars(Shuffle) /\ \A v \in Draws : SF_vars(Draw(v))

-----------------------------------------------------------------------------
NoCrash == ~crashed
IsPermutation == (kind = "perm" /\ Done /\ ~crashed) => ToSet(arr) = 0 .. (n - 1) /\ Len(arr) = n
AlwaysPermutation == kind = "perm" => ToSet(arr) = 0 .. (n - 1)
AllDifferent == kind = "uniq" => Cardinality(ToSet(arr)) = Len(arr)
Returns == <>Done

\* Every arrangement is reached: stated over the results of all sequences of draws.
RECURSIVE Results(_, _, _)
Results(a, m, x) ==      \* a: array so far, m: size, x: step
  IF x = m THEN {a}
  ELSE UNION { LET room == m - x
                   j == x + (IF NoSelf THEN (IF room = 1 THEN 0 ELSE 1 + (v % (room - 1))) ELSE v % room)
               IN  Results(Swap(a, x + 1, j + 1), m, x + 1) : v \in Draws }
RECURSIVE Factorial(_)
Factorial(m) == IF m = 0 THEN 1 ELSE m * Factorial(m - 1)
EveryArrangement == Cardinality(Results(Identity(n), n, 0)) = Factorial(n)
===============================================================================
