---------------------------------- MODULE Kernel -------------------------------
(***************************************************************************)
(* How a vector function walks over its operands: a wide loop for long     *)
(* vectors, a narrow loop, and single elements at the end, each with its   *)
(* own condition.  touched[i] counts how often element i was processed.    *)
(* The conditions are knobs, so that the mistakes (an element left out,    *)
(* processed twice, or outside the vector) can be seen to be mistakes.     *)
(***************************************************************************)
EXTENDS Integers, Sequences

CONSTANTS
  MaxN,            \* vector lengths 0 .. MaxN
  WideMin, Wide,   \* the wide loop runs if at least WideMin are left, Wide at a time
  NarrowMin, Narrow,
  RoundUp,         \* knob: a loop processes its last, partial block as well
  SkipTail         \* knob: no tail when the narrow loop ran

VARIABLES n, pos, stage, touched, outside, ranNarrow
vars == << n, pos, stage, touched, outside, ranNarrow >>

Init ==
  /\ n \in 0 .. MaxN /\ pos = 0 /\ stage = "wide"
  /\ touched = [i \in 0 .. (n - 1) |-> 0] /\ outside = FALSE /\ ranNarrow = FALSE

Blocks(left, size) == IF RoundUp THEN (left + size - 1) \div size ELSE left \div size
Process(len) ==
  /\ touched' = [i \in DOMAIN touched |-> IF i >= pos /\ i < pos + len THEN touched[i] + 1 ELSE touched[i]]
  /\ outside' = (outside \/ pos + len > n)
  /\ pos' = (IF pos + len > n THEN n ELSE pos + len)

WideLoop ==
  /\ stage = "wide" /\ stage' = "narrow"
  /\ IF n - pos >= WideMin THEN Process(Blocks(n - pos, Wide) * Wide)
     ELSE UNCHANGED << pos, touched, outside >>
  /\ UNCHANGED << n, ranNarrow >>
NarrowLoop ==
  /\ stage = "narrow" /\ stage' = "tail"
  /\ IF n - pos >= NarrowMin THEN Process(Blocks(n - pos, Narrow) * Narrow) /\ ranNarrow' = TRUE
     ELSE UNCHANGED << pos, touched, outside, ranNarrow >>
  /\ UNCHANGED n
Rest ==
  /\ stage = "tail" /\ stage' = "done"
  /\ IF SkipTail /\ ranNarrow THEN UNCHANGED << pos, touched, outside >> ELSE Process(n - pos)
  /\ UNCHANGED << n, ranNarrow >>
Next == WideLoop \/ NarrowLoop \/ Rest
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

EveryElementOnce == stage = "done" => \A i \in DOMAIN touched : touched[i] = 1
NothingOutside == ~outside
Finishes == <>(stage = "done")
===============================================================================
