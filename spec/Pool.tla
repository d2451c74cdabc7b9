---------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* The pool as it is built: a buffered channel with non-blocking send and  *)
(* receive, used by several goroutines.  It implements PoolAbs, and no     *)
(* call ever has to wait.  The knobs are mistakes in building it.          *)
(* With Recording, behaviours are printed and replayed against the code.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Sizes,         \* pool sizes
  Threads,
  MaxMade,       \* buffers made in a behaviour
  Calls,         \* calls made in a behaviour
  Blocking,      \* knob: Put waits for room, Get for a buffer
  TwoSteps,      \* knob: Get looks at the head, and removes it in a second step
  NilGet,        \* knob: Get answers nothing when the pool is empty
  Twice,         \* knob: Put retains a buffer that it has retained before as well
  Unbounded,     \* knob: Put does not look at the size
  Recording

Nil == 0

VARIABLES size, ch, made, holds, at, calls, hist
vars == << size, ch, made, holds, at, calls, hist >>

Init ==
  /\ size \in Sizes /\ ch = << >> /\ made = 0
  /\ holds = [t \in Threads |-> {}] /\ at = [t \in Threads |-> Nil] /\ calls = 0 /\ hist = << >>

Log(x) == hist' = IF Recording THEN Append(hist, x) ELSE hist
Called == calls < Calls /\ calls' = calls + 1
Give(t, b) == holds' = [holds EXCEPT ![t] = @ \cup {b}]

Get(t) ==
  /\ at[t] = Nil /\ Called
  /\ \/ /\ ch # << >>
        /\ IF TwoSteps THEN at' = [at EXCEPT ![t] = Head(ch)] /\ UNCHANGED << ch, holds >>
           ELSE Give(t, Head(ch)) /\ ch' = Tail(ch) /\ UNCHANGED at
        /\ UNCHANGED made
     \/ /\ ch = << >> /\ ~Blocking
        /\ IF NilGet THEN Give(t, Nil) /\ UNCHANGED made
           ELSE made < MaxMade /\ made' = made + 1 /\ Give(t, made + 1)
        /\ UNCHANGED << ch, at >>
  /\ Log(<< t, 0, 0 >>) /\ UNCHANGED size
Remove(t) ==
  /\ at[t] # Nil
  /\ ch' = SelectSeq(ch, LAMBDA x : x # at[t])
  /\ Give(t, at[t]) /\ at' = [at EXCEPT ![t] = Nil]
  /\ UNCHANGED << size, made, calls, hist >>
Put(t) ==
  /\ at[t] = Nil /\ Called
  /\ \E b \in holds[t] :
       /\ holds' = [holds EXCEPT ![t] = @ \ {b}]
       /\ IF Unbounded \/ Len(ch) < size
          THEN ch' = Append(ch, b) \o (IF Twice /\ Len(ch) + 1 < size THEN << b >> ELSE << >>)
          ELSE ~Blocking /\ UNCHANGED ch
       /\ Log(<< t, 1, Cardinality({ x \in holds[t] : x < b }) + 1 >>)
  /\ UNCHANGED << size, made, at >>

Finish == /\ Recording /\ calls = Calls /\ calls' = Calls + 1
          /\ UNCHANGED << size, ch, made, holds, at, hist >>
Next == (\E t \in Threads : Get(t) \/ Remove(t) \/ Put(t)) \/ Finish
Spec == Init /\ [][Next]_vars

Retained == { ch[i] : i \in DOMAIN ch }
Held == UNION { holds[t] : t \in Threads }
Abs == INSTANCE PoolAbs WITH Buffers <- 1 .. MaxMade,
                             held <- Held, retained <- Retained, made <- 1 .. made

Exclusive ==
  /\ \A t, u \in Threads : t # u => holds[t] \cap holds[u] = {}
  /\ Held \cap Retained = {} /\ Cardinality(Retained) = Len(ch)
Bounded == Len(ch) <= size
NeverNil == Nil \notin Held
\* A call can always be made, as far as the behaviour goes.
NeverWaits ==
  \A t \in Threads :
    calls < Calls =>
      /\ at[t] = Nil /\ (made < MaxMade \/ ch # << >>) => ENABLED Get(t)
      /\ at[t] = Nil /\ holds[t] # {} => ENABLED Put(t)
\* Not always true, so that the bound is reached: checked as a mistake.
NeverFull == Len(ch) < size
Refines == Abs!Spec
Emit == (Recording /\ calls > Calls) => PrintT("@@POOL " \o ToJson([size |-> size, ops |-> hist]))
===============================================================================
