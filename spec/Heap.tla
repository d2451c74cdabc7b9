---------------------------------- MODULE Heap --------------------------------
(***************************************************************************)
(* Slices and the memory behind them.  The caller holds a secret, shares   *)
(* and combined secrets; it may overwrite each of them, and append to it   *)
(* (which writes into the spare capacity of the slice, if there is any).   *)
(* The library writes while it works: to memory it has allocated for the   *)
(* call, and to buffers of its pool.  Isolated: what the caller sees in a  *)
(* slice is what was returned, or what the caller itself wrote there.      *)
(* Every slice here is one cell long; values are the numbers of the writes *)
(* that put them there.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS
  Parts,
  MaxCalls,      \* calls and caller's writes in a behaviour
  SpareCap,      \* knob: shares are cut from one array, with the capacity of the rest
  AliasSecret,   \* knob: a share keeps the memory of the secret (a data row not copied)
  Pooled,        \* knob: a result lives in a buffer that has gone back to the pool
  InPlace        \* knob: combine works in the memory of a share it was given

VARIABLES
  cells,         \* address -> value
  objs,          \* name -> [addr, spare, seen]: spare is the address after it that append
                 \* would write to, or 0; seen is what the caller may expect there
  pool,          \* address of a pooled buffer, or 0
  calls

vars == << cells, objs, pool, calls >>

Fresh(i) == Len(cells) + i
Called == calls < MaxCalls /\ calls' = calls + 1
Value == calls + 1

Init == cells = << 0 >> /\ objs = << >> /\ pool = 1 /\ calls = 0

Name(kind, i) == << kind, calls + 1, i >>

\* The secret is the caller's; shares get new memory unless a knob says otherwise.
Split ==
  /\ Called
  /\ LET v == 10 * Value
         \* 1: the secret.  Then the shares.
         sec == Fresh(1)
         addr(i) == IF AliasSecret /\ i = 1 THEN sec
                    ELSE IF Pooled /\ i = Parts THEN pool ELSE Fresh(1 + i)
         spare(i) == IF SpareCap /\ i < Parts THEN Fresh(2 + i) ELSE 0
         grown == cells \o [i \in 1 .. (Parts + 1) |-> IF i = 1 THEN v ELSE v + i - 1]
         \* the call uses a pooled buffer as its working memory, last of all
         worked == [grown EXCEPT ![pool] = IF Pooled THEN v + Parts ELSE v + 9]
     IN  /\ cells' = worked
         /\ objs' = [o \in { Name("secret", 0) } |-> [addr |-> sec, spare |-> 0, seen |-> v]]
                    @@ [o \in { Name("share", i) : i \in 1 .. Parts } |->
                          [addr |-> addr(o[3]), spare |-> spare(o[3]),
                           seen |-> worked[addr(o[3])]]]
                    @@ objs
  /\ UNCHANGED pool
\* Combine reads some objects, writes to its own memory, and returns a result.
Combine ==
  /\ Called
  /\ \E o \in { x \in DOMAIN objs : x[1] = "share" } :
       LET v == 10 * Value
           at == IF Pooled THEN pool ELSE Fresh(1)
           grown == Append(cells, v)
           worked == [grown EXCEPT ![pool] = IF Pooled THEN v ELSE v + 9]
           after == IF InPlace THEN [worked EXCEPT ![objs[o].addr] = v + 8] ELSE worked
       IN  /\ cells' = after
           /\ objs' = [x \in { Name("result", 0) } |-> [addr |-> at, spare |-> 0, seen |-> after[at]]] @@ objs
  /\ UNCHANGED pool
\* The caller writes into a slice it holds.
Overwrite ==
  /\ Called
  /\ \E o \in DOMAIN objs :
       /\ cells' = [cells EXCEPT ![objs[o].addr] = 10 * Value]
       /\ objs' = [objs EXCEPT ![o].seen = 10 * Value]
  /\ UNCHANGED pool
AppendTo ==
  /\ Called
  /\ \E o \in DOMAIN objs :
       cells' = IF objs[o].spare = 0 THEN Append(cells, 10 * Value)
                ELSE [cells EXCEPT ![objs[o].spare] = 10 * Value]
  /\ UNCHANGED << objs, pool >>

Next == Split \/ Combine \/ Overwrite \/ AppendTo
Spec == Init /\ [][Next]_vars

Isolated == \A o \in DOMAIN objs : cells[objs[o].addr] = objs[o].seen
Apart == \A o, p \in DOMAIN objs : o # p => objs[o].addr # objs[p].addr
===============================================================================
