--------------------------------- MODULE Chunks -------------------------------
(***************************************************************************)
(* SplitP: the secret is cut into chunks, and a goroutine computes the     *)
(* share bytes of each chunk while the caller waits.  Every cell of the    *)
(* result (share, position) has to be written exactly once, by the         *)
(* goroutine of its chunk, and before the call returns.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS
  Lens,          \* secret lengths considered
  Chunk,         \* chunk size
  Shares,
  SharedIndex,   \* knob: the goroutines read the caller's loop variable
  EarlyDone,     \* knob: a goroutine reports before its last write
  AddInside,     \* knob: a goroutine counts itself only when it starts running
  FloorChunks    \* knob: only whole chunks are dispatched

VARIABLES
  len,
  idx,           \* the caller's loop variable
  main,          \* "dispatch", "wait", "returned"
  gor,           \* sequence of goroutines [from, to, pos, share, pc]
  wg,            \* WaitGroup counter
  writes         \* << share, position, for >> -> number of writes; late ones are marked

vars == << len, idx, main, gor, wg, writes >>

Init ==
  /\ len \in Lens /\ idx = 0 /\ main = "dispatch" /\ gor = << >> /\ wg = 0
  /\ writes = {}

Min(a, b) == IF a < b THEN a ELSE b
Dispatch ==
  /\ main = "dispatch"
  /\ LET end == Min(idx + Chunk, len) IN
     IF idx >= len \/ (FloorChunks /\ idx + Chunk > len)
     THEN main' = "wait" /\ UNCHANGED << idx, gor, wg >>
     ELSE /\ gor' = Append(gor, [from |-> idx, to |-> end, n |-> 0, share |-> 1,
                                 pc |-> IF AddInside THEN "add" ELSE "start"])
          /\ wg' = IF AddInside THEN wg ELSE wg + 1
          /\ idx' = end /\ UNCHANGED main
  /\ UNCHANGED << len, writes >>

Wait == /\ main = "wait" /\ wg = 0 /\ main' = "returned"
        /\ UNCHANGED << len, idx, gor, wg, writes >>

GAdd(g) ==
  /\ gor[g].pc = "add" /\ gor' = [gor EXCEPT ![g].pc = "start"] /\ wg' = wg + 1
  /\ UNCHANGED << len, idx, main, writes >>
\* crtIdx := startIdx
GStart(g) ==
  /\ gor[g].pc = "start"
  /\ gor' = [gor EXCEPT ![g].pc = "run", ![g].from = IF SharedIndex THEN Min(idx, len - 1) ELSE @,
                        ![g].to = IF SharedIndex THEN Min(idx, len - 1) + (@ - gor[g].from) ELSE @]
  /\ UNCHANGED << len, idx, main, wg, writes >>
Size(g) == gor[g].to - gor[g].from
AllWritten(g) == gor[g].n = Size(g)
LastWrite(g) == gor[g].n = Size(g) - 1 /\ gor[g].share = Shares
\* Write the byte of one share; the value belongs to position from + n.
GWrite(g) ==
  /\ gor[g].pc \in {"run", "reported"} /\ ~AllWritten(g)
  /\ (EarlyDone /\ LastWrite(g)) => gor[g].pc = "reported"
  /\ LET cell == << gor[g].share, gor[g].from + gor[g].n >> IN
       writes' = writes \cup {<< cell, g, main = "returned" >>}
  /\ gor' = [gor EXCEPT ![g] = IF gor[g].share < Shares THEN [@ EXCEPT !.share = gor[g].share + 1]
                                                      ELSE [@ EXCEPT !.share = 1, !.n = gor[g].n + 1]]
  /\ UNCHANGED << len, idx, main, wg >>
GDone(g) ==
  /\ gor[g].pc = "run"
  /\ IF EarlyDone THEN LastWrite(g) ELSE AllWritten(g)
  /\ gor' = [gor EXCEPT ![g].pc = "reported"] /\ wg' = wg - 1
  /\ UNCHANGED << len, idx, main, writes >>

Goroutine(g) == GAdd(g) \/ GStart(g) \/ GWrite(g) \/ GDone(g)
Next == Dispatch \/ Wait \/ \E g \in DOMAIN gor : Goroutine(g)
Spec == Init /\ [][Next]_vars /\ WF_vars(Dispatch) /\ WF_vars(Wait)
             /\ \A g \in 1 .. 4 : WF_vars(g \in DOMAIN gor /\ Goroutine(g))

Cells == (1 .. Shares) \X (0 .. (len - 1))
\* Which goroutine a cell belongs to.
Owner(c) == (c[2] \div Chunk) + 1
Complete == main = "returned" => \A c \in Cells : << c, Owner(c), FALSE >> \in writes
Exactly == \A w \in writes : w[1] \in Cells /\ w[2] = Owner(w[1]) /\ w[3] = FALSE
Disjoint == \A v, w \in writes : v[1] = w[1] => v = w
Returns == <>(main = "returned")
===============================================================================
