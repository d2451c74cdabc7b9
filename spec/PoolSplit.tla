-------------------------------- MODULE PoolSplit -----------------------------
(***************************************************************************)
(* Splits that run at the same time and share a pool of buffers.  A split  *)
(* takes a working buffer, then for each share takes another one, fills    *)
(* it, copies the share out of it and puts it back; last it puts back the  *)
(* working buffer.  The pool is a bounded channel with non-blocking        *)
(* operations.  Every step is one that the scheduler can interleave;       *)
(* sched records which thread moved at each hand-out and hand-back, and    *)
(* is replayed against the implementation, whose pools are gated at the    *)
(* same points.  Knobs are the mistakes.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS
  Threads, Splits, Shares, PoolSize,
  EarlyPut,      \* knob: the buffer is put back before the share is copied out of it
  DoublePut,     \* knob: the working buffer is put back twice
  PeekGet,       \* knob: taking a buffer is a look and a removal
  Recording      \* keep sched (for simulation)

VARIABLES pool, next, at, content, clean, sched

vars == << pool, next, at, content, clean, sched >>

None == 0
\* pc: what the thread does next; work, buf: buffers it holds; s: split, i: share.
Start == [pc |-> "getwork", work |-> None, buf |-> None, s |-> 1, i |-> 1, seen |-> None, puts |-> 0]
Init ==
  /\ pool = << >> /\ next = 1 /\ at = [t \in Threads |-> Start]
  /\ content = << >> /\ clean = TRUE /\ sched = << >>

Mine(t) == << t, at[t].s >>
Log(t) == sched' = IF Recording THEN Append(sched, t) ELSE sched
Goto(t, pc) == [at EXCEPT ![t].pc = pc]

\* Taking a buffer for field f, then going on at pc.
Take(t, f, pc) ==
  IF pool # << >> THEN
    IF PeekGet
    THEN /\ at' = [at EXCEPT ![t].seen = Head(pool), ![t].pc = "remove" \o f]
         /\ UNCHANGED << pool, next, content >>
    ELSE /\ at' = [at EXCEPT ![t] = IF f = "work" THEN [@ EXCEPT !.work = Head(pool), !.pc = pc]
                                                  ELSE [@ EXCEPT !.buf = Head(pool), !.pc = pc]]
         /\ pool' = Tail(pool) /\ UNCHANGED << next, content >>
  ELSE /\ at' = [at EXCEPT ![t] = IF f = "work" THEN [@ EXCEPT !.work = next, !.pc = pc]
                                                ELSE [@ EXCEPT !.buf = next, !.pc = pc]]
       /\ next' = next + 1 /\ content' = Append(content, << >>) /\ UNCHANGED pool
GetWork(t) == at[t].pc = "getwork" /\ Take(t, "work", "fillwork") /\ Log(t) /\ UNCHANGED clean
GetBuf(t) == at[t].pc = "getbuf" /\ Take(t, "buf", "fill") /\ Log(t) /\ UNCHANGED clean
Without(s, b) == SelectSeq(s, LAMBDA x : x # b)
Remove(t) ==
  /\ at[t].pc \in {"removework", "removebuf"}
  /\ pool' = Without(pool, at[t].seen)
  /\ at' = [at EXCEPT ![t] = IF at[t].pc = "removework" THEN [@ EXCEPT !.work = at[t].seen, !.pc = "fillwork"]
                                                    ELSE [@ EXCEPT !.buf = at[t].seen, !.pc = "fill"]]
  /\ UNCHANGED << next, content, clean, sched >>
FillWork(t) ==
  /\ at[t].pc = "fillwork"
  /\ content' = [content EXCEPT ![at[t].work] = Mine(t)]
  /\ at' = Goto(t, "getbuf")
  /\ UNCHANGED << pool, next, clean, sched >>
\* The share is computed from the working buffer.
Fill(t) ==
  /\ at[t].pc = "fill"
  /\ content' = [content EXCEPT ![at[t].buf] = content[at[t].work]]
  /\ at' = Goto(t, IF EarlyPut THEN "putbuf" ELSE "copy")
  /\ UNCHANGED << pool, next, clean, sched >>
Copy(t) ==
  /\ at[t].pc = "copy"
  /\ clean' = (clean /\ content[at[t].buf] = Mine(t))
  /\ at' = IF EarlyPut
           THEN [at EXCEPT ![t] = IF at[t].i < Shares THEN [@ EXCEPT !.pc = "getbuf", !.i = at[t].i + 1, !.buf = None]
                                                  ELSE [@ EXCEPT !.pc = "putwork", !.buf = None]]
           ELSE Goto(t, "putbuf")
  /\ UNCHANGED << pool, next, content, sched >>
Put(b) == pool' = IF Len(pool) < PoolSize THEN Append(pool, b) ELSE pool
PutBuf(t) ==
  /\ at[t].pc = "putbuf"
  /\ Put(at[t].buf)
  /\ at' = IF EarlyPut THEN Goto(t, "copy")
           ELSE [at EXCEPT ![t] = IF at[t].i < Shares THEN [@ EXCEPT !.pc = "getbuf", !.i = at[t].i + 1, !.buf = None]
                                                  ELSE [@ EXCEPT !.pc = "putwork", !.buf = None]]
  /\ Log(t) /\ UNCHANGED << next, content, clean >>
PutWork(t) ==
  /\ at[t].pc = "putwork"
  /\ Put(at[t].work)
  /\ at' = [at EXCEPT ![t] =
       IF DoublePut /\ at[t].puts = 0 THEN [@ EXCEPT !.puts = 1]
       ELSE IF at[t].s < Splits THEN [Start EXCEPT !.s = at[t].s + 1]
       ELSE [@ EXCEPT !.pc = "done", !.work = None]]
  /\ Log(t) /\ UNCHANGED << next, content, clean >>

Step(t) == GetWork(t) \/ GetBuf(t) \/ Remove(t) \/ FillWork(t) \/ Fill(t) \/ Copy(t) \/ PutBuf(t) \/ PutWork(t)
AllDone == \A t \in Threads : at[t].pc = "done"
Next == \E t \in Threads : Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

-----------------------------------------------------------------------------
\* What a thread holds: not while it has already put it back.
HeldBy(t) ==
  { b \in {at[t].work, at[t].buf} :
      /\ b # None
      /\ ~(EarlyPut /\ at[t].pc = "copy" /\ b = at[t].buf)
      /\ ~(at[t].puts > 0 /\ b = at[t].work) }
InPool == { pool[i] : i \in DOMAIN pool }
Exclusive ==
  /\ \A t, u \in Threads : t # u => HeldBy(t) \cap HeldBy(u) = {}
  /\ \A t \in Threads : HeldBy(t) \cap InPool = {}
  /\ Cardinality(InPool) = Len(pool)
Bounded == Len(pool) <= PoolSize
\* Every share is made of its own split's material.
Untouched == clean
Finishes == <>AllDone
Emit == (Recording /\ AllDone) => PrintT("@@SCHED " \o ToJson(sched))
===============================================================================
