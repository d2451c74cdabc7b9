------------------------------- MODULE TraceBase ------------------------------
(***************************************************************************)
(* Reading a recorded trace (one JSON object per line) and reporting what  *)
(* in it the specification does not allow.                                 *)
(*                                                                         *)
(* A trace specification gives, for every event, a set of clauses          *)
(* << property, name, holds >>: the conjuncts of the guard of the action   *)
(* that the event claims to be.  An event whose clauses all hold is a step *)
(* of the specification.  One whose clauses do not all hold is rejected;   *)
(* it is reported, the state is resynchronized with what was observed, and *)
(* the rest of the trace is checked all the same.                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
\* The property whose clauses are evaluated, or "ALL".
Focus == IOEnv.FOCUS
On(p) == Focus = "ALL" \/ Focus = p

\* Clauses for one property, evaluated only when it is in focus.
If(p, clauses) == IF On(p) THEN clauses ELSE {}

Violated(clauses) == { << c[1], c[2] >> : c \in { d \in clauses : ~d[3] } }
Judged(clauses) == { << c[1], c[2] >> : c \in clauses }

VARIABLES
  l,        \* next line of the trace
  tally     \* << property, clause >> -> how often it was decided

TraceBaseInit == l = 1 /\ tally = << >>

Count(t, keys) ==
  [k \in (DOMAIN t \cup keys) |->
     (IF k \in DOMAIN t THEN t[k] ELSE 0) + (IF k \in keys THEN 1 ELSE 0)]

\* Take the clauses of line l: report the violated ones and count all.
Judge(clauses) ==
  LET bad == Violated(clauses)
  IN  /\ (bad # {}) =>
           PrintT("@@REJECT " \o ToJson([line |-> l, clauses |-> bad]))
      /\ tally' = Count(tally, Judged(clauses))

\* The last line, written by the driver when it has done everything.
AtEnd == l = Len(Trace) + 1
Report ==
  AtEnd => PrintT("@@TALLY " \o ToJson({ [clause |-> k, count |-> tally[k]] : k \in DOMAIN tally }))
=============================================================================
