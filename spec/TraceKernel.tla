------------------------------- MODULE TraceKernel ----------------------------
(***************************************************************************)
(* Recorded results of the galois package against the field: the tables of *)
(* the scalar functions, and for every vector function the relation        *)
(* between operand elements and result elements that was observed over all *)
(* positions, lengths, alignments and contents, with what was written      *)
(* outside the returned vector.                                            *)
(***************************************************************************)
EXTENDS GF, TraceBase

vars == << l, tally >>
e == Trace[l]

Scalar(a, b) ==
  CASE e.fn \in {"add", "sub"} -> Add(a, b)
    [] e.fn \in {"mul", "mullog"} -> Mul(a, b)
    [] e.fn = "div" -> Div(a, b)
    [] e.fn = "exp" -> Pow(b, a)        \* row n: b to the power n
ScalarName ==
  CASE e.fn \in {"add", "sub"} -> "scalar add and subtract"
    [] e.fn \in {"mul", "mullog"} -> "scalar multiply"
    [] e.fn = "div" -> "scalar divide"
    [] OTHER -> "scalar power"

IsMul(fn) == fn \in {"MulConstVector", "MulConstVectorGeneric"}
Elementwise(a, b) == IF IsMul(e.fn) THEN Mul(a, b) ELSE Add(a, b)

Clauses ==
  CASE e.ev = "scalar" ->
         { << "C12", ScalarName, \A b \in e.from .. 255 : e.row[b + 1] = Scalar(e.a, b) >> }
    [] e.ev = "vec" ->
         { << "C12", e.fn \o " equals the elementwise operation",
              \A b \in 0 .. 255 : \A i \in DOMAIN e.row[b + 1] :
                 e.row[b + 1][i] = Elementwise(e.a, b) >> }
    [] e.ev = "mem" ->
         { << "C12", "nothing is written outside the returned vector", e.outside = << >> >>,
           << "C12", "the result has the length of the operands", e.badlen = << >> >>,
           << "C12", "every length and alignment is accepted", e.faults = << >> /\ e.calls > 0 >> }
    [] OTHER -> {}

Init == TraceBaseInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge(Clauses)
Spec == Init /\ [][Next]_vars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
