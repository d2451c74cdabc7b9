---------------------------------- MODULE MC_GF --------------------------------
(***************************************************************************)
(* The field of GF.tla: the table-driven operations are the definitions,   *)
(* and the definitions make a field.  One state per element.               *)
(***************************************************************************)
EXTENDS GF, FiniteSets

\* (TLC tables constants only where no name in them is a variable elsewhere)
VARIABLE elem
a == elem
Init == elem \in Field
Next == UNCHANGED elem
Spec == Init /\ [][Next]_elem

TablesAreTheDefinition ==
  /\ \A b \in Field : Mul(a, b) = ClMul(a, b)
  /\ a # 0 => Mul(a, Inv(a)) = 1
  /\ \A b \in Field \ {0} : Div(a, b) = Mul(a, Inv(b)) /\ Mul(Div(a, b), b) = a
PowIsRepeatedProduct ==
  LET acc == FoldLeft(LAMBDA s, i : Append(s, Mul(s[Len(s)], a)), << 1 >>, [i \in 1 .. 520 |-> i])
  IN  \A n \in 0 .. 520 : Pow(a, n) = acc[n + 1]
Commutative == \A b \in Field : Mul(a, b) = Mul(b, a)
NoZeroDivisors == \A b \in Field : Mul(a, b) = 0 <=> (a = 0 \/ b = 0)
\* Multiplication is bilinear and commutes with multiplication by x; together these
\* give associativity and distributivity for all elements.
Bilinear == \A b \in Field : \A i \in 0 .. (FieldBits - 1) :
               Mul(a, Add(b, 2^i)) = Add(Mul(a, b), Mul(a, 2^i))
CommutesWithX == \A b \in Field : Mul(a, XTime(b)) = XTime(Mul(a, b)) /\ XTime(b) = Mul(2, b)
\* What the vector kernels compute: a product is the sum of two 16-entry table entries.
NibbleTables ==
  \A b \in Field : Mul(a, b) = Add(Mul(a, b % 16), Mul(a, 16 * (b \div 16)))
\* 2 generates the whole group.
Primitive == Cardinality({ Exp2(i) : i \in 0 .. (Q - 2) }) = Q - 1
===============================================================================
