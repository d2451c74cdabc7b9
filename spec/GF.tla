---------------------------------- MODULE GF ----------------------------------
(***************************************************************************)
(* Arithmetic of the field GF(2^FieldBits) with reduction polynomial       *)
(* FieldPoly (written as a number, e.g. 285 = 0x11d for GF(2^8)).  ClMul   *)
(* and ClExp are the definitions; Mul, Div and Pow go through logarithm    *)
(* tables that are *derived* from them, because TLC evaluates those fast.  *)
(* MC_GF.tla checks that both agree and that this is a field.              *)
(* Configurations: (8, 285) is the field of the implementation, (2, 7) and *)
(* (3, 11) are the small fields used for exhaustive secrecy counting.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

CONSTANTS FieldBits, FieldPoly

Q == 2^FieldBits
Field == 0 .. (Q - 1)

Add(a, b) == a ^^ b

XTime(a) == IF 2 * a >= Q THEN (2 * a) ^^ FieldPoly ELSE 2 * a

\* Carry-less product reduced modulo FieldPoly: the definition of the product.
RECURSIVE ClMul(_, _)
ClMul(a, b) ==
  IF b = 0 THEN 0
  ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ ClMul(XTime(a), b \div 2)

RECURSIVE ClExp(_, _)
ClExp(a, n) == IF n = 0 THEN 1 ELSE ClMul(a, ClExp(a, n - 1))

\* Powers of the generator 2 (which is primitive for the polynomials used).
PowSeq ==
  FoldLeft(LAMBDA acc, i : Append(acc, XTime(acc[Len(acc)])),
           <<1>>, [i \in 1 .. (Q - 2) |-> i])

\* (a fold, so that TLC makes a table of it)
LogSeq == FoldLeft(LAMBDA acc, z : Append(acc, CHOOSE i \in 0 .. (Q - 2) : PowSeq[i + 1] = z),
                   << >>, [z \in 1 .. (Q - 1) |-> z])

Exp2(i) == PowSeq[(i % (Q - 1)) + 1]

Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE Exp2(LogSeq[a] + LogSeq[b])
Inv(a) == Exp2((Q - 1) - LogSeq[a])
Div(a, b) == IF a = 0 THEN 0 ELSE Exp2((Q - 1) + LogSeq[a] - LogSeq[b])
\* The exponent is reduced first: TLC's integers have 32 bits.
Pow(a, n) ==
  IF n = 0 THEN 1 ELSE IF a = 0 THEN 0 ELSE Exp2(LogSeq[a] * (n % (Q - 1)))

\* Exclusive or over all elements of a sequence.
XorSum(s) == FoldLeft(LAMBDA acc, v : acc ^^ v, 0, s)

=============================================================================
