------------------------------ MODULE ShamirMath ------------------------------
(***************************************************************************)
(* Polynomials, Lagrange interpolation and what it means to be a threshold *)
(* sharing.  A share is a sequence <<y1, ..., yN, tag>>; Ys and Tag take   *)
(* it apart.                                                               *)
(***************************************************************************)
EXTENDS GF

\* Value at x of the polynomial with coefficients c[1] + c[2] x + ...
EvalPoly(c, x) ==
  FoldRight(LAMBDA v, acc : Add(Mul(acc, x), v), c, 0)

\* Lagrange weights: for pairwise different xs, sum_m w[m] * f(xs[m]) = f(x)
\* for every polynomial f of degree < Len(xs).
LagrangeWeight(xs, m, x) ==
  IF \E j \in DOMAIN xs : j # m /\ xs[j] = x THEN 0
  ELSE LET num == FoldLeft(LAMBDA acc, j :
                    IF j = m THEN acc
                    ELSE acc + LogSeq[Add(x, xs[j])] + (Q - 1) - LogSeq[Add(xs[m], xs[j])],
                    0, [j \in 1 .. Len(xs) |-> j])
       IN  Exp2(num)

Weights(xs, x) == TLCEval([m \in 1 .. Len(xs) |-> LagrangeWeight(xs, m, x)])

Dot(w, ys) ==
  FoldLeft(LAMBDA acc, m : acc ^^ Mul(w[m], ys[m]), 0, [m \in 1 .. Len(w) |-> m])

InterpAt(xs, ys, x) == Dot(Weights(xs, x), ys)

\* Coefficients c[1..k] of the polynomial of degree < k through the k points,
\* by Newton's divided differences.
PolyTimesLinear(p, r) ==      \* p(X) * (X + r)
  [i \in 1 .. (Len(p) + 1) |->
     Add(IF i > 1 THEN p[i - 1] ELSE 0, IF i <= Len(p) THEN Mul(p[i], r) ELSE 0)]
\* Coefficients of the m-th Lagrange basis polynomial.
LagrangeBasis(xs, m) ==
  LET k == Len(xs)
      num == FoldLeft(LAMBDA p, j : IF j = m THEN p ELSE TLCEval(PolyTimesLinear(p, xs[j])),
                      <<1>>, [j \in 1 .. k |-> j])
      den == FoldLeft(LAMBDA acc, j : IF j = m THEN acc ELSE Mul(acc, Add(xs[m], xs[j])),
                      1, [j \in 1 .. k |-> j])
  IN  TLCEval([i \in 1 .. k |-> Div(num[i], den)])
\* Matrix B with c[i] = sum_m B[i][m] * y[m].
CoefMatrix(xs) ==
  LET L == TLCEval([m \in 1 .. Len(xs) |-> LagrangeBasis(xs, m)])
  IN  TLCEval([i \in 1 .. Len(xs) |-> [m \in 1 .. Len(xs) |-> L[m][i]]])

-----------------------------------------------------------------------------
(* Shares *)

Tag(share) == share[Len(share)]
NumBytes(share) == Len(share) - 1
TagsOf(shares) == TLCEval([i \in 1 .. Len(shares) |-> Tag(shares[i])])

Distinct(s) == \A i, j \in DOMAIN s : i < j => s[i] # s[j]

\* Tags of a sharing: in the field, not zero (f(0) is the secret), all different.
TagsOK(tags) == (\A i \in DOMAIN tags : tags[i] \in Field \ {0}) /\ Distinct(tags)

ParamsOK(len, n, k) == 2 <= k /\ k <= n /\ n <= Q - 1 /\ len >= 1

Column(shares, j) == [i \in 1 .. Len(shares) |-> shares[i][j]]

\* What combining a list of shares with different tags gives: the value at 0.
CombineValue(shares) ==
  LET w == Weights(TagsOf(shares), 0)
  IN  TLCEval([j \in 1 .. NumBytes(shares[1]) |->
         FoldLeft(LAMBDA acc, m : acc ^^ Mul(w[m], shares[m][j]), 0,
                  [m \in 1 .. Len(shares) |-> m])])

\* All n shares lie, at every byte position, on one polynomial of degree < k.
OnePolynomial(shares, k) ==
  LET xs == TLCEval([i \in 1 .. k |-> Tag(shares[i])])
  IN  \A i \in (k + 1) .. Len(shares) :
        LET w == Weights(xs, Tag(shares[i]))
        IN  \A j \in 1 .. NumBytes(shares[1]) :
              shares[i][j] =
                FoldLeft(LAMBDA acc, m : acc ^^ Mul(w[m], shares[m][j]), 0,
                         [m \in 1 .. k |-> m])

\* shares is an exact threshold-k sharing of secret.
IsSharing(secret, shares, n, k) ==
  /\ Len(shares) = n
  /\ \A i \in 1 .. n : Len(shares[i]) = Len(secret) + 1
  /\ TagsOK(TagsOf(shares))
  /\ OnePolynomial(shares, k)
  /\ CombineValue(SubSeq(shares, 1, k)) = secret

\* The coefficients hiding byte position j (without the intercept), from k shares.
Coefficients(shares, k) ==
  LET B == CoefMatrix(TLCEval([i \in 1 .. k |-> Tag(shares[i])]))
  IN  TLCEval([j \in 1 .. NumBytes(shares[1]) |->
         [c \in 1 .. (k - 1) |->
            FoldLeft(LAMBDA acc, m : acc ^^ Mul(B[c + 1][m], shares[m][j]), 0,
                     [m \in 1 .. k |-> m])]])

=============================================================================
