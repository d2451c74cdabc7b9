--------------------------------- MODULE Encode -------------------------------
(***************************************************************************)
(* Share sets made by the specification alone, in the documented format:   *)
(* one state per set, with secrets, tags, coefficients and keys from a     *)
(* small generator (and some extreme ones).  The invariants say that what  *)
(* is encoded is a sharing and decodes to its secret; the sets are printed *)
(* and given to the implementation, which has to combine them.             *)
(***************************************************************************)
EXTENDS SSMSMath, Json, IOUtils

CONSTANTS Sets,      \* how many
          MaxLen     \* longest secret

VARIABLE set         \* [i, scheme, n, k, secret, shares]

SEED == atoi(IOEnv.ENCODE_SEED)

\* Pseudo-random bytes: x -> 75 x + 74 mod 65537.
Lcg(x) == (x * 75 + 74) % 65537
Start(i, what) == Lcg(Lcg(((SEED % 9973) + i * 131 + what * 4111) % 65537))
RandBytes(i, what, len) ==
  TLCEval(FoldLeft(LAMBDA acc, j : << Lcg(acc[1]), Append(acc[2], (acc[1] \div 7) % 256) >>,
                   << Start(i, what), << >> >>, [j \in 1 .. len |-> j])[2])
Number(i, what, from, to) == from + (Start(i, what) % (to - from + 1))
Fill(len, v) == [j \in 1 .. len |-> v]

\* The first n of the tags 1 .. 255, shuffled.
Swap(s, a, b) == [s EXCEPT ![a] = s[b], ![b] = s[a]]
Tags(i, n) ==
  IF i % 5 = 0 THEN [j \in 1 .. n |-> 256 - j]
  ELSE IF i % 5 = 1 THEN [j \in 1 .. n |-> j]
  ELSE LET r == RandBytes(i, 3, 255)
       IN  SubSeq(FoldLeft(LAMBDA s, j : Swap(s, j, 1 + ((r[j] * 7 + j) % 255)),
                           [j \in 1 .. 255 |-> j], [j \in 1 .. 255 |-> j]), 1, n)

Sizes == << << 2, 2 >>, << 3, 2 >>, << 3, 3 >>, << 5, 3 >>, << 4, 4 >>, << 7, 2 >>, << 9, 5 >>, << 12, 12 >>,
            << 20, 7 >>, << 33, 4 >>, << 255, 2 >>, << 64, 31 >>, << 130, 3 >>, << 255, 6 >> >>
SizeOf(i) == Sizes[1 + (i % Len(Sizes))]
LenOf(i) == IF i < 2 * 2 * 24 THEN 1 + (i \div 4) ELSE Number(i, 5, 1, MaxLen)
Secret(i) == CASE i % 11 = 3 -> Fill(LenOf(i), 0) [] i % 11 = 6 -> Fill(LenOf(i), 255)
               [] OTHER -> RandBytes(i, 1, LenOf(i))
Key(i) == CASE i % 13 = 5 -> Fill(16, 0) [] i % 13 = 8 -> Fill(16, 255) [] OTHER -> RandBytes(i, 2, 16)
\* Coefficients for len positions, now and then with extreme ones.
Coefs(i, len, k) ==
  LET r == RandBytes(i, 4, len * (k - 1))
  IN  TLCEval([j \in 1 .. len |-> [c \in 1 .. (k - 1) |->
        CASE i % 7 = 2 -> 0 [] i % 7 = 4 -> 255 [] OTHER -> r[(j - 1) * (k - 1) + c]]])

ShamirShares(secret, tags, coefs) ==
  TLCEval([t \in 1 .. Len(tags) |->
    [j \in 1 .. Len(secret) |-> EvalPoly(<< secret[j] >> \o coefs[j], tags[t])] \o << tags[t] >>])

SetOf(i) ==
  LET n == SizeOf(i)[1]
      k == SizeOf(i)[2]
      secret == TLCEval(Secret(i))
      tags == TLCEval(Tags(i, n))
      ssms == (i \div 2) % 2 = 1
  IN  [i |-> i, scheme |-> IF ssms THEN "ssms" ELSE "shamir", n |-> n, k |-> k, secret |-> secret,
       shares |-> IF ssms THEN EncodeSSMS(secret, Key(i), tags, Coefs(i, KeyLen + LenLen, k), k)
                  ELSE ShamirShares(secret, tags, Coefs(i, Len(secret), k))]

Init == set = SetOf(0)
Next == set.i + 1 < Sets /\ set' = SetOf(set.i + 1)
Spec == Init /\ [][Next]_set

\* The format can be read: any k shares say what was encoded, and all shares agree.
Reads ==
  IF set.scheme = "shamir" THEN IsSharing(set.secret, set.shares, set.n, set.k)
  ELSE IsSSMSSharing(set.secret, set.shares, set.n, set.k)
Backwards == [j \in 1 .. set.k |-> set.shares[set.n + 1 - j]]
ReadsFromTheEnd ==
  IF set.scheme = "shamir" THEN CombineValue(Backwards) = set.secret
  ELSE LET len == LengthOf(Meta(Backwards))
       IN  Ofb(KeyOf(Meta(Backwards)), Ciphertext(Backwards, set.k, len)) = set.secret
Emit == PrintT("@@SET " \o ToJson(set))
===============================================================================
