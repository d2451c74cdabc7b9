------------------------------- MODULE SSMSMath -------------------------------
(***************************************************************************)
(* The format of "secret sharing made short" shares and what they decode   *)
(* to.  A share is                                                         *)
(*    20 bytes   evaluations sharing (key: 16 bytes, length: 4 bytes LE)   *)
(*     1 byte    tag of that Shamir share                                  *)
(*     P bytes   row of the Reed-Solomon code, P = ceil(length/threshold)  *)
(*     1 byte    part id = row number, 0-based                             *)
(* The Reed-Solomon code is the systematic Vandermonde code over the same  *)
(* field: column by column, row r is the value at r of the polynomial of   *)
(* degree < k whose values at 0..k-1 are the data rows.  It is therefore   *)
(* the same interpolation as Shamir's, at other points.                    *)
(***************************************************************************)
EXTENDS ShamirMath, AES

KeyLen == 16
LenLen == 4
MetaLen == KeyLen + LenLen + 1
PartId(s) == s[Len(s)]
MetaShare(s) == SubSeq(s, 1, MetaLen)
Payload(s) == SubSeq(s, MetaLen + 1, Len(s) - 1)
CeilDiv(a, b) == (a + b - 1) \div b
ShareLen(len, k) == CeilDiv(len, k) + MetaLen + 1

\* Row r of the code word that has the given rows (ids: part ids, k of them).
RowFrom(ids, rows, r) ==
  LET w == Weights(ids, r)
  IN  TLCEval([j \in 1 .. Len(rows[1]) |->
        FoldLeft(LAMBDA acc, m : acc ^^ Mul(w[m], rows[m][j]), 0, [m \in 1 .. Len(rows) |-> m])])

Flatten(ss) == FoldLeft(LAMBDA acc, s : acc \o s, << >>, ss)

\* Decode: metadata, ciphertext and plaintext from k shares with different ids and tags.
Meta(shares) == CombineValue([i \in 1 .. Len(shares) |-> MetaShare(shares[i])])
KeyOf(meta) == SubSeq(meta, 1, KeyLen)
\* Lengths of 2^31 or more do not occur in traces; -1 stands for them.
LengthOf(meta) ==
  IF meta[KeyLen + 4] >= 128 THEN -1
  ELSE meta[KeyLen + 1] + 256 * meta[KeyLen + 2] + 65536 * meta[KeyLen + 3] + 16777216 * meta[KeyLen + 4]
DataRows(shares, k) ==
  LET ids == TLCEval([i \in 1 .. k |-> PartId(shares[i])])
      rows == TLCEval([i \in 1 .. k |-> Payload(shares[i])])
  IN  [r \in 1 .. k |-> RowFrom(ids, rows, r - 1)]
Ciphertext(shares, k, len) == SubSeq(Flatten(DataRows(shares, k)), 1, len)

\* All rows are rows of one code word, and the ids are those of n parts.
OneCodeWord(shares, n, k) ==
  LET ids == TLCEval([i \in 1 .. k |-> PartId(shares[i])])
      rows == TLCEval([i \in 1 .. k |-> Payload(shares[i])])
  IN  /\ \A i \in 1 .. n : PartId(shares[i]) \in 0 .. (n - 1)
      /\ Distinct([i \in 1 .. n |-> PartId(shares[i])])
      /\ \A i \in (k + 1) .. n : RowFrom(ids, rows, PartId(shares[i])) = Payload(shares[i])

\* shares is an SSMS sharing of secret in the documented format.
IsSSMSSharing(secret, shares, n, k) ==
  /\ Len(shares) = n
  /\ \A i \in 1 .. n : Len(shares[i]) = ShareLen(Len(secret), k)
  /\ LET metas == TLCEval([i \in 1 .. n |-> MetaShare(shares[i])])
         meta == Meta(SubSeq(shares, 1, k))
     IN  /\ TagsOK(TagsOf(metas))
         /\ OnePolynomial(metas, k)
         /\ LengthOf(meta) = Len(secret)
         /\ OneCodeWord(shares, n, k)
         /\ Ofb(KeyOf(meta), Ciphertext(shares, k, Len(secret))) = secret

\* Encode: the shares for a given key and polynomial coefficients of the key sharing.
EncodeRows(secret, key, n, k) ==
  LET c == Ofb(key, secret)
      p == CeilDiv(Len(secret), k)
      padded == c \o [i \in 1 .. (p * k - Len(secret)) |-> 0]
      data == TLCEval([r \in 1 .. k |-> SubSeq(padded, (r - 1) * p + 1, r * p)])
      ids == TLCEval([r \in 1 .. k |-> r - 1])
  IN  TLCEval([r \in 1 .. n |-> IF r <= k THEN data[r] ELSE RowFrom(ids, data, r - 1)])
LengthBytes(len) == << len % 256, (len \div 256) % 256, (len \div 65536) % 256, 0 >>
\* coefs[j] are the k-1 coefficients hiding metadata byte j; tags[i] the tag of part i.
EncodeSSMS(secret, key, tags, coefs, k) ==
  LET meta == key \o LengthBytes(Len(secret))
      rows == EncodeRows(secret, key, Len(tags), k)
  IN  TLCEval([i \in 1 .. Len(tags) |->
        [j \in 1 .. (KeyLen + LenLen) |-> EvalPoly(<< meta[j] >> \o coefs[j], tags[i])]
        \o << tags[i] >> \o rows[i] \o << i - 1 >>])
=============================================================================
