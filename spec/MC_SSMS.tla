-------------------------------- MODULE MC_SSMS -------------------------------
(***************************************************************************)
(* The design of secret sharing made short, in a small field: a key, the   *)
(* encrypted secret cut into rows of a systematic Reed-Solomon code, and   *)
(* the key and the length shared with the same threshold.  Every key,      *)
(* every tag list and every coefficient of the key's sharing, for a first  *)
(* and a second split.  A stream of field elements that are never zero     *)
(* stands for the cipher.                                                  *)
(* The knobs are the mistakes the design has to avoid.                     *)
(***************************************************************************)
EXTENDS ShamirMath, FiniteSets

CONSTANTS
  N, K,
  Secrets,        \* set of secrets (sequences of field elements)
  Splits,         \* how many splits are made
  KeyReuse,       \* knob: a key may be used twice
  KeyIsTag,       \* knob: the key is the tag of the first share
  NoCipher,       \* knob: the payload is the plaintext
  BadParity,      \* knob: all parity rows are the same
  NoLength,       \* knob: the shared length is that of the padded rows
  LowDegree       \* knob: the key is shared with degree K-2

VARIABLES made, plan

vars == << made, plan >>

SecretsA == { << 1 >>, << 2, 0 >>, << 3, 1, 1 >> }
SecretsB == { << 0, 2, 1 >> }
SecretsC == { << x, y, z >> : x \in {0, 3}, y \in {0, 1}, z \in {0, 2} }

CeilDiv(a, b) == (a + b - 1) \div b
Stream(key, j) == Exp2(key + j)
Crypt(key, s) == [j \in 1 .. Len(s) |-> IF NoCipher THEN s[j] ELSE Add(s[j], Stream(key, j))]
Rows(text) ==
  LET p == CeilDiv(Len(text), K)
      padded == text \o [i \in 1 .. (p * K - Len(text)) |-> 0]
  IN  [r \in 1 .. K |-> SubSeq(padded, (r - 1) * p + 1, r * p)]
Row(ids, rows, r) ==
  LET w == Weights(ids, IF BadParity /\ r >= K THEN K ELSE r)
  IN  [j \in 1 .. Len(rows[1]) |-> Dot(w, [m \in 1 .. Len(rows) |-> rows[m][j]])]
DataIds == [r \in 1 .. K |-> r - 1]
Encode(text) == [r \in 1 .. N |-> Row(DataIds, Rows(text), r - 1)]

MetaOf(secret, key) ==
  << key, IF NoLength THEN K * CeilDiv(Len(secret), K) ELSE Len(secret) >>
Shares(secret, key, tags, c) ==
  LET meta == MetaOf(secret, key)
      rows == Encode(Crypt(key, secret))
  IN  [i \in 1 .. N |->
         [meta |-> [j \in 1 .. 2 |-> EvalPoly(<< meta[j] >> \o c[j], tags[i])] \o << tags[i] >>,
          row |-> rows[i], id |-> i - 1]]

TagLists == { t \in [1 .. N -> Field \ {0}] : Distinct(t) }
Coefs == { c \in [1 .. 2 -> [1 .. (K - 1) -> Field]] :
             LowDegree => \A j \in 1 .. 2 : c[j][K - 1] = 0 }
UsedKeys == { made[i].key : i \in DOMAIN made }
Keys(tags) == IF KeyIsTag THEN {tags[1]} ELSE IF KeyReuse THEN Field ELSE Field \ UsedKeys

Init == made = << >> /\ plan = << >>
Call ==
  /\ plan = << >> /\ Len(made) < Splits
  /\ \E s \in Secrets, t \in TagLists : plan' = << s, t >>
  /\ UNCHANGED made
Split ==
  /\ plan # << >>
  /\ \E key \in Keys(plan[2]), c \in Coefs :
       made' = Append(made, [secret |-> plan[1], tags |-> plan[2], key |-> key, coefs |-> c,
                             shares |-> Shares(plan[1], key, plan[2], c)])
  /\ plan' = << >>
Next == Call \/ Split
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Decode(list) ==       \* list of shares, at least K of them
  LET meta == CombineValue([i \in 1 .. Len(list) |-> list[i].meta])
      ids == [i \in 1 .. K |-> list[i].id]
      rows == [i \in 1 .. K |-> list[i].row]
      data == [r \in 1 .. K |-> Row(ids, rows, r - 1)]
      text == SubSeq(FoldLeft(LAMBDA acc, x : acc \o x, << >>, data), 1, meta[2])
  IN  Crypt(meta[1], text)
Lists == { l \in UNION { [1 .. m -> 1 .. N] : m \in K .. N } : Distinct(l) }

Now == made[Len(made)]
\* C05
AnyQuorumDecodes ==
  made # << >> =>
    \A l \in Lists : Decode([i \in DOMAIN l |-> Now.shares[l[i]]]) = Now.secret
ShareFormat ==
  made # << >> =>
    \A i \in 1 .. N : /\ Len(Now.shares[i].row) = CeilDiv(Len(Now.secret), K)
                      /\ Now.shares[i].id = i - 1
\* C07: to fewer than K shares, every key fits the sharing of the key in as many ways.
KeyHidden ==
  made # << >> =>
    \A coalition \in { s \in SUBSET (1 .. N) : Cardinality(s) = K - 1 } :
      LET view(key, c) ==
            [i \in coalition |-> EvalPoly(<< key >> \o c[1], Now.tags[i])]
          seen == view(Now.key, Now.coefs)
          ways(key) == Cardinality({ c \in Coefs : view(key, c) = seen })
      IN  \A key \in Field :
            IF key \in (IF KeyIsTag THEN {Now.tags[1]} ELSE Field) THEN ways(key) = ways(Now.key)
            ELSE ways(key) = 0
KeyAnywhere ==      \* what the tags say does not narrow the key down
  made # << >> => \A key \in Field : key \in (IF KeyIsTag THEN {Now.tags[1]} ELSE Field)
FreshKeys == \A i, j \in DOMAIN made : i < j => made[i].key # made[j].key
PayloadIsNotPlaintext ==
  made # << >> =>
    \A r \in 1 .. K : \A j \in DOMAIN Now.shares[r].row :
      LET p == (r - 1) * Len(Now.shares[r].row) + j
      IN  p <= Len(Now.secret) => Now.shares[r].row[j] # Now.secret[p]
===============================================================================
