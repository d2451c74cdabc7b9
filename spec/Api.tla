---------------------------------- MODULE Api ---------------------------------
(***************************************************************************)
(* The documented domain of every call and what a call must answer:        *)
(*   "ok"   it must succeed                                                *)
(*   "err"  it must return an error and no result                          *)
(*   "any"  either is fine (but it must return, and not panic)             *)
(* A share given to a call is described by its shape: a record with fields *)
(* nil, len, tag (last byte of a Shamir share), id (last byte of an SSMS   *)
(* share), mtag (tag of the metadata share inside an SSMS share).          *)
(* This module is the one place that says what is in the domain; it is     *)
(* used to generate test cases (Cases.tla) and to judge recorded calls     *)
(* (TraceSharing.tla).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxParts == 255
MetaOverhead == 21          \* 16 bytes key, 4 bytes length, 1 byte tag
MinSSMSLen == MetaOverhead + 1 + 1

Elems(s) == { s[i] : i \in DOMAIN s }
AllDifferent(s) == \A i, j \in DOMAIN s : i < j => s[i] # s[j]

SchemeShamir == "shamir"
SchemeSSMS == "ssms"
\* The algorithm names a worker knows.
KnownAlg(alg) == alg \in {"shamir", "krawczyk"}

\* Split, every scheme and entry point.
ParamsInDomain(n, k) == 2 <= k /\ k <= n /\ n <= MaxParts
SplitVerdict(len, n, k) == IF ParamsInDomain(n, k) /\ len >= 1 THEN "ok" ELSE "err"

\* Combine and Regenerate of Shamir shares.  A tag of 0 never occurs in a share that
\* a split returned; what happens with one is left open.
ListWellFormed(shape) ==
  /\ Len(shape) >= 2
  /\ \A i \in DOMAIN shape : shape[i].len = shape[1].len
  /\ shape[1].len >= 2
  /\ AllDifferent([i \in DOMAIN shape |-> shape[i].tag])
HasZeroTag(shape) == \E i \in DOMAIN shape : shape[i].tag = 0

CombineVerdict(shape) ==
  IF ~ListWellFormed(shape) THEN "err"
  ELSE IF HasZeroTag(shape) THEN "any"
  ELSE "ok"

UnusedTags(shape) == MaxParts - Len(shape)
RegenVerdict(shape, m) ==
  IF ~ListWellFormed(shape) \/ m < 0 THEN "err"
  ELSE IF HasZeroTag(shape) THEN "any"
  ELSE IF m <= UnusedTags(shape) THEN "ok" ELSE "err"

\* Combine of SSMS shares.  refs[i] = << deal, index >> says which genuine share the
\* i-th one is, and << "", 0 >> that it is not one (or nil).
Given(shape) == { i \in DOMAIN shape : ~shape[i].nil }
SSMSMalformed(shape, n) ==
  \/ Given(shape) = {}
  \/ \E i \in Given(shape) : shape[i].len < MinSSMSLen
  \/ \E i, j \in Given(shape) : shape[i].len # shape[j].len
  \/ \E i \in Given(shape) : shape[i].id >= n
SSMSCombineVerdict(shape, refs, n, k, dealN, dealK) ==
  LET given == Given(shape)
      genuine == { i \in given : refs[i][1] # "" }
      same == Cardinality({ refs[i][1] : i \in genuine }) <= 1
      distinct == { refs[i] : i \in genuine }
  IN  IF ~ParamsInDomain(n, k) \/ SSMSMalformed(shape, n) THEN "err"
      ELSE IF genuine # given \/ ~same THEN "any"      \* forged or mixed: open
      ELSE IF Cardinality(distinct) < Cardinality(given) THEN "err"   \* duplicated
      ELSE IF n # dealN \/ k # dealK
        THEN IF Cardinality(distinct) < dealK /\ k = dealK THEN "err" ELSE "any"
      ELSE IF Cardinality(distinct) < k THEN "err"
      ELSE "ok"
===============================================================================
