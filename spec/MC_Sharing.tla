------------------------------- MODULE MC_Sharing -----------------------------
(***************************************************************************)
(* Exhaustive check of Sharing in a small field: every secret, every set   *)
(* of tags and every coefficient of one split, then regeneration.          *)
(* The knobs turn the design into the mistakes it has to avoid; each of    *)
(* them must make an invariant fail (the checks run those as well).        *)
(***************************************************************************)
EXTENDS Sharing

CONSTANTS
  N, K,             \* parts and threshold
  SecretLen,        \* bytes in the secret
  NewShares,        \* number of shares regenerated
  TagSet,           \* tags a split may use   (knob: contains 0)
  DupTags,          \* knob: tags may repeat
  TopCoefs,         \* values of the leading coefficient (knob: without 0)
  SharedCoefs,      \* knob: the same coefficients at every byte position
  Secrets,          \* byte values of the secrets that are split
  StaleTags         \* knob: regeneration may repeat a tag

VARIABLES
  plan,             \* the call that is about to be made: secret and tags
  coefs             \* ghost: the coefficients of the deal

vars == << deals, plan, coefs >>

Coefs == [1 .. SecretLen -> [1 .. (K - 1) -> Field]]
CoefsAllowed ==
  { c \in Coefs :
      /\ \A j \in 1 .. SecretLen : c[j][K - 1] \in TopCoefs
      /\ SharedCoefs => \A j \in 1 .. SecretLen : c[j] = c[1] }
TagLists == { t \in [1 .. N -> TagSet] : DupTags \/ Distinct(t) }

\* The shares the design computes.
Evaluate(secret, tags, c) ==
  [i \in 1 .. Len(tags) |->
     [j \in 1 .. SecretLen |-> EvalPoly(<< secret[j] >> \o c[j], tags[i])] \o << tags[i] >>]

Init == SharingInit /\ coefs = << >> /\ plan = << >>

DoCall ==
  /\ plan = << >>
  /\ \E secret \in [1 .. SecretLen -> Secrets], tags \in TagLists :
       plan' = << secret, tags >>
  /\ UNCHANGED << deals, coefs >>

DoSplit ==
  /\ plan # << >> /\ DOMAIN deals = {}
  /\ \E c \in CoefsAllowed :
       /\ coefs' = c
       /\ deals' = "d" :> [scheme |-> SchemeShamir, secret |-> plan[1], n |-> N, k |-> K,
                           shares |-> Evaluate(plan[1], plan[2], c)]
  /\ UNCHANGED plan

Deal == deals["d"]

DoRegenerate ==
  /\ DOMAIN deals # {} /\ Len(Deal.shares) = N
  /\ NewShares > 0
  /\ \E given \in { [i \in 1 .. m |-> i] : m \in K .. N } :
       \E tags \in { t \in [1 .. NewShares -> Field] : StaleTags \/
                       (Distinct(t) /\ Elems(t) \cap ({0} \cup Elems(TagsOf(Deal.shares))) = {}) } :
         LET xs == TagsOf(SubSeq(Deal.shares, 1, Len(given)))
             new == [i \in 1 .. NewShares |->
                       [j \in 1 .. SecretLen |->
                          InterpAt(xs, [g \in 1 .. Len(given) |-> Deal.shares[g][j]], tags[i])]
                       \o << tags[i] >>]
         IN  deals' = [deals EXCEPT !["d"].shares = @ \o new]
  /\ UNCHANGED << plan, coefs >>

Next == DoCall \/ DoSplit \/ DoRegenerate
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Dealt == DOMAIN deals # {}

\* All lists of K shares in every order; longer lists ascending and descending.
All == 1 .. (N + NewShares)
Ascending(s) == SetToSortSeq(s, LAMBDA a, b : a < b)
Lists == { l \in [1 .. K -> All] : Distinct(l) }
         \cup { Ascending(s) : s \in { t \in SUBSET All : Cardinality(t) > K } }
         \cup { Reverse(Ascending(s)) : s \in { t \in SUBSET All : Cardinality(t) > K } }

\* C01 (and C08 for the new shares): any list of at least k shares, in any order.
AnyQuorumReconstructs ==
  Dealt => \A l \in Lists :
    Elems(l) \subseteq 1 .. Len(Deal.shares) =>
      CombineValue([i \in 1 .. Len(l) |-> Deal.shares[l[i]]]) = CombineAnswer("d", l)

\* C02
Exact == Dealt => ShamirFlaws(Deal.secret, SubSeq(Deal.shares, 1, N), N, K) = {}

\* Refinement: what the design computes is a step of the specification.
SpecSplits == [][ DOMAIN deals = {} /\ DOMAIN deals' # {} =>
                    SplitShamir("d", deals'["d"].secret, N, K, deals'["d"].shares) ]_vars
SpecRegenerates ==
  [][ DOMAIN deals # {} /\ deals' # deals =>
        \E m \in K .. N :
          Regenerate("d", [i \in 1 .. m |-> i], NewShares,
                     SubSeq(deals'["d"].shares, N + 1, N + NewShares)) ]_vars

\* C03: for every coalition of fewer than k shares, every secret is consistent with
\* what it sees in the same number of ways.
View(tags, coalition, secret, c) ==
  [i \in coalition |-> [j \in 1 .. SecretLen |-> EvalPoly(<< secret[j] >> \o c[j], tags[i])]]
PerfectSecrecy ==
  Dealt =>
    LET tags == TagsOf(Deal.shares)
    IN  \A coalition \in { s \in SUBSET (1 .. N) : Cardinality(s) = K - 1 } :
          LET seen == View(tags, coalition, Deal.secret, coefs)
              ways(s) == Cardinality({ c \in CoefsAllowed : View(tags, coalition, s, c) = seen })
              here == ways(Deal.secret)
          IN  \A s \in [1 .. SecretLen -> Secrets] : ways(s) = here

\* C03, in the form used on traces: the coefficients can be recovered from k shares.
CoefficientsRecovered ==
  Dealt => Coefficients(SubSeq(Deal.shares, 1, N), K) = coefs

\* C08
RegeneratedValid ==
  (Dealt /\ Len(Deal.shares) > N) =>
     /\ TagsOK(TagsOf(Deal.shares))
     /\ OnePolynomial(Deal.shares, K)
=============================================================================
