-------------------------------- MODULE Sharing -------------------------------
(***************************************************************************)
(* The library as a state machine: deals (one per split), what is combined *)
(* and what is regenerated.  The result of a call is an argument of its    *)
(* action; the action is enabled exactly for the results the call may      *)
(* return.  MC_Sharing.tla enumerates the behaviours in small fields and   *)
(* TraceSharing.tla checks recorded calls of the implementation against    *)
(* these actions.  The clauses of each action are named, so that a         *)
(* rejected call can be attributed to a property.                          *)
(***************************************************************************)
EXTENDS SSMSMath, Api

VARIABLE deals      \* deal name -> [scheme, secret, n, k, shares, ...]

SharingInit == deals = << >>

-----------------------------------------------------------------------------
(* Which clauses of an exact sharing a list of shares violates. *)

ShamirFlaws(secret, shares, n, k) ==
  IF Len(shares) # n THEN {"count"}
  ELSE IF \E i \in 1 .. n : Len(shares[i]) # Len(secret) + 1 THEN {"length"}
  ELSE IF ~TagsOK(TagsOf(shares)) THEN {"tags"}
  ELSE (IF OnePolynomial(shares, k) THEN {} ELSE {"polynomial"})
       \cup (IF CombineValue(SubSeq(shares, 1, k)) = secret THEN {} ELSE {"secret"})

SplitShamir(d, secret, n, k, shares) ==
  /\ SplitVerdict(Len(secret), n, k) = "ok"
  /\ d \notin DOMAIN deals
  /\ ShamirFlaws(secret, shares, n, k) = {}
  /\ deals' = (d :> [scheme |-> SchemeShamir, secret |-> secret, n |-> n, k |-> k,
                     shares |-> shares]) @@ deals

\* Regeneration: shares given (indices into the deal) and the new ones.
RegenFlaws(deal, given, m, new) ==
  LET all == deal.shares \o new
      olds == { Tag(deal.shares[i]) : i \in Elems(given) }
  IN  IF Len(new) # m THEN {"count"}
      ELSE IF \E i \in 1 .. m : Len(new[i]) # Len(deal.shares[1]) THEN {"length"}
      ELSE IF \/ \E i \in 1 .. m : Tag(new[i]) = 0 \/ Tag(new[i]) \in olds
              \/ ~Distinct(TagsOf(new)) THEN {"tags"}
      ELSE IF OnePolynomial(SubSeq(deal.shares, 1, deal.k) \o new, deal.k) THEN {}
      ELSE {"polynomial"}

Regenerate(d, given, m, new) ==
  /\ d \in DOMAIN deals
  /\ Cardinality(Elems(given)) = Len(given) /\ Len(given) >= deals[d].k
  /\ m \in 0 .. (MaxParts - Len(given))
  /\ RegenFlaws(deals[d], given, m, new) = {}
  /\ deals' = [deals EXCEPT ![d].shares = @ \o new]

\* Combine does not change the state; its answer is determined.
CombineAnswer(d, given) ==
  IF Cardinality(Elems(given)) >= deals[d].k THEN deals[d].secret ELSE << >>
=============================================================================
