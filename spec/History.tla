--------------------------------- MODULE History ------------------------------
(***************************************************************************)
(* Histories of the use of the library: a state machine over the objects   *)
(* a program holds (generators, workers, deals, what it has overwritten).  *)
(* TLC's simulator produces behaviours; the sequence of calls in each      *)
(* (variable hist, written in the driver's script format) is replayed      *)
(* against the implementation, and the recorded calls are checked by       *)
(* TraceSharing.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, Randomization

CONSTANTS
  Depth,         \* calls per history
  Apis,          \* split entry points used
  Sizes,         \* << n, k >> pairs
  Lens,          \* secret lengths
  Seeding,       \* does the program reseed math/rand?
  Overwrites,    \* does the program overwrite its own slices?
  Reads,         \* does the program read generators directly?
  KeyedGens      \* may generators be keyed by the caller?

SizesMix == { << 2, 2 >>, << 3, 2 >>, << 5, 3 >>, << 4, 4 >>, << 6, 5 >> }

VARIABLES hist, deals, ngen, nwork, dirty, fresh, done

vars == << hist, deals, ngen, nwork, dirty, fresh, done >>

MaxGens == 3
MaxWorkers == 2
MaxDeals == 8

IsSSMS(api) == api \in {"ssms", "ssmsrand", "wssms"}
UsesGen(api) == api \in {"rand", "old", "ssmsrand"}
UsesWorker(api) == api \in {"wshamir", "wssms"}

DealName(i) == "d" \o ToString(i)
Do(op) == /\ Len(hist) < Depth
          /\ hist' = Append(hist, op)
          /\ UNCHANGED done

Init ==
  /\ hist = << >> /\ deals = << >> /\ ngen = 0 /\ nwork = 0
  /\ dirty = {} /\ fresh = 0 /\ done = FALSE

NewGen ==
  /\ ngen < MaxGens
  /\ \E kind \in {"fresh"} \cup (IF KeyedGens THEN {"key"} ELSE {}) :
       \E key \in (IF kind = "key" THEN {1, 2} ELSE {0}) :      \* equal keys are possible
         Do([op |-> "gen", g |-> "g" \o ToString(ngen + 1), kind |-> kind, keyid |-> key])
  /\ ngen' = ngen + 1
  /\ UNCHANGED << deals, nwork, dirty, fresh >>

NewWorker ==
  /\ nwork < MaxWorkers
  /\ Do([op |-> "worker", w |-> "w" \o ToString(nwork + 1)])
  /\ nwork' = nwork + 1
  /\ UNCHANGED << deals, ngen, dirty, fresh >>

\* seed = -1: filled in by the check from VERIF_SEED.
Split ==
  /\ Len(deals) < MaxDeals
  /\ \E api \in Apis, nk \in Sizes, len \in Lens :
       /\ UsesGen(api) => ngen > 0
       /\ UsesWorker(api) => nwork > 0
       /\ \E g \in (IF UsesGen(api) THEN 1 .. ngen ELSE IF UsesWorker(api) THEN 1 .. nwork ELSE {0}) :
            /\ Do([op |-> "split", api |-> api, n |-> nk[1], k |-> nk[2],
                   sec |-> [kind |-> "rnd", len |-> len, seed |-> fresh],
                   d |-> DealName(Len(deals) + 1),
                   g |-> IF UsesGen(api) THEN "g" \o ToString(g) ELSE "",
                   w |-> IF UsesWorker(api) THEN "w" \o ToString(g) ELSE ""])
            /\ deals' = Append(deals, [api |-> api, n |-> nk[1], k |-> nk[2], shares |-> nk[1]])
            /\ fresh' = fresh + 1
  /\ UNCHANGED << ngen, nwork, dirty >>

Clean(d) == { i \in 0 .. (deals[d].shares - 1) : << d, i >> \notin dirty }
Order(s, how) ==
  LET asc == SetToSortSeq(s, LAMBDA a, b : a < b)
  IN IF how = "asc" THEN asc ELSE Reverse(asc)
RefsTo(d, seq) == [j \in DOMAIN seq |-> [d |-> DealName(d), i |-> seq[j]]]

Combine ==
  /\ \E d \in DOMAIN deals :
       LET deal == deals[d]
           ok == Clean(d)
       IN \E s \in { t \in SUBSET ok :
                        Cardinality(t) \in {deal.k - 1, deal.k, deal.k + 1, Cardinality(ok)}
                        /\ Cardinality(t) > 0 },
             how \in {"asc", "desc"},
             viaWorker \in (IF nwork > 0 THEN BOOLEAN ELSE {FALSE}) :
            Do([op |-> "combine",
                api |-> (IF viaWorker THEN "w" ELSE "") \o (IF IsSSMS(deal.api) THEN "ssms" ELSE "shamir"),
                w |-> IF viaWorker THEN "w1" ELSE "",
                n |-> deal.n, k |-> deal.k, list |-> RefsTo(d, Order(s, how)), full |-> TRUE])
  /\ UNCHANGED << deals, ngen, nwork, dirty, fresh >>

Regenerate ==
  /\ \E d \in DOMAIN deals :
       LET deal == deals[d] IN
       /\ ~IsSSMS(deal.api) /\ Cardinality(Clean(d)) >= deal.k /\ deal.shares <= 8
       /\ \E m \in {1, 2}, how \in {"asc", "desc"} :
            /\ Do([op |-> "regen", d |-> DealName(d), m |-> m, list |-> RefsTo(d, Order(Clean(d), how))])
            /\ deals' = [deals EXCEPT ![d].shares = @ + m]
  /\ UNCHANGED << ngen, nwork, dirty, fresh >>

\* The program writes into a slice it holds: its secret, or a share.
Overwrite ==
  /\ Overwrites
  /\ \E d \in DOMAIN deals :
       \/ /\ \E how \in {"fill", "flip"} :
               Do([op |-> "write", obj |-> DealName(d) \o "/sec", how |-> how])
          /\ UNCHANGED dirty
       \/ \E i \in 0 .. (deals[d].shares - 1), how \in {"append", "fill", "first", "last"} :
            /\ Do([op |-> "write", obj |-> DealName(d) \o "/" \o ToString(i), how |-> how])
            /\ dirty' = IF how = "append" THEN dirty ELSE dirty \cup {<< d, i >>}
       \/ \* a combined secret, if there are that many by then
          /\ \E j \in 1 .. 3, how \in {"append", "fill"} :
               Do([op |-> "write", obj |-> "res" \o ToString(j), how |-> how])
          /\ UNCHANGED dirty
  /\ UNCHANGED << deals, ngen, nwork, fresh >>

Audit ==
  /\ Overwrites /\ deals # << >>
  /\ Do([op |-> "audit"])
  /\ UNCHANGED << deals, ngen, nwork, dirty, fresh >>

Read ==
  /\ Reads /\ ngen > 0
  /\ \E g \in 1 .. ngen :
       \/ \E len \in {0, 1, 15, 16, 17, 64, 100}, dirt \in {0, 255} :
            Do([op |-> "read", g |-> "g" \o ToString(g), len |-> len, dirty |-> dirt])
       \/ \E n \in {0, 1, 2, 7, 19, 20, 255} : 
            \/ Do([op |-> "perm", g |-> "g" \o ToString(g), n |-> n])
            \/ Do([op |-> "uniq", g |-> "g" \o ToString(g), n |-> n])
  /\ UNCHANGED << deals, ngen, nwork, dirty, fresh >>

Reseed ==
  /\ Seeding
  /\ \E v \in {1, 42} : Do([op |-> "seed", seed |-> v])
  /\ UNCHANGED << deals, ngen, nwork, dirty, fresh >>

Finish ==
  /\ Len(hist) = Depth /\ ~done /\ done' = TRUE
  /\ UNCHANGED << hist, deals, ngen, nwork, dirty, fresh >>
\* One disjunct per kind of call, so that the simulator chooses among the kinds first.
Next ==
  \/ NewGen \/ NewWorker \/ Split \/ Combine \/ Regenerate \/ Overwrite \/ Audit
  \/ Read \/ Reseed \/ Finish

Spec == Init /\ [][Next]_vars

\* Printed when a behaviour is complete.
Emit == done => PrintT("@@HIST " \o ToJson(hist))

\* The script refers only to what exists.
Referenced ==
  /\ \A i \in DOMAIN hist :
       hist[i].op = "combine" =>
         \E j \in 1 .. (i - 1) : hist[j].op = "split" /\ hist[j].d = hist[i].list[1].d
  /\ \A p \in dirty : p[1] \in DOMAIN deals
===============================================================================
