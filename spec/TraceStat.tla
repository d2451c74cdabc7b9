-------------------------------- MODULE TraceStat ------------------------------
(***************************************************************************)
(* Projections of very many calls: histograms of the recovered random      *)
(* material of splits, the arrangements a permutation took, and repeated   *)
(* windows of random bytes.  The design models say that the material is    *)
(* drawn uniformly and independently (MC_Sharing: PerfectSecrecy needs     *)
(* every coefficient vector to be possible, and each equally often;        *)
(* MC_Perm: every arrangement has a state that leads to it).  What is      *)
(* compared with that here are counts, with thresholds that a correct      *)
(* implementation misses with a probability below 10^-12 per run.          *)
(***************************************************************************)
EXTENDS TraceBase, SequencesExt, FiniteSets

vars == << l, tally >>
e == Trace[l]

Sum(h) == FoldLeft(LAMBDA acc, v : acc + v, 0, h)
Dev(h, exp) == FoldLeft(LAMBDA acc, v : acc + (v - exp) * (v - exp), 0, h)
\* 256 counts that should be equal: none is off by more than 10 standard deviations,
\* and chi square (255 degrees of freedom: mean 255, standard deviation 23) is not
\* above 500, provided that there are enough samples.
Enough(h) == Sum(h) >= 256 * 12
Uniform(h) ==
  LET exp == Sum(h) \div 256
  IN  /\ \A i \in 1 .. 256 : h[i] - exp <= 46000 /\ exp - h[i] <= 46000
                             /\ (h[i] - exp) * (h[i] - exp) <= 100 * (exp + 1)
      /\ Dev(h, exp) <= 500 * (exp + 1)

\* Of 65536 pairs, 65536 (1 - e^-(total/65536)) should be seen; somewhat fewer when one
\* of the bytes is a tag (never 0, and the same at all positions of a split).
PairsSeen(total) ==
  CASE total >= 1310720 -> 65000
    [] total >= 524288 -> 64000
    [] total >= 262144 -> 60000
    [] total >= 131072 -> 50000
    [] total >= 65536 -> 33000
    [] OTHER -> 0

\* How many values should be seen, at least, among that many samples of a byte.
ValuesSeen(count) == CASE count >= 4096 -> 250
                       [] count >= 1024 -> 235
                       [] count >= 256 -> 110
                       [] count >= 64 -> 30
                       [] OTHER -> 0

AllHists(names) == \A i \in DOMAIN e.hists : e.hists[i].name \in names /\ Enough(e.hists[i].h) => Uniform(e.hists[i].h)
IsKeyPair(p) == p.name \in {"key, tag of share 1", "key, tag of same share", "key, byte before", "key, key before"}
Varies(p) == ~(e.fixed /\ p.name \in {"first, secret byte", "last, secret byte"})
IndependentPair(p) ==
  /\ (Varies(p) /\ e.splits >= 4096) => p.distinct >= PairsSeen(p.total)
  /\ Enough(p.xor) => Uniform(p.xor)

StatClauses ==
  { << "C03", "splits succeed", e.out = "ok" >>, << "C04", "splits succeed", e.out = "ok" >> }
  \cup (IF ~e.reseed \/ e.splits = 0 THEN {} ELSE      \* the program-wide source is seeded alike before each
    { << "C04", "no coefficient and no key byte follows from the seed of the program-wide source",
         /\ \A p \in DOMAIN e.values : \A c \in DOMAIN e.values[p] : e.values[p][c] >= ValuesSeen(e.splits)
         /\ \A i \in DOMAIN e.keyvalues : e.keyvalues[i] >= ValuesSeen(e.splits) >> })
  \cup (IF e.splits = 0 THEN {} ELSE
  { << "C03", "coefficients are uniform", AllHists({"first", "last", "inner"}) >>,
    << "C03", "every position is masked by its own uniform coefficients",
       /\ \A i \in DOMAIN e.posh : Enough(e.posh[i].h) => Uniform(e.posh[i].h)
       /\ \A p \in DOMAIN e.values : \A c \in DOMAIN e.values[p] : e.values[p][c] >= ValuesSeen(e.splits) >>,
    << "C03", "coefficients are independent of secret, tags, each other and other positions",
       \A i \in DOMAIN e.pairs : IsKeyPair(e.pairs[i]) \/ IndependentPair(e.pairs[i]) >> }
  \cup (IF e.scheme # "ssms" THEN {} ELSE
  { << "C07", "encryption keys are uniform and independent of what shares show",
       /\ AllHists({"key"})
       /\ \A i \in DOMAIN e.keyvalues : e.keyvalues[i] >= ValuesSeen(e.splits)
       /\ \A i \in DOMAIN e.pairs : IsKeyPair(e.pairs[i]) => IndependentPair(e.pairs[i]) >>,
    << "C07", "the sharing of the key is uniform and independent",
       /\ AllHists({"first", "last", "inner"})
       /\ \A p \in DOMAIN e.values : \A c \in DOMAIN e.values[p] : e.values[p][c] >= ValuesSeen(e.splits)
       /\ \A i \in DOMAIN e.pairs : IndependentPair(e.pairs[i]) >> }))

Elems(s) == { s[i] : i \in DOMAIN s }
RECURSIVE Factorial(_)
Factorial(n) == IF n = 0 THEN 1 ELSE n * Factorial(n - 1)
Valid(p) == Len(p) = e.n /\ (IF e.pkg = "uniq" THEN Cardinality(Elems(p)) = e.n ELSE Elems(p) = 0 .. (e.n - 1))
ReachClauses ==
  { << "C13", "the calls return", e.out = "ok" >>,
    << "C13", "every result is a permutation, or n different bytes", \A i \in DOMAIN e.odd : Valid(e.odd[i]) >>,
    << "C13", "no element is excluded from a position",
       \A p \in 1 .. e.n :
         IF e.pkg = "uniq" THEN Len(e.seen[p]) >= 255 ELSE Elems(e.seen[p]) = 0 .. (e.n - 1) >> }
  \cup (IF e.n > 5 \/ e.pkg = "uniq" THEN {} ELSE
  { << "C13", "every arrangement occurs", Cardinality(Elems(e.arrangements)) = Factorial(e.n) >> })

\* Very many small splits, combines and regenerations: counts of what should not be.
None(counts) == \A i \in DOMAIN counts : counts[i] = 0
ManyClauses ==
  LET shares == None(<< e.count, e.length, e.tags, e.poly >>)
      worker == e.api \in {"wshamir", "wssms"}
      ran == e.out = "ok" /\ e.splits > 0
  IN  { << "C09", "none of very many splits is refused", ran /\ e.refused = 0 >> }
      \cup (IF e.scheme = "ssms"
            THEN { << "C05", "very many secrets all come back", ran /\ None(<< e.refused, e.lost >>) >>,
                   << "C05", "very many share sets are all sound", shares /\ e.ids = 0 >> }
            ELSE { << "C01", "very many secrets all come back", ran /\ None(<< e.refused, e.lost >>) >>,
                   << "C02", "very many share sets are all sound", ran /\ shares >>,
                   << "C08", "very many regenerations all give new, valid shares",
                      ran /\ e.regens > 0 /\ None(<< e.regen, e.newtags, e.newpoly, e.newlost >>) >>,
                   << "C09", "none of very many regenerations is refused", ran /\ e.regen = 0 >> })
      \cup (IF ~worker THEN {} ELSE
           { << "C16", "very many worker splits all answer as the scheme does",
                ran /\ shares /\ None(<< e.refused, e.lost, e.ids >>) >> })

Clauses ==
  CASE e.ev = "stat" -> StatClauses
    [] e.ev = "reach" -> ReachClauses
    [] e.ev = "many" -> ManyClauses
    [] e.ev = "reads" ->
         { << "C04", "generators can be made and read", e.out = "ok" /\ e.total > 0 >>,
           << "C04", "no 12 bytes read from generators occur twice", e.repeated = 0 >> }
    [] e.ev = "rank" ->
         \* no sum of bits of coefficients, key and secret of two splits is ever constant, or a
         \* sum of bits of their tags; 96 vectors more than bits, so random ones miss it once in 2^96
         LET free == e.out = "ok" /\ e.samples > 0 /\ e.rank = e.bits + e.tagrank
         IN  { << "C03", "no linear relation binds coefficients, secret and tags", free >>,
               << "C04", "no linear relation binds the material of successive splits", free >> }
             \cup (IF e.scheme = "ssms" THEN { << "C07", "no linear relation binds key, its sharing, secret and tags", free >> } ELSE {})
             \cup (IF e.api \in {"wshamir", "wssms"} THEN { << "C16", "no linear relation binds a worker's successive splits", free >> } ELSE {})
    [] e.ev = "starve" ->
         \* the operating system gave no more randomness: nothing secret may be made of what
         \* there is (a call that refuses, panics or ends the process makes nothing)
         { << p, "nothing is shared without randomness", e.failed => e.out # "ok" >> : p \in {"C03", "C04", "C07"} }
    [] e.ev = "overlap" ->
         { << "C04", "far reads of several generators succeed", e.out = "ok" >>,
           << "C04", "no generator runs into its past or into another one", e.repeated = 0 /\ e.foreign = 0 >> }
    [] e.ev = "items" ->
         { << "C04", "concurrent calls of one generator succeed", e.out = "ok" /\ e.total > 0 >>,
           << "C04", "nothing drawn concurrently from one generator comes twice", e.repeated = 0 >> }
    [] e.ev = "psplit" ->
         { << "C04", "concurrent splits succeed", e.out = "ok" >>,
           << "C04", "no 12 bytes of random material of concurrent splits occur twice", e.repeated = 0 >>,
           << "C07", "splits of long secrets succeed", e.out = "ok" /\ e.total > 0 >>,
           << "C07", "no 12 bytes of keys, their sharing and the keystream occur twice", e.repeated = 0 >>,
           << "C16", "long sequences of worker splits succeed", e.out = "ok" /\ e.total > 0 >>,
           << "C16", "no 12 bytes of a worker's material occur twice in long sequences", e.repeated = 0 >>,
           << "C03", "splits of long secrets succeed", e.out = "ok" /\ e.total > 0 >>,
           << "C03", "no 12 bytes of coefficients of a long secret occur twice", e.repeated = 0 >> }
    [] e.ev = "windows" ->
         { << "C04", "no 12 bytes of random material occur twice", e.repeated = 0 >>,
           << "C03", "no 12 bytes of coefficients occur twice", e.repeated = 0 >>,
           << "C07", "keys and key sharings have no 12 bytes in common", e.repeated = 0 >> }
    [] e.ev = "died" -> { << p, "the calls do not bring the program down", FALSE >> : p \in {"C01", "C02", "C03", "C04", "C05", "C07", "C08", "C09", "C13", "C16"} }
    [] OTHER -> {}

Init == TraceBaseInit
Next == l <= Len(Trace) /\ l' = l + 1 /\ Judge({ c \in Clauses : On(c[1]) })
Spec == Init /\ [][Next]_vars
View == l
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
===============================================================================
