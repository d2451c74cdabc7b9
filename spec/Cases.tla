---------------------------------- MODULE Cases -------------------------------
(***************************************************************************)
(* Case analysis of the arguments of every call: one state per case.  Each *)
(* state is turned into one call of the implementation (checks/gen.py maps *)
(* the descriptors to shares), and the recorded call is judged by Api.     *)
(* The invariants say that the domains of Api are sensible: a verdict is   *)
(* defined everywhere, does not depend on the order of the list, and is    *)
(* not vacuous.                                                            *)
(***************************************************************************)
EXTENDS Api, TLC, Json, SequencesExt

CONSTANTS Kind, MaxLen, Numbers, Lengths

VARIABLE case

MinInt == -2147483647 - 1
MaxInt == 2147483647

(* Values of the constants; length -1 stands for a nil secret, 0 for an empty one. *)
Numbers_regen_q == {MinInt, -1, 0, 1, 5, 252, 253, 254, 255, 256, 257, 512, MaxInt}
Numbers_regen_t == {MinInt, -256, -255, -1, 0, 1, 2, 5, 127, 128, 251, 252, 253, 254, 255, 256, 257, 258, 512, 65536, MaxInt}
Numbers_split_q == {MinInt, -1, 0, 1, 2, 3, 254, 255, 256, 257, 258, MaxInt}
Lengths_split_q == {-1, 0, 1, 5}
Numbers_split_t == {MinInt, -65534, -255, -254, -2, -1, 0, 1, 2, 3, 4, 7, 127, 128, 129, 253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 514, 65535, 65536, 65537, 65538, MaxInt}
Lengths_split_t == {-1, 0, 1, 2, 5, 64}
Numbers_ssmsparams_q == {MinInt, -1, 0, 1, 2, 3, 4, 254, 255, 256, 257, 258, MaxInt}
Numbers_ssmsparams_t == {MinInt, -254, -253, -2, -1, 0, 1, 2, 3, 4, 5, 8, 128, 253, 254, 255, 256, 257, 258, 259, 512, 513, 514, 515, 65538, 65539, MaxInt}

SplitApis == {"split", "splitp", "generic", "old", "rand", "ssms", "ssmsrand", "wshamir", "wssms", "wother"}

\* Descriptors of shares in a list given to Shamir combine and regenerate.  g0..g2 are
\* genuine shares of one deal, copy is a second copy of g0, twin is g1 with the tag of
\* g0, zero is g1 with tag 0.
ShamirDesc == {"g0", "g1", "g2", "copy", "twin", "zero", "nil", "empty", "one", "cut", "ext"}
\* Descriptors for SSMS; n = 3, k = 2.  id3 and id255 are g1 with that part id, l20..l22
\* have that many bytes.
SSMSDesc == {"g0", "g1", "g2", "copy", "nil", "empty", "l20", "l21", "l22", "cut", "ext", "id3", "id255"}

\* Long lists: g genuine shares of a deal, with something inserted (or put) at the front,
\* in the middle or at the end.  copy repeats the share that is first (last) in the list.
BigSizes == { << 5, 3 >>, << 17, 9 >>, << 66, 4 >>, << 70, 66 >>, << 130, 129 >>, << 255, 2 >>, << 255, 200 >> }
BigShamirSpoils == { "copy0", "copy1", "twin", "empty", "one", "cut", "ext" }
BigSSMSSpoils == { "copy0", "copy1", "nil", "empty", "l22", "cut", "ext", "idn", "id255" }
Wheres == { "front", "middle", "end" }

ListsOver(D) == UNION { [1 .. m -> D] : m \in 0 .. MaxLen }
NoNum == 0
Base == [kind |-> Kind, api |-> "", n |-> NoNum, k |-> NoNum, m |-> NoNum, len |-> NoNum, list |-> << >>]

\* (With a parameter, so that TLC does not compute the ones that are not asked for.)
SplitCases(numbers) == { [Base EXCEPT !.api = a, !.n = n, !.k = k, !.len = x] :
                  a \in SplitApis, n \in numbers, k \in numbers, x \in Lengths }
CombineCases(numbers) == { [Base EXCEPT !.list = s] : s \in ListsOver(ShamirDesc) }
RegenCases(numbers) == { [Base EXCEPT !.list = s, !.m = m] : s \in ListsOver(ShamirDesc), m \in numbers }
SSMSCases(numbers) == { [Base EXCEPT !.list = s, !.n = 3, !.k = 2] : s \in ListsOver(SSMSDesc) }
SSMSParamCases(numbers) ==
  { [Base EXCEPT !.list = s, !.n = n, !.k = k] :
      s \in { << >>, << "g0" >>, << "nil" >>, << "g2", "g0" >>, << "g0", "g1", "g2" >>, << "g1", "nil", "g2" >> },
      n \in numbers, k \in numbers }

BigCases(numbers, spoils) ==
  UNION { { [Base EXCEPT !.n = z[1], !.k = z[2], !.len = g, !.list = << w >>, !.m = m] :
              g \in { z[2] - 1, z[2], z[2] + 1, z[1] } \cap (1 .. z[1]),
              w \in { << "none", "end" >> } \cup (spoils \X Wheres), m \in numbers }
          : z \in BigSizes }

\* Lists of indices (as strings) into a deal: any quorum, in any order for few shares.
Ascending(s) == SetToSortSeq(s, LAMBDA x, y : x < y)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Orders(n, s) ==
  IF n <= MaxLen THEN { f \in [1 .. Cardinality(s) -> s] : AllDifferent(f) }
  ELSE { Ascending(s), Rev(Ascending(s)) }
Names(f) == [i \in DOMAIN f |-> ToString(f[i])]
QuorumCases(numbers) ==
  UNION { UNION { { [Base EXCEPT !.n = nk[1], !.k = nk[2], !.list = Names(f)] : f \in Orders(nk[1], s) }
                  : s \in { t \in SUBSET (0 .. (nk[1] - 1)) : Cardinality(t) >= nk[2] } }
          : nk \in { << n, k >> \in numbers \X numbers : ParamsInDomain(n, k) } }
QuorumNumbers_q == 2 .. 5
QuorumNumbers_t == 2 .. 7

TheCases == CASE Kind = "split" -> SplitCases(Numbers)
              [] Kind = "combine" -> CombineCases(Numbers)
              [] Kind = "regen" -> RegenCases(Numbers)
              [] Kind = "ssms" -> SSMSCases(Numbers)
              [] Kind = "big" -> BigCases({NoNum}, BigShamirSpoils)
              [] Kind = "bigregen" -> BigCases(Numbers, BigShamirSpoils)
              [] Kind = "bigssms" -> BigCases({NoNum}, BigSSMSSpoils)
              [] Kind = "quorum" -> QuorumCases(Numbers)
              [] Kind = "ssmsparams" -> SSMSParamCases(Numbers)

Init == case \in TheCases
Next == UNCHANGED case
Spec == Init /\ [][Next]_case

-----------------------------------------------------------------------------
(* The shape of a described share: deal n = 3, k = 2 with tags 1, 2, 3 and length L. *)
L == 6
LS == 28
ShapeOf(d) ==
  LET s(len, tag) == [nil |-> FALSE, len |-> len, tag |-> tag, id |-> 0, mtag |-> 0]
  IN CASE d = "g0" -> s(L, 1) [] d = "g1" -> s(L, 2) [] d = "g2" -> s(L, 3)
       [] d = "copy" -> s(L, 1) [] d = "twin" -> s(L, 1) [] d = "zero" -> s(L, 0)
       [] d = "nil" -> [s(0, -1) EXCEPT !.nil = TRUE] [] d = "empty" -> s(0, -1)
       [] d = "one" -> s(1, 7) [] d = "cut" -> s(L - 1, 9) [] OTHER -> s(L + 1, 0)
SSMSShapeOf(d) ==
  LET s(len, id) == [nil |-> FALSE, len |-> len, tag |-> 0, id |-> id, mtag |-> 5]
  IN CASE d = "g0" -> s(LS, 0) [] d = "g1" -> s(LS, 1) [] d = "g2" -> s(LS, 2)
       [] d = "copy" -> s(LS, 0) [] d = "nil" -> [s(0, -1) EXCEPT !.nil = TRUE]
       [] d = "empty" -> s(0, -1) [] d = "l20" -> s(20, 3) [] d = "l21" -> s(21, 3)
       [] d = "l22" -> s(22, 3) [] d = "cut" -> s(LS - 1, 2) [] d = "ext" -> s(LS + 1, 0)
       [] d = "id3" -> s(LS, 3) [] OTHER -> s(LS, 255)
RefOf(d) == CASE d \in {"g0", "copy"} -> << "d", 0 >> [] d = "g1" -> << "d", 1 >>
              [] d = "g2" -> << "d", 2 >> [] OTHER -> << "", 0 >>
Shapes(s) == [i \in DOMAIN s |-> ShapeOf(s[i])]
SSMSShapes(s) == [i \in DOMAIN s |-> SSMSShapeOf(s[i])]
Refs(s) == [i \in DOMAIN s |-> RefOf(s[i])]

\* The shapes of a long list: shares with tags 1, 2, ... (ids 0, 1, ...), and the odd one.
BigShapes(c) ==
  LET g == c.len
      odd == c.list[1][1]
      at == CASE c.list[1][2] = "front" -> 1 [] c.list[1][2] = "middle" -> 1 + g \div 2 [] OTHER -> g + 1
      s(i) == [nil |-> FALSE, len |-> L, tag |-> i, id |-> i - 1, mtag |-> i]
      all == [i \in 1 .. g |-> s(i)]
      o == CASE odd \in {"copy0", "twin"} -> s(1) [] odd = "copy1" -> s(g)
             [] odd = "nil" -> [s(1) EXCEPT !.nil = TRUE] [] odd = "empty" -> [s(1) EXCEPT !.len = 0, !.tag = -1]
             [] odd = "one" -> [s(1) EXCEPT !.len = 1] [] odd = "cut" -> [s(1) EXCEPT !.len = L - 1]
             [] odd = "l22" -> [s(1) EXCEPT !.len = 22] [] odd = "ext" -> [s(1) EXCEPT !.len = L + 1]
             [] odd = "idn" -> [s(1) EXCEPT !.id = c.n] [] OTHER -> [s(1) EXCEPT !.id = 255]
  IN  IF odd = "none" THEN all ELSE InsertAt(all, at, o)
BigRefs(c) ==
  LET sh == BigShapes(c)
  IN  [i \in DOMAIN sh |-> IF sh[i].nil \/ sh[i].len # L \/ sh[i].id >= c.n THEN << "", 0 >> ELSE << "d", sh[i].id >>]

Verdict(c) ==
  CASE c.kind = "split" -> IF c.api = "wother" THEN "err" ELSE SplitVerdict(IF c.len < 0 THEN 0 ELSE c.len, c.n, c.k)
    [] c.kind = "combine" -> CombineVerdict(Shapes(c.list))
    [] c.kind = "quorum" -> "ok"
    [] c.kind = "big" -> CombineVerdict(BigShapes(c))
    [] c.kind = "bigregen" -> RegenVerdict(BigShapes(c), c.m)
    [] c.kind = "bigssms" -> LET sh == BigShapes(c) IN
         SSMSCombineVerdict([i \in DOMAIN sh |-> [sh[i] EXCEPT !.len = IF @ = L THEN LS ELSE @]], BigRefs(c), c.n, c.k, c.n, c.k)
    [] c.kind = "regen" -> RegenVerdict(Shapes(c.list), c.m)
    [] OTHER -> SSMSCombineVerdict(SSMSShapes(c.list), Refs(c.list), c.n, c.k, 3, 2)

Defined == Verdict(case) \in {"ok", "err", "any"}
Flip(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
OrderIrrelevant == Verdict([case EXCEPT !.list = Flip(@)]) = Verdict(case)
\* Nothing in a long list makes up for what is wrong in it, wherever that stands.
BigVerdicts ==
  case.kind \in {"big", "bigregen", "bigssms"} =>
    LET odd == case.list[1][1]
        enough == IF case.kind = "bigssms" THEN case.len >= case.k ELSE case.len >= 2
        room == case.kind # "bigregen" \/ (case.m >= 0 /\ case.len + case.m <= MaxParts)
    IN Verdict(case) = IF odd \in {"none", "nil"} /\ enough /\ room THEN "ok" ELSE "err"
\* What a correct caller does is never refused, and a lone or duplicated share never does.
GenuineAccepted ==
  (case.kind \in {"combine", "ssms"} /\ Elems(case.list) \subseteq {"g0", "g1", "g2"}) =>
     (Verdict(case) = "ok" <=> (Len(case.list) >= 2 /\ AllDifferent(case.list)))
NilIrrelevant ==
  case.kind = "ssms" =>
    Verdict(case) = Verdict([case EXCEPT !.list = SelectSeq(@, LAMBDA d : d # "nil")])

Emit == PrintT("@@CASE " \o ToJson([case |-> case, verdict |-> Verdict(case)]))
===============================================================================
