----------------------------- MODULE TraceSharing -----------------------------
(***************************************************************************)
(* Recorded histories of calls - splits by every entry point, combines,    *)
(* regenerations, reads of generators, what the caller writes into its own *)
(* slices, and audits of all slices returned so far - checked against the  *)
(* actions of Sharing, the domains of Api, the memory model of Heap and    *)
(* the streams of the keyed generators.                                    *)
(***************************************************************************)
EXTENDS Sharing, TraceBase

VARIABLES
  mem,      \* object name -> digest of its contents (see Heap.tla)
  gens,     \* generator name -> [kind, key, pos, low, calls]: pos is where the next read
            \* starts, or Unknown; it is not before low
  drawn,    \* random material seen so far: sequence of byte sequences
  spins     \* << arguments, shares >> of series of splits by keyed generators

vars == << l, tally, deals, mem, gens, drawn, spins >>

e == Trace[l]
Returned == e.out \in {"ok", "err"}

-----------------------------------------------------------------------------
(* Keyed generators: what was called on them, and what they answered. *)

Keyed(g) == g \in DOMAIN gens /\ gens[g].kind = "key"

Unknown == << -1, -1 >>
\* Calls that go through a generator, as << arguments, result >>.
CallOn(args, result) == << args, result >>
\* Another generator with the same key that made the same calls so far must have
\* answered this one alike.
SamePast(g, h) ==
  LET n == Len(gens[g].calls)
  IN  /\ h # g /\ gens[h].kind = "key" /\ gens[h].key = gens[g].key
      /\ Len(gens[h].calls) > n
      /\ \A i \in 1 .. n : gens[h].calls[i][1] = gens[g].calls[i][1]
Reproduced(g, args, result) ==
  \A h \in { x \in DOMAIN gens : SamePast(g, x) } :
    LET c == gens[h].calls[Len(gens[g].calls) + 1]
    IN  c[1] = args => c[2] = result
Record(g, args, result, pos) ==
  gens' = [gens EXCEPT ![g].calls = Append(@, CallOn(args, result)), ![g].pos = pos,
                       ![g].low = IF pos = Unknown THEN @ ELSE pos]

\* A split or a failed split through a keyed generator is a call on it as well.
SplitArgs == << e.api, e.sdig, e.n, e.k >>
SplitOnGen ==
  IF e.ev = "split" /\ e.src \in DOMAIN gens
  THEN Record(e.src, SplitArgs, << e.out, e.shdig >>, Unknown)
  ELSE UNCHANGED gens
SplitReproClauses ==
  IF (On("C14") \/ On("C10")) /\ e.ev = "split" /\ Keyed(e.src)
  THEN LET same == Reproduced(e.src, SplitArgs, << e.out, e.shdig >>)
       IN  { << "C14", "splits driven by equal generators are equal", same >>,
             << "C10", "a keyed split gives the shares it gives alone", same >> }
  ELSE {}

-----------------------------------------------------------------------------
(* Splits *)

SplitOf == IF e.api = "wother" THEN "err" ELSE SplitVerdict(e.len, e.n, e.k)
IsWorker == e.api \in {"wshamir", "wssms", "wother"}

ShamirLensOK == Len(e.lens) = e.n /\ \A i \in 1 .. Len(e.lens) : e.lens[i] = e.len + 1
SSMSLensOK == Len(e.lens) = e.n /\ \A i \in 1 .. Len(e.lens) : e.lens[i] = ShareLen(e.len, e.k)

ShamirSplitClauses(p) ==
  LET sane == ShamirLensOK
      flaws == IF sane THEN ShamirFlaws(e.secret, e.shares, e.n, e.k) ELSE {}
  IN  { << p, "exactly n shares one byte longer than the secret", sane >>,
        << p, "tags non-zero and distinct", "tags" \notin flaws >>,
        << p, "all shares on one polynomial of degree below k", "polynomial" \notin flaws >>,
        << p, "value at zero is the secret", "secret" \notin flaws >> }

\* Of at least 8 positions one needs the full degree (chance of less: 2^-64).
LowerClauses(p) ==
  IF ~(ShamirLensOK /\ Len(e.secret) >= 8) THEN {} ELSE
  { << p, "shares are not of a lower threshold",
       ~TagsOK(TagsOf(e.shares)) \/ ~OnePolynomial(e.shares, e.k - 1) >>,
    << p, "no share is the secret",
       \A i \in 1 .. e.n : SubSeq(e.shares[i], 1, Len(e.secret)) # e.secret >> }

\* Of a long one pieces of plaintext and ciphertext are recorded.
PiecesOK(key) ==
  LET end == FoldLeft(LAMBDA acc, p : IF p.off > acc THEN p.off ELSE acc, 0, e.ofb) + 32
      stream == OfbStream(key, end)
  IN  \A i \in DOMAIN e.ofb :
        XorBytes(e.ofb[i].plain, SubSeq(stream, e.ofb[i].off + 1, e.ofb[i].off + 32)) = e.ofb[i].cipher

\* Of an SSMS split, in the parts that different properties speak about.
SSMSFlaws ==
  IF ~SSMSLensOK THEN {"lengths"}
  ELSE LET metas == TLCEval([i \in 1 .. e.n |-> MetaShare(e.shares[i])])
           ids == TLCEval([i \in 1 .. e.n |-> PartId(e.shares[i])])
           idsOK == (\A i \in 1 .. e.n : ids[i] \in 0 .. (e.n - 1)) /\ Distinct(ids)
           tagsOK == TagsOK(TagsOf(metas))
       IN  (IF idsOK THEN {} ELSE {"ids"})
           \cup (IF tagsOK THEN {} ELSE {"tags"})
           \cup (IF ~tagsOK \/ OnePolynomial(metas, e.k) THEN {} ELSE {"metapoly"})
           \cup (IF idsOK /\ ~OneCodeWord(e.shares, e.n, e.k) THEN {"codeword"} ELSE {})
           \cup (IF ~tagsOK THEN {}
                 ELSE LET meta == Meta(SubSeq(e.shares, 1, e.k))
                      IN  (IF LengthOf(meta) = e.len THEN {} ELSE {"length"})
                          \cup (IF e.full /\ idsOK /\
                                   Ofb(KeyOf(meta), Ciphertext(e.shares, e.k, e.len)) # e.secret
                                THEN {"cipher"} ELSE {})
                          \cup (IF ~e.full /\ e.ofb # << >> /\ idsOK /\ ~PiecesOK(KeyOf(meta))
                                THEN {"cipher"} ELSE {}))

SSMSShapeClauses(p) ==
  { << p, "share length is ceil(len/k)+22", SSMSLensOK >>,
    << p, "every share carries its own part id",
       ~SSMSLensOK \/
         LET ids == TLCEval([i \in 1 .. e.n |-> PartId(e.shares[i])])
         IN  (\A i \in 1 .. e.n : ids[i] \in 0 .. (e.n - 1)) /\ Distinct(ids) >> }
SSMSFormatClauses(p) ==
  LET f == SSMSFlaws
  IN  { << p, "share lengths and part ids as documented", f \cap {"lengths", "ids"} = {} >>,
        << p, "metadata shares: distinct non-zero tags", "tags" \notin f >>,
        << p, "metadata shares: one polynomial per byte", "metapoly" \notin f >>,
        << p, "metadata ends in the little-endian length", "length" \notin f >>,
        << p, "payloads are rows of the Reed-Solomon code word", "codeword" \notin f >> }
      \cup (IF ~e.full /\ e.ofb = << >> THEN {} ELSE { << p, "data rows are the AES-OFB ciphertext", "cipher" \notin f >> })
\* Sharing a key with threshold k: one polynomial of degree below k, and not of degree
\* below k-1 at all 20 positions (chance 2^-160).
SSMSSecretClauses(p) ==
  LET f == SSMSFlaws
      sane == f \cap {"lengths", "ids", "tags", "metapoly"} = {}
      metas == [i \in 1 .. e.n |-> MetaShare(e.shares[i])]
      key == KeyOf(Meta(SubSeq(e.shares, 1, e.k)))
      rows == DataRows(e.shares, e.k)
      plen == CeilDiv(e.len, e.k)
      chunk(r) == SubSeq(e.secret, (r - 1) * plen + 1, IF r * plen <= e.len THEN r * plen ELSE e.len)
      m == IF e.n < 16 THEN e.n ELSE 16
  IN  { << p, "the key is shared, and opens the ciphertext",
           f \cap {"tags", "metapoly", "cipher", "codeword"} = {} >> }
      \cup (IF ~sane THEN {} ELSE
        { << p, "no fewer than k shares determine the key", ~OnePolynomial(metas, e.k - 1) >> }
        \cup (IF m < 6 THEN {} ELSE
          { << p, "tags are not key bytes",
               /\ \E i \in 1 .. m : key[i] # Tag(metas[i])
               /\ \E i \in 1 .. m : key[i] # Tag(metas[i]) - 1 >> })
        \cup (IF ~e.full THEN {} ELSE
          { << p, "no payload shows the plaintext",
               \A r \in 1 .. e.k :
                 Len(chunk(r)) >= 8 =>
                   \A q \in 1 .. e.n :
                     SubSeq(Payload(e.shares[q]), 1, Len(chunk(r))) # chunk(r) >> }))

SplitClauses ==
  LET v == SplitOf IN
  If("C09",
    { << "C09", "split returns", Returned >>,
      << "C09", "split succeeds in the domain", v = "ok" => e.out # "err" >>,
      << "C09", "split refuses outside the domain", v = "err" => e.out # "ok" >>,
      << "C09", "an error comes without shares", e.out = "err" => e.nores >> })
  \cup (IF ~IsWorker THEN {} ELSE
    { << "C16", "worker split answers as the scheme does",
         CASE v = "ok" -> e.out = "ok" [] OTHER -> e.out = "err" /\ e.nores >> })
  \cup (IF e.scheme = "ssms" /\ v = "ok" THEN { << "C05", "split succeeds", e.out = "ok" >> } ELSE {})
  \cup If("C10", { << "C10", "calls answer as they do alone",
                      IF v = "ok" THEN e.out = "ok" ELSE e.out = "err" /\ e.nores >> })
  \cup If("C11", { << "C11", "split leaves the secret alone", e.args >> })
  \cup (IF ~(e.out = "ok" /\ v = "ok" /\ e.d # "") THEN {} ELSE    \* with d = "" nothing is recorded
    IF e.scheme = "shamir" THEN
      If("C02", ShamirSplitClauses("C02"))
      \cup If("C10", ShamirSplitClauses("C10"))
      \cup If("C17", { << "C17", c[2], c[3] >> : c \in ShamirSplitClauses("C17") })
      \cup (IF IsWorker /\ On("C16") THEN ShamirSplitClauses("C16") \cup LowerClauses("C16") ELSE {})
      \cup If("C03", LowerClauses("C03"))
    ELSE
      If("C05", SSMSShapeClauses("C05"))
      \cup If("C17", SSMSFormatClauses("C17"))
      \cup If("C07", SSMSSecretClauses("C07"))
      \cup (IF On("C10") /\ e.full THEN SSMSFormatClauses("C10") ELSE {})
      \cup (IF IsWorker /\ e.full /\ On("C16")
            THEN SSMSFormatClauses("C16") \cup SSMSSecretClauses("C16") ELSE {}))

\* The random material of a split as byte sequences: the rows (all coefficients at one
\* position) and columns (one coefficient at all positions) of the coefficient matrix,
\* and the key of an SSMS split.
Columns(m) == [c \in 1 .. Len(m[1]) |-> [j \in 1 .. Len(m) |-> m[j][c]]]
\* Two generators with the same key answer alike by design: not looked at here.
Alike(g) == Keyed(g) /\ \E h \in DOMAIN gens : h # g /\ gens[h].kind = "key" /\ gens[h].key = gens[g].key
Material ==
  IF ~(e.ev = "split" /\ e.out = "ok" /\ e.full /\ e.d # "") \/ Alike(e.src) THEN << >>
  ELSE IF e.scheme = "shamir" THEN
    IF ~ShamirLensOK \/ ~TagsOK(TagsOf(e.shares)) THEN << >>
    ELSE LET m == Coefficients(e.shares, e.k) IN m \o Columns(m)
  ELSE
    IF SSMSFlaws \cap {"lengths", "tags"} # {} THEN << >>
    ELSE LET metas == TLCEval([i \in 1 .. e.k |-> MetaShare(e.shares[i])])
             m == Coefficients(metas, e.k)
         IN  m \o Columns(m) \o << KeyOf(Meta(SubSeq(e.shares, 1, e.k))) >>

Collects == Focus \in {"C04", "C07", "C10", "C16", "ALL"}

TraceSplit ==
  /\ Judge(SplitClauses \cup SplitReproClauses)
  /\ deals' = IF e.out = "ok" /\ e.d # ""
              THEN (e.d :> [scheme |-> e.scheme, secret |-> e.secret, n |-> e.n, k |-> e.k,
                            len |-> e.len, shares |-> e.shares, sdig |-> e.sdig,
                            full |-> e.full, sane |-> ShamirLensOK, stored |-> FALSE,
                            worker |-> IsWorker]) @@ deals
              ELSE deals
  /\ drawn' = IF Collects THEN drawn \o SelectSeq(Material, LAMBDA s : Len(s) >= 8) ELSE drawn

\* A share set that this build did not make.  That it is one is a fact about the file or
\* the specification that it comes from, not about the implementation: LoadOK.
LoadOK ==
  IF e.scheme = "shamir" THEN
     \/ Len(e.shares) < e.n        \* not all of a long one are kept
     \/ ShamirFlaws(e.secret, e.shares, e.n, e.k) = {}
  ELSE Len(e.shares) < e.n \/ SSMSFlaws = {}
TraceLoad ==
  /\ Assert(LoadOK, << "not a share set in the documented format", e >>)
  /\ deals' = (e.d :> [scheme |-> e.scheme, secret |-> e.secret, n |-> e.n, k |-> e.k,
                       len |-> e.len, shares |-> e.shares, sdig |-> e.sdig,
                       full |-> e.full, sane |-> TRUE, stored |-> TRUE, worker |-> FALSE]) @@ deals
  /\ UNCHANGED << tally, drawn >>

-----------------------------------------------------------------------------
(* Combine *)

\* The deal of which all given shares are genuine, or "".
RefDeals == { r[1] : r \in Elems(e.refs) }
OneDeal ==
  IF Cardinality(RefDeals) = 1 /\ RefDeals \subseteq DOMAIN deals
  THEN CHOOSE d \in RefDeals : TRUE ELSE ""
\* The same, where nil shares do not count.
OneDealNil ==
  LET rd == { e.refs[i][1] : i \in Given(e.shape) }
  IN  IF Cardinality(rd) = 1 /\ rd \subseteq DOMAIN deals THEN CHOOSE d \in rd : TRUE ELSE ""

Gives(secretDig, len) == e.out = "ok" /\ e.rdig = secretDig /\ e.rlen = len

ShamirCombineClauses ==
  LET v == CombineVerdict(e.shape)
      d == OneDeal
      isNew == d # "" /\ \E i \in DOMAIN e.refs : e.refs[i][2] >= deals[d].n
      \* an old share that was not given to Regenerate may have a new one's tag
      enough == d # "" /\ Cardinality(Elems(e.refs)) = Len(e.refs)
                /\ Len(e.refs) >= deals[d].k /\ (isNew => v = "ok")
      right == Gives(deals[d].sdig, deals[d].len)
  IN  If("C09",
        { << "C09", "combine returns", Returned >>,
          << "C09", "combine succeeds in the domain", v = "ok" => e.out # "err" >>,
          << "C09", "combine refuses outside the domain", v = "err" => e.out # "ok" >>,
          << "C09", "an error comes without data", e.out = "err" => e.nores >> })
      \cup (IF enough
            THEN { << IF isNew THEN "C08" ELSE "C01",
                      "at least k shares give the secret", right >>,
                   << "C10", "at least k shares give the secret", right >> }
                 \cup (IF IsWorker \/ deals[d].worker
                       THEN { << "C16", "at least k shares give the secret", right >> } ELSE {})
                 \cup (IF deals[d].stored
                       THEN { << "C17", "a stored share set combines to its secret", right >> } ELSE {})
            ELSE {})
      \cup (IF d # "" /\ v = "ok" /\ ~enough /\ deals[d].len >= 8
            THEN { << "C03", "fewer than k shares do not give the secret",
                      ~(e.out = "ok" /\ e.rdig = deals[d].sdig) >> } ELSE {})
      \cup (IF On("C17") /\ v = "ok" /\ e.full
            THEN { << "C17", "combining is interpolation at zero",
                      e.out = "ok" /\ e.res = CombineValue(e.in) >> } ELSE {})
      \cup (IF v = "ok" /\ IsWorker THEN { << "C16", "worker combine succeeds", e.out = "ok" >> } ELSE {})

SSMSCombineClauses ==
  LET d == OneDealNil
      v == SSMSCombineVerdict(e.shape, e.refs, e.n, e.k,
                              IF d = "" THEN -1 ELSE deals[d].n, IF d = "" THEN -1 ELSE deals[d].k)
      bad == d # "" /\ deals[d].scheme # "ssms"      \* Shamir shares given to SSMS
      verdict == IF bad /\ v = "ok" THEN "any" ELSE v
      right == Gives(deals[d].sdig, deals[d].len)
  IN  If("C06",
        { << "C06", "combine returns", Returned >>,
          << "C06", "malformed or too few shares are refused", verdict = "err" => e.out # "ok" >>,
          << "C06", "an error comes without data", e.out = "err" => e.nores >> })
      \cup If("C09",
        { << "C09", "combine returns", Returned >>,
          << "C09", "combine succeeds in the domain", verdict = "ok" => e.out # "err" >>,
          << "C09", "combine refuses outside the domain", verdict = "err" => e.out # "ok" >>,
          << "C09", "an error comes without data", e.out = "err" => e.nores >> })
      \cup (IF verdict = "ok"
            THEN { << "C05", "at least k shares give the secret", right >>,
                   << "C10", "at least k shares give the secret", right >> }
                 \cup (IF IsWorker \/ deals[d].worker
                       THEN { << "C16", "at least k shares give the secret", right >> } ELSE {})
            ELSE {})
      \cup (IF IsWorker /\ verdict = "err"
            THEN { << "C16", "worker combine refuses as the scheme does", e.out = "err" >> } ELSE {})
      \cup (IF verdict = "ok" /\ deals[d].stored
            THEN { << "C17", "a stored share set combines to its secret", right >> } ELSE {})

CombineClauses ==
  (CASE e.api = "wother" ->
          { << "C16", "unknown algorithms are refused", e.out = "err" /\ e.nores >>,
            << "C09", "unknown algorithms are refused", e.out = "err" /\ e.nores >> }
     [] e.scheme = "shamir" -> ShamirCombineClauses
     [] OTHER -> SSMSCombineClauses)
  \cup If("C11", { << "C11", "combine leaves the shares alone", e.args >> })
  \cup If("C10", { << "C10", "calls return", Returned >> })

TraceCombine == Judge(CombineClauses) /\ UNCHANGED << deals, drawn >>

-----------------------------------------------------------------------------
(* Regenerate *)

RegenClauses ==
  LET v == RegenVerdict(e.shape, e.m)
      d == OneDeal
      genuine == d # "" /\ d = e.d /\ Cardinality(Elems(e.refs)) = Len(e.refs)
                 /\ Len(e.refs) >= deals[d].k /\ deals[d].sane
      given == [i \in DOMAIN e.refs |-> e.refs[i][2] + 1]
      lensOK == Len(e.lens) = e.m /\ \A i \in 1 .. Len(e.lens) : e.lens[i] = e.shape[1].len
      flaws == IF ~lensOK THEN {"count"}
               ELSE IF genuine THEN RegenFlaws(deals[d], given, e.m, e.shares) ELSE {}
      both(name, holds) == { << "C08", name, holds >>, << "C09", name, holds >> }
  IN  both("regenerate returns", Returned)
      \cup both("regenerate succeeds in the domain", v = "ok" => e.out # "err")
      \cup both("regenerate refuses outside the domain", v = "err" => e.out # "ok")
      \cup both("an error comes without shares", e.out = "err" => e.nores)
      \cup If("C10", { << "C10", "calls answer as they do alone", v = "ok" => e.out = "ok" >>,
                        << "C10", "regenerated shares are valid", (v = "ok" /\ e.out = "ok") => flaws = {} >> })
      \cup (IF ~(On("C08") /\ v = "ok" /\ e.out = "ok") THEN {} ELSE
        { << "C08", "exactly the requested number of shares", "count" \notin flaws /\ "length" \notin flaws >>,
          << "C08", "new tags are non-zero, unused and distinct", "tags" \notin flaws >>,
          << "C08", "new shares lie on the same polynomials", "polynomial" \notin flaws >> })
      \cup (IF On("C17") /\ genuine /\ deals[d].stored /\ v = "ok"
            THEN { << "C17", "regenerating from stored shares works", e.out = "ok" /\ flaws = {} >> } ELSE {})
      \cup If("C11", { << "C11", "regenerate leaves the shares alone", e.args >> })

TraceRegen ==
  /\ Judge(RegenClauses)
  /\ deals' = IF e.out = "ok" /\ e.d \in DOMAIN deals
              THEN [deals EXCEPT ![e.d].shares = @ \o e.shares] ELSE deals
  /\ UNCHANGED drawn

-----------------------------------------------------------------------------
(* Calls on generators *)

TraceGen ==
  /\ Judge(IF e.out = "ok" THEN {} ELSE { << "C04", "a generator is made", FALSE >> })
  /\ gens' = (e.g :> [kind |-> e.kind, key |-> e.key, pos |-> << 0, 0 >>, low |-> << 0, 0 >>, calls |-> << >>]) @@ gens
  /\ UNCHANGED << deals, drawn >>

\* Positions in a keystream are << block, offset in the block >>, since TLC's integers
\* have 32 bits.  A read or a perm whose length is not known moves to Unknown.
Advance(pos, len) ==
  IF pos = Unknown THEN Unknown
  ELSE << pos[1] + ((pos[2] + len) \div 16), (pos[2] + len) % 16 >>
StreamAt(key, pos, off, len) ==
  LET p == Advance(pos, off)
  IN  CtrStream(SubSeq(key, 1, 16), CounterBlock(SubSeq(key, 17, 32), p[1]), p[2], len)
\* What was recorded of a read: windows << offset, bytes >> of it (all of a short one),
\* and a digest of the whole.
\* After a Perm or a split the position is not known, but the driver may have found the
\* read in the keystream; or not (Lost).
Located == e.hint[1] >= 0
Lost == e.hint[1] = -2 /\ gens[e.g].pos = Unknown
ReadPos == IF gens[e.g].pos # Unknown THEN gens[e.g].pos
           ELSE IF Located THEN << e.hint[1], e.hint[2] >> ELSE Unknown
Before(p, q) == p # Unknown /\ (p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
ReadClauses ==
  { << "C14", "a read fills the buffer and reports its length", e.out = "ok" /\ e.n = e.len >> }
  \cup (IF ~(On("C14") /\ Keyed(e.g) /\ e.out = "ok") THEN {} ELSE
    (IF gens[e.g].pos = Unknown /\ ~Located /\ ~Lost THEN {} ELSE
      { << "C14", "reads continue the AES-CTR keystream",
           /\ ~Lost
           /\ ~Before(ReadPos, gens[e.g].low)
           /\ \A i \in DOMAIN e.wins :
                e.wins[i].bytes = StreamAt(gens[e.g].key, ReadPos, e.wins[i].off, Len(e.wins[i].bytes)) >> })
    \cup { << "C14", "equal keys and calls give equal results",
              Reproduced(e.g, << "read", e.len >>, e.dig) >> })
  \cup (IF On("C04") /\ Keyed(e.g) /\ e.out = "ok" /\ Located /\ e.len >= 16
        THEN { << "C04", "a generator never goes back in its stream",
                  ~Before(<< e.hint[1], e.hint[2] >>, gens[e.g].low) >> } ELSE {})
TraceRead ==
  /\ Judge(ReadClauses)
  /\ Record(e.g, << "read", e.len >>, e.dig, Advance(ReadPos, e.len))
  /\ drawn' = IF Collects /\ e.len >= 8 /\ ~Alike(e.g) THEN drawn \o [i \in DOMAIN e.wins |-> e.wins[i].bytes]
              ELSE drawn
  /\ UNCHANGED deals
\* The driver read and dropped whole blocks.
TraceSkip ==
  /\ Judge({ << "C14", "a read fills the buffer and reports its length", e.out = "ok" >> })
  /\ gens' = [gens EXCEPT ![e.g].pos = IF @ = Unknown THEN @ ELSE << @[1] + e.blocks, @[2] >>,
                          ![e.g].calls = Append(@, CallOn(<< "skip", e.blocks >>, ""))]
  /\ UNCHANGED << deals, drawn >>

\* Reads of one generator by several goroutines.  Each is a part of the keystream, and
\* no two overlap.  The driver says where it found them; that is checked here.
SegmentsOK(key) ==
  \A i \in DOMAIN e.reads :
    /\ e.reads[i].pos >= 0
    /\ e.reads[i].data = StreamAt(key, << 0, 0 >>, e.reads[i].pos, Len(e.reads[i].data))
\* (read i ends before read i + 1 starts; the driver has sorted them)
Disjoint ==
  \A i \in 1 .. (Len(e.reads) - 1) :
    e.reads[i].pos >= 0 => e.reads[i].pos + Len(e.reads[i].data) <= e.reads[i + 1].pos
TraceShared ==
  /\ Judge({ << "C10", "every concurrent read fills its buffer", e.short = 0 >> }
           \cup (IF ~Keyed(e.g) THEN {} ELSE
             { << "C10", "concurrent reads do not overlap", Disjoint >>,
               << "C04", "concurrent reads do not overlap", Disjoint >> })
           \cup (IF ~Keyed(e.g) \/ ~(On("C10") \/ On("C14")) THEN {} ELSE
             { << "C10", "concurrent reads are parts of the keystream", SegmentsOK(gens[e.g].key) >>,
               << "C14", "concurrent reads are parts of the keystream", SegmentsOK(gens[e.g].key) >> }))
  /\ gens' = [gens EXCEPT ![e.g].pos = Unknown]
  /\ drawn' = IF Collects /\ ~Alike(e.g)
              THEN drawn \o SelectSeq([i \in DOMAIN e.reads |-> e.reads[i].data], LAMBDA s : Len(s) >= 8)
              ELSE drawn
  /\ UNCHANGED deals

-----------------------------------------------------------------------------
(* Many splits in one goroutine while others run: digests of the secrets and of what    *)
(* several quorums of each gave back.  spins remembers what a keyed generator gave.     *)
SpinArgs == << e.api, e.n, e.k, e.len, e.seed, e.count, e.key >>
SpinAlone ==       \* a spin that ran alone with an equal generator
  { x \in spins : x[1] = SpinArgs }
SpinClauses ==
  { << "C10", "calls return", e.out = "ok" >>,
    << "C10", "calls answer as they do alone", e.out = "ok" => Elems(e.outs) \subseteq {"ok"} >>,
    << "C10", "at least k shares give the secret", e.out = "ok" => e.want = e.got >> }
  \cup (IF ~e.keyed \/ SpinAlone = {} THEN {} ELSE
    { << "C10", "a keyed split gives the shares it gives alone", \A x \in SpinAlone : x[2] = e.shds >> })

\* Calls that share their arguments - one list of shares, one secret - with those of other
\* goroutines; and whether list and secret are as they were when all have returned.
CrowdClauses ==
  { << "C10", "calls return", e.out = "ok" >> }
  \cup (IF e.how = "fail"
        THEN { << "C10", "calls to be refused are refused among others", Elems(e.outs) \subseteq {"err"} >> } ELSE
  {
    << "C10", "calls that share their arguments answer as they do alone",
       e.out = "ok" => /\ Elems(e.outs) \subseteq {"ok"} /\ e.want = e.got >>,
    << "C11", "calls that share their arguments are not disturbed by each other",
       e.out = "ok" => /\ Elems(e.outs) \subseteq {"ok"} /\ e.want = e.got >> })
ListClauses ==
  { << "C10", "shared arguments are left as they were", e.same >>,
    << "C11", "shared arguments are left as they were", e.same >> }

\* Buffers: log entries << kind, buffer, touched >>, kind 0: taken out of a pool, 1: put
\* back.  A buffer seen for the first time may be new (when it is put back), or have been
\* in the pool since before (when it is taken out).  After that the two alternate.
PoolStep(acc, x) ==
  CASE x[2] = 0 -> [acc EXCEPT !.flaws = @ \cup {"nil"}]
    [] x[1] = 1 -> IF x[2] \in acc.inpool THEN [acc EXCEPT !.flaws = @ \cup {"twice"}]
                   ELSE [acc EXCEPT !.inpool = @ \cup {x[2]}, !.out = @ \ {x[2]}]
    [] OTHER    -> IF x[2] \in acc.out THEN [acc EXCEPT !.flaws = @ \cup {"held"}]
                   ELSE [acc EXCEPT !.inpool = @ \ {x[2]}, !.out = @ \cup {x[2]},
                                    !.flaws = IF x[3] = 0 THEN @ ELSE @ \cup {"touched"}]
PoolFlaws == FoldLeft(PoolStep, [inpool |-> {}, out |-> {}, flaws |-> {}], e.log).flaws
PoolClauses ==
  LET f == PoolFlaws
  IN  { << "C10", "no buffer is handed out while it is held", {"held", "nil"} \cap f = {} >>,
        << "C10", "no buffer is put back twice", "twice" \notin f >>,
        << "C10", "no buffer is written to after it was put back", "touched" \notin f >> }

PermClauses ==
  { << "C13", "the call returns", e.out = "ok" >> }
  \cup (IF ~On("C13") \/ e.out # "ok" THEN {} ELSE
    IF e.ev = "perm"
    THEN { << "C13", "Perm(n) is a permutation of 0..n-1",
              Len(e.data) = e.n /\ Elems(e.data) = 0 .. (e.n - 1) >> }
    ELSE { << "C13", "unique bytes are n different bytes", Len(e.data) = e.n /\ Cardinality(Elems(e.data)) = e.n >> })
  \cup (IF On("C14") /\ Keyed(e.g)
        THEN { << "C14", "equal keys and calls give equal results",
                  Reproduced(e.g, << e.ev, e.n >>, e.data) >> } ELSE {})
TracePerm ==
  /\ Judge(PermClauses)
  /\ Record(e.g, << e.ev, e.n >>, e.data, Unknown)
  /\ UNCHANGED << deals, drawn >>

-----------------------------------------------------------------------------
(* Memory: results are objects of their own; only the caller's own writes change them. *)

AuditClauses ==
  { << "C11", "returned shares and secrets stay as they were",
       \A i \in DOMAIN e.objs : e.objs[i][1] \in DOMAIN mem => mem[e.objs[i][1]] = e.objs[i][2] >> }
AuditChanged == { e.objs[i][1] : i \in { j \in DOMAIN e.objs : mem[e.objs[j][1]] # e.objs[j][2] } }
Learn(objs) == [o \in { objs[i][1] : i \in DOMAIN objs } |->
                  LET i == CHOOSE j \in DOMAIN objs : objs[j][1] = o IN objs[i][2]]

-----------------------------------------------------------------------------
(* Windows of 8 bytes that occur twice in the random material. *)
Windows ==
  UNION { { << s, o >> : o \in 0 .. (Len(drawn[s]) - 8) } : s \in DOMAIN drawn }
WindowAt(w) == SubSeq(drawn[w[1]], w[2] + 1, w[2] + 8)
EndClauses ==
  LET ws == Windows
      values == { WindowAt(w) : w \in ws }
      fresh == Cardinality(values) = Cardinality(ws)
  IN  IF ws = {} THEN {} ELSE
      { << "C04", "no 8 bytes of random material occur twice", fresh >> }
      \cup { << "C07", "keys and key sharings have no 8 bytes in common", fresh >>,
              << "C10", "no 8 bytes of random material occur twice", fresh >>,
              << "C16", "no 8 bytes of random material occur twice", fresh >> }

-----------------------------------------------------------------------------
Init ==
  /\ TraceBaseInit /\ SharingInit
  /\ mem = << >> /\ gens = << >> /\ drawn = << >> /\ spins = {}

View == l
Skip == tally' = tally /\ UNCHANGED << deals, drawn, mem, gens >>

Next ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ (e.ev # "spin" => spins' = IF e.ev = "begin" THEN {} ELSE spins)
  /\ CASE e.ev = "begin" ->
            /\ deals' = << >> /\ mem' = << >> /\ gens' = << >>
            /\ UNCHANGED << tally, drawn >>
       [] e.ev = "split" ->
            TraceSplit /\ SplitOnGen /\ mem' = Learn(e.objs) @@ mem
       [] e.ev = "load" -> TraceLoad /\ UNCHANGED << mem, gens >>
       [] e.ev = "combine" ->
            TraceCombine /\ mem' = Learn(e.objs) @@ mem /\ UNCHANGED gens
       [] e.ev = "regen" ->
            TraceRegen /\ mem' = Learn(e.objs) @@ mem /\ UNCHANGED gens
       [] e.ev = "gen" -> TraceGen /\ UNCHANGED mem
       [] e.ev = "read" -> TraceRead /\ UNCHANGED mem
       [] e.ev = "skip" -> TraceSkip /\ UNCHANGED mem
       [] e.ev = "shared" -> TraceShared /\ UNCHANGED mem
       [] e.ev = "spin" ->
            /\ Judge(SpinClauses)
            /\ spins' = IF e.keyed THEN spins \cup {<< SpinArgs, e.shds >>} ELSE spins
            /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "crowd" -> Judge(CrowdClauses) /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "list" -> Judge(ListClauses) /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "pool" -> Judge(PoolClauses) /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "stuck" ->
            Judge({ << "C10", "calls return", FALSE >> }) /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "died" ->
            Judge({ << "C10", "no call ends the process", FALSE >> }) /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev = "race" ->
            Judge({ << "C10", "memory is not shared without synchronization", e.races = 0 >> })
            /\ UNCHANGED << deals, gens, drawn, mem >>
       [] e.ev \in {"perm", "uniq"} -> TracePerm /\ UNCHANGED mem
       [] e.ev = "write" ->
            /\ mem' = IF e.obj \in DOMAIN mem THEN [mem EXCEPT ![e.obj] = e.dig] ELSE mem
            /\ UNCHANGED << tally, deals, gens, drawn >>
       [] e.ev = "audit" ->
            /\ Judge(AuditClauses)
            /\ mem' = Learn(e.objs) @@ mem       \* report a change once
            /\ UNCHANGED << deals, gens, drawn >>
       [] e.ev = "end" -> Judge(EndClauses) /\ UNCHANGED << deals, drawn, mem, gens >>
       [] OTHER -> Skip

Spec == Init /\ [][Next]_vars
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
