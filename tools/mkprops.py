#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
        "observe_at": list(observe), "hook_needed": hook}})

p("C01", "Any threshold-sized set of Shamir shares reconstructs the exact secret",
  "For every Shamir split entry point, every non-empty secret and every 2 <= threshold <= parts <= 255, combining any subset of at least threshold of the produced shares, in any order, returns exactly the original secret. Which shares are used, how many extra genuine ones are added and in which order they are given never changes the result.",
  ["inputs", "configurations", "histories"],
  "all secrets (content and length), all (parts, threshold), all subsets of size >= threshold in all orders, all five split entry points, all random draws",
  "The tests combine one prefix of the shares, for (4,2), (5,2), (20,k) and a handful of lengths, and never SplitGeneric or SplitP; the claim is over every subset, order, length, parameter pair and random draw.",
  ["shamir/shamir.go", "shamir/polynomial.go", "shamir/tables.go", "galois/galois.go", "galois/vector_amd64.go", "galois/vector_noasm.go", "galois/tables.go"],
  [("Horner evaluation over GF(2^8) with vector kernels", "shamir/polynomial.go evaluatePolynomialsAtWithCoefficientsBuffer / evaluatePolynomialsAt / genericEvaluatePolynomialsAt / polynomial.evaluate"),
   ("Lagrange interpolation at 0", "shamir/polynomial.go interpolatePolynomial"), ("Combine", "shamir/shamir.go Combine")],
  [("polynomial matrix", "one polynomial per secret byte, intercept = secret byte", "shamir/polynomial.go makePolynomials*"), ("tag", "x coordinate, last byte of each share", "shamir/shamir.go Split*")],
  ["return values of Split*/Combine"])

p("C02", "Shares are an exact threshold sharing with distinct non-zero tags",
  "A successful Shamir split returns exactly `parts` shares, each one byte longer than the secret, whose last byte is a tag that is never zero and is different in every share. At every byte position the shares are the values, at those tags, of one polynomial of degree below threshold whose value at zero is the secret byte.",
  ["inputs", "configurations", "histories"],
  "all secrets, all (parts, threshold), all states of the random source, all split entry points; and the 22-byte-overhead key shares inside SSMS shares",
  "Tests never look at the tags or at shares beyond the first threshold; a zero tag (a share equal to the secret) or a duplicated tag appears only for particular random draws, and a wrong share beyond the prefix is never combined.",
  ["shamir/shamir.go", "shamir/polynomial.go", "csprng/csprng.go"],
  [("tags = unique random bytes + 1", "shamir/shamir.go Split*, csprng/csprng.go GetUniqueBytes / Perm"), ("matrix transposition and evaluation", "shamir/polynomial.go transpose, transposeMatrixBuffer")],
  [("xCoordinates", "unique bytes from which tags are made", "shamir/shamir.go")],
  ["bytes of the returned shares"])

p("C03", "Fewer than threshold Shamir shares reveal nothing about the secret",
  "In every Shamir split, each byte position is masked by its own threshold-1 random coefficients, each uniform over all 256 values, independent of the secret, of the share tags, of each other and of the coefficients at other positions. Hence any threshold-1 shares are distributed identically for every secret, and combining fewer than threshold shares does not give back the secret.",
  ["inputs", "configurations", "histories"],
  "all secrets and lengths, all thresholds, all coalitions of threshold-1 share holders, all entry points, all earlier operations in the process (reused buffers)",
  "No test combines fewer than threshold shares or looks at the coefficients; a biased, reused or missing coefficient leaves every round trip intact.",
  ["shamir/polynomial.go", "shamir/shamir.go", "csprng/csprng.go"],
  [("fresh random coefficients for all N polynomials", "shamir/polynomial.go makePolynomials, makePolynomialsWithBuff, makePolynomialsWithBuffAndRandomizer, makePolynomialsWithRandomizer, makePolynomial")],
  [("coefficients", "threshold-1 random bytes per secret byte, recoverable from threshold shares", "shamir/polynomial.go")],
  ["coefficients interpolated from the returned shares"])

p("C04", "Random material is never reused and never predictable from outside",
  "No two reads, splits or constructions ever consume the same random material: successive reads of one generator, splits made with one generator or one worker, and separately constructed generators all yield unrelated bytes, also when used concurrently. Nothing secret (coefficients, encryption keys, generator keys) is determined by the seed of the program-wide math/rand source.",
  ["histories", "schedules"],
  "all sequences and interleavings of generator constructions, reads and splits, including programs that seed math/rand themselves",
  "Tests read each generator once and never compare two operations; reuse is visible only in the relation between two results of a history.",
  ["csprng/csprng.go", "randomizer/randomizer.go", "shamir/polynomial.go", "krawczyk/krawczyk.go", "worker/worker.go"],
  [("generator stream position", "csprng/csprng.go Read"), ("generator key", "csprng/csprng.go NewCSPRNG, randomizer/randomizer.go NewRandomizer"), ("per-split SSMS key", "krawczyk/krawczyk.go Split, SplitWithRandomizer")],
  [("stream offset", "how much of the keystream has been handed out", "csprng/csprng.go"), ("cipher stream", "state of the randomizer package's generator", "randomizer/randomizer.go")],
  ["Read results, coefficients and keys recovered from threshold shares"])

p("C05", "Any threshold-sized set of SSMS shares reconstructs the exact secret",
  "For every non-empty secret and every 2 <= threshold <= parts <= 255, the secret-sharing-made-short split succeeds and combining at least threshold of its shares, in any order and with lost shares either left out or passed as nil, returns exactly the original secret. Every share is ceil(len/threshold)+22 bytes long and carries its own part id.",
  ["inputs", "configurations", "fault_sequences"],
  "all secret lengths and contents, all (parts, threshold), all sets of surviving shares and their order, both split entry points and the worker",
  "The tests use 2-of-5, 2-of-2, 4-of-4 and k-of-20 on a few lengths, almost always with the first shares present; the lengths at which buffers are exactly full, parity-only recoveries and shuffled shares are not reached.",
  ["krawczyk/krawczyk.go", "krawczyk/aes.go"],
  [("AES-OFB encryption then systematic Reed-Solomon coding", "krawczyk/krawczyk.go Split, SplitWithRandomizer; krawczyk/aes.go"), ("placement by part id and reconstruction", "krawczyk/krawczyk.go Combine")],
  [("part id", "last byte of each share: row of the code", "krawczyk/krawczyk.go"), ("key+length", "20 bytes shared with Shamir in bytes 0..20 of each share", "krawczyk/krawczyk.go")],
  ["return values of Split*/Combine"])

p("C06", "SSMS combine fails cleanly below threshold or on malformed shares",
  "Combining SSMS shares with fewer than threshold distinct genuine shares present returns an error and no data. Lists that are empty or all-nil, shares that are too short, of unequal length, duplicated, or carrying a part id outside 0..parts-1, and out-of-range parameters likewise return an error; no such call panics or fails to return.",
  ["inputs", "fault_sequences"],
  "all lists mixing genuine, missing, duplicated, truncated, extended and mislabelled shares, all parameter values",
  "No test calls Combine with anything but enough well-formed shares.",
  ["krawczyk/krawczyk.go", "shamir/shamir.go"],
  [("parameter, length, part-id and duplicate checks", "krawczyk/krawczyk.go Combine"), ("erasure decoding refuses too few shards", "krawczyk/krawczyk.go Combine (ReconstructData)")],
  [], ["error value / panic of Combine"])

p("C07", "SSMS keeps the secret encrypted under a fresh key unrelated to what shares show",
  "Every SSMS split encrypts the secret under a new random 128-bit key that no other split uses and that is itself shared with the split's threshold, so that fewer than threshold shares expose neither the plaintext nor any key byte. In particular the payload of a share is not the plaintext, the share tags are not key bytes, and two splits of the same or related secrets have unrelated ciphertexts.",
  ["inputs", "histories"],
  "all secrets, all (parts, threshold), all sequences of splits by one process, generator or worker",
  "Every round trip stays intact if the key is constant, reused, all zero, or leaked through the tags; only the relation between parts of one share or between two splits shows it.",
  ["krawczyk/krawczyk.go", "krawczyk/aes.go", "csprng/csprng.go"],
  [("random key per split", "krawczyk/krawczyk.go Split, SplitWithRandomizer"), ("OFB keystream with zero IV, safe only with one-time keys", "krawczyk/aes.go encrypt"), ("key shared at the same threshold", "krawczyk/krawczyk.go (shamir.Split of key+length)")],
  [("key", "16 random bytes", "krawczyk/krawczyk.go")], ["key and ciphertext recovered from threshold shares"])

p("C08", "Regenerated shares are new, valid shares of the same secret",
  "Given at least threshold shares of a split, Regenerate returns exactly the requested number of additional shares that lie on the same polynomials, with non-zero tags distinct from the given shares' tags and from each other, so that any threshold of old and new shares reconstruct the secret. A request for a negative number, or for more shares than there are unused tags, returns an error, and the call always terminates.",
  ["inputs", "configurations", "histories"],
  "all splits, all input subsets of size >= threshold, all counts of new shares, repeated regeneration, all random draws",
  "The two tests ask for 4 or 5 new shares of a 2-of-5 split once; tag collisions and zero tags are random events that are near certain only for larger counts or many runs.",
  ["shamir/shamir.go", "shamir/polynomial.go"],
  [("new tags drawn and made unique", "shamir/shamir.go Regenerate"), ("interpolation at the new tag", "shamir/polynomial.go interpolatePolynomial")],
  [("newXs / checkMap", "new tags and tags already taken", "shamir/shamir.go Regenerate")], ["return values of Regenerate"])

p("C09", "Every call in the documented domain succeeds; outside it, a clean error",
  "All split, combine and regenerate calls (including those made through a worker) whose arguments are in the documented domain - parts and threshold between 2 and 255, threshold not above parts, a non-empty secret; at least two equally long shares with distinct tags - succeed. All calls outside it return an error with no result, and no argument values make a call panic or never return.",
  ["inputs", "configurations"],
  "all integer parameter values (negative, 0, 1, 255, 256 and beyond), empty and nil secrets, empty, nil, short, unequal and duplicate shares, for every entry point",
  "No test checks an error return; only valid parameters are used.",
  ["shamir/shamir.go", "krawczyk/krawczyk.go", "worker/worker.go"],
  [("sanity checks at the top of each function", "shamir/shamir.go Split*, Combine, Regenerate; krawczyk/krawczyk.go Split*, Combine; worker/worker.go")],
  [], ["error value / panic of every public call"])

p("C10", "Concurrent operations never interfere",
  "Any number of goroutines may split, combine and regenerate at the same time, also through one shared worker or generator: each call's result is one the call could have produced running alone, a split driven by a caller's own keyed generator yields the very same shares it yields alone, and no internal buffer is in use by two calls at once.",
  ["schedules"],
  "all interleavings of concurrent calls that share the process-wide buffer pools, workers and generators",
  "The parallel tests discard every result; whether an interleaving corrupts a buffer depends on the schedule.",
  ["shamir/shamir.go", "shamir/polynomial.go", "utils/bufferpool.go", "csprng/csprng.go", "worker/worker.go", "krawczyk/krawczyk.go"],
  [("pool hands each buffer to one holder until it is put back", "utils/bufferpool.go Get, Put"), ("buffers returned only after their last use", "shamir/shamir.go Split, SplitWithRandomizer; shamir/polynomial.go evaluate*"), ("disjoint output regions per goroutine", "shamir/shamir.go SplitP")],
  [("bPool, polynomialBufferPool", "channels of reusable buffers", "shamir/shamir.go, shamir/polynomial.go")],
  ["results of concurrent calls", "buffer hand-out and hand-back events"],
  "buffer Get/Put events with the buffer's identity; on Put the hook overwrites the buffer, as the next holder might at once")

p("C11", "Arguments are left untouched and results are independent memory",
  "No split, combine or regenerate call modifies the secret or the shares it is given. Results stay as returned: no later call, and no change a caller makes to its own secret, to another share or by appending to a share, alters a share or secret returned earlier.",
  ["histories", "inputs"],
  "all histories of calls and of caller writes/appends to arguments and results, including pooled-buffer reuse by later calls",
  "Tests use each result once, immediately; aliasing shows only when something is changed afterwards.",
  ["shamir/shamir.go", "shamir/polynomial.go", "krawczyk/krawczyk.go", "utils/bufferpool.go"],
  [("output copied out of pooled buffers", "shamir/polynomial.go evaluate*"), ("per-share slices of one allocation", "shamir/shamir.go Split*, krawczyk/krawczyk.go newByteMatrix")],
  [("share slices", "len and cap of each returned share", "shamir/shamir.go")], ["arguments after the call, earlier results re-read after later calls"])

p("C12", "Galois kernels compute GF(2^8) arithmetic exactly on every CPU path",
  "Scalar add, subtract, multiply (both forms), divide and power are the operations of GF(2^8) with polynomial 0x11d for all operands, and the vector add and constant-multiply functions equal the elementwise scalar operation for every length, alignment and constant, on the AVX2, SSSE3, SSE2, plain and generic code paths. Vector functions write nothing outside the elements of the vector they return.",
  ["inputs", "configurations"],
  "all 65536 operand pairs, all constants, all vector lengths (0 upward, across the 16/32/64/128/256-byte switch-overs), alignments and CPU feature sets",
  "The galois package has no tests, only benchmarks; the splits tested exercise a few lengths and only the code path of the test machine.",
  ["galois/galois.go", "galois/tables.go", "galois/vector.go", "galois/vector_amd64.go", "galois/vector_amd64.s", "galois/vector_noasm.go"],
  [("lookup tables", "galois/tables.go"), ("SIMD main loop plus scalar tail", "galois/vector_amd64.go MulConstVector, AddVector; galois/vector_amd64.s"), ("generic batch loops", "galois/vector_noasm.go")],
  [("useAVX2/useSSSE3/useSSE2", "CPU features chosen at start-up", "galois/vector_amd64.go")], ["return values and operand memory"])

p("C13", "Permutations and unique bytes are valid for every size and random state",
  "Perm(n) of both generator packages returns, for every n and every state of the generator, a sequence containing each of 0..n-1 exactly once, and GetUniqueBytes(n) returns n pairwise different bytes for every n; all of them always return. Over the generator's states every arrangement stays possible: no element is stuck in, or excluded from, a position.",
  ["inputs", "histories"],
  "all n in 0..255, all generator keys and stream positions",
  "One test checks csprng.Perm(255) once for a random key; index errors, endless retries and non-permutations occur for particular random bytes or other n.",
  ["csprng/csprng.go", "randomizer/randomizer.go"],
  [("shuffle", "csprng/csprng.go Perm, randomizer/randomizer.go Perm"), ("retry on duplicates", "csprng/csprng.go GetUniqueBytes")],
  [("shuffler", "random bytes driving the swaps", "csprng/csprng.go")], ["return values; termination"])

p("C14", "A keyed generator is the AES-CTR stream of its key and IV",
  "The bytes returned by successive reads of a generator made from a key and IV, concatenated, are the AES-128 counter-mode keystream for that key and IV, however the stream is cut into reads (empty, partial-block and large ones included). Every read fills the whole buffer and reports its length, independent of what the buffer held before, and equal key/IV and equal calls give equal results: splits driven by it are reproducible.",
  ["inputs", "histories"],
  "all keys and IVs (including counter wrap-around), all sequences of read sizes, all prior buffer contents, all earlier unrelated operations",
  "One test compares a single 1 MB read of a zeroed buffer for an all-zero key; nothing reads twice, uses a dirty buffer or odd sizes.",
  ["csprng/csprng.go", "shamir/polynomial.go"],
  [("keystream at an offset", "csprng/csprng.go Read (aesctrat.XORKeyStreamAt)")],
  [("offset", "position in the keystream", "csprng/csprng.go")], ["Read results, shares of SplitWithRandomizer* for a fixed key"])

p("C15", "The buffer pool never blocks, never double-issues, never over-retains",
  "A buffer obtained from the pool belongs to its holder alone until it is put back: the pool never hands out a buffer that is still held, never returns nil, and hands a buffer that was put back once to at most one taker. Get and Put never block, whatever the pool's size and fill, and no more buffers than the pool's size are retained.",
  ["histories", "schedules"],
  "all sequences and interleavings of Get and Put, all pool sizes",
  "The utils package has no tests; the splits never fill a pool or check identities.",
  ["utils/bufferpool.go"],
  [("buffered channel with non-blocking send and receive", "utils/bufferpool.go Get, Put")],
  [("ch", "retained buffers", "utils/bufferpool.go")], ["identity of returned buffers, blocking"])

p("C16", "A worker's results are those of the selected scheme",
  "Splitting through a worker under an algorithm name yields shares with all the guarantees of that scheme, which both the worker and the scheme's own combine function turn back into the secret, and worker combine accepts shares made without a worker. Unknown algorithm names are refused with an error for both operations, and any sequence of worker calls keeps each split's randomness fresh.",
  ["inputs", "histories", "configurations"],
  "all algorithm names, all parameters and secrets, all sequences of calls on one worker mixing both algorithms, several workers",
  "The worker package has no tests at all.",
  ["worker/worker.go", "shamir/shamir.go", "krawczyk/krawczyk.go"],
  [("dispatch on algorithm name", "worker/worker.go Split, Combine")],
  [("r", "the worker's random source", "worker/worker.go")], ["return values of Worker.Split / Worker.Combine"])

p("C17", "The share formats are stable, so stored shares stay readable",
  "A Shamir share is the evaluations, one per secret byte, in GF(2^8) with polynomial 0x11d, followed by the tag. An SSMS share is the 21-byte Shamir share of (16-byte key, 4-byte little-endian length), then that part's row of the systematic Vandermonde Reed-Solomon code of the AES-128-OFB (zero IV) ciphertext, then the part id; any share set in this format, including ones written by earlier versions, combines to its secret.",
  ["inputs", "histories", "configurations"],
  "all shares in the documented layout, produced by any version or independently of the library",
  "Every test combines shares with the same build that made them, so a matching change to both sides of the format passes.",
  ["shamir/shamir.go", "shamir/polynomial.go", "shamir/tables.go", "galois/tables.go", "krawczyk/krawczyk.go", "krawczyk/aes.go"],
  [("layout of shares", "shamir/shamir.go Split, krawczyk/krawczyk.go Split"), ("parsing", "shamir/shamir.go Combine, krawczyk/krawczyk.go Combine")],
  [("LenKey, LenLen, ShareOverhead", "layout constants", "krawczyk/krawczyk.go, shamir/shamir.go")], ["bytes of shares; Combine on independently built shares"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
