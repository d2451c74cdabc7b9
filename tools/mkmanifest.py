#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that check.py decides."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check  # noqa: E402

SCENARIO = "TLA+ model checked by TLC, and TLC validation of traces recorded from the code"
NOTES = {
    "C01": (SCENARIO, "Combining is exact in Sharing.tla over small fields, all coefficient choices (TLC, exhaustive). The code is bound by recorded deals and combines, for every quorum and order of TLC's case states, all lengths up to a bound, chunk edges, and a grid of (n,k). Sampled in n, k, content; SHA-256 prefixes compare secrets."),
    "C02": (SCENARIO, "Recorded share sets must be Api/ShamirMath share sets: counts, lengths, tags, and every column interpolated in TLC over GF(256). Long secrets are checked on sampled columns; lengths, n, k sampled beyond the exhaustive small range."),
    "C03": ("TLA+ secrecy model checked by TLC; TLC evaluates recorded histograms of recovered coefficients", "PerfectSecrecy is exhaustive in small fields. For the code, coefficients recovered from the shares are tested for uniformity, independence and non-reuse; thresholds are missed by a correct implementation with probability < 1e-12 per run. A statistical test: small biases (< a few percent) can stay unseen."),
    "C04": ("TLA+ models of random sources and of a shared stream checked by TLC; recorded histories, processes and counts of repeated windows judged by TLC", "Design models are exhaustive within their bounds. For the code: 8- or 12-byte windows of everything random that is recovered from histories, concurrent calls, several processes and tens of thousands of generators must not repeat; with math/rand reseeded alike before every split no coefficient cell may be constant or nearly so. Reuse that shows in no such window (other alignment below 8 bytes, linear relations) can stay unseen."),
    "C10": ("TLA+ models of pools, chunks and a shared stream checked by TLC; TLC's schedules forced on the code through hooks at pool hand-out and hand-back; recorded concurrent histories validated by TLC; race detector as one of the recorded observations", "PoolSplit and Chunks are exhaustive for 2-3 threads; schedules of the model are replayed at the granularity of pool operations; between those the Go scheduler decides (sampled, several hundred thousand splits)."),
    "C11": (SCENARIO, "Heap.tla (argument, result and pool memory) is exhaustive in small heaps; the code is bound by histories with caller writes and appends to everything held, audited after every step, spare capacity behind arguments, and pool buffers overwritten while in the pool. Lengths sampled."),
    "C13": ("TLA+ model of a shuffle by byte stream checked by TLC; recorded calls and counts of arrangements validated by TLC", "Every n in 0..255 for all three calls, many generator states; that every arrangement stays possible is counted exactly for n <= 5 and per (element, position) up to 255 over 40000 states each; rarer exclusions stay unseen."),
    "C14": ("TLA+ stream model and AES-CTR specification checked by TLC; every recorded read compared with the keystream TLC computes", "AES and counter carries are checked against published vectors. Reads of all sizes of a list, cuts, dirty buffers, edge IVs, positions up to 2^32 bytes; long reads on sampled windows."),
    "C15": ("TLA+ pool model (refining an abstract pool) checked by TLC; its behaviours replayed and recorded histories validated by TLC", "Pool.tla refines PoolAbs.tla, exhaustive for small pools; behaviours are replayed on the real pool, sequentially and from several goroutines, plus stress and the race detector. A Get or Put is said to block when it has not returned for seconds."),
    "C16": (SCENARIO, "Worker calls in histories with direct calls, copies of workers and unknown names; every worker split is checked as the scheme's own (polynomials, key, format, degree). (n,k,length) sampled over a grid and all small lengths."),
    "C17": ("TLA+ specification of both formats: TLC writes share sets that the code must read, and reads what the code writes; share sets of the first version as a corpus", "Encode.tla makes share sets over GF(256) with AES-OFB from the specification alone; the corpus holds 339 sets written by the code as first found; every share of this build is decoded by TLC. Long shares (up to 2^24 bytes) on sampled columns; the ciphertext of long ones is recomputed on windows, up to 140000 bytes."),
    "C05": (SCENARIO, "MC_SSMS: any quorum decodes, exhaustive in small fields. The code is bound by recorded deals and combines: every quorum and order of TLC's case states, every loss pattern with nil entries, all lengths up to a bound, block and buffer edges up to megabytes, a grid of (n,k). n, k, content sampled beyond."),
    "C07": ("TLA+ scheme model checked by TLC; TLC opens recorded shares (GF(256), AES-OFB) and judges histograms of keys", "Key, length and ciphertext of every recorded small split are recovered in TLC and compared (long ones, up to 140000 bytes, on windows); keys and their sharing are tested for uniformity, independence and reuse over thousands of splits (statistical; false alarm probability < 1e-12)."),
    "C08": (SCENARIO, "Regenerated shares are interpolated in TLC over GF(256) against the old ones; argument cases are TLC states; counts up to all unused tags; repeated regeneration. (n,k,m) sampled."),
    "C06": (SCENARIO, "All lists of share descriptors up to 4 long, and all extreme parameters, are TLC states; each is replayed and judged by Api.tla. Content of malformed shares is one representative per descriptor."),
    "C09": (SCENARIO, "Domains of all calls are Api.tla; the case states enumerated by TLC are all replayed with panics, hangs and process death observed. Extreme ints stand for all large ones."),
    "C12": ("TLA+ kernel model checked by TLC; all scalar operands and all recorded vector results validated by TLC", "Scalar operations exhaustively over all operands; vectors for all lengths 0..320 and samples beyond, several alignments, every CPU path the machine has (features hidden by an init hook of the test driver). NEON is not executable here."),
}
NOT_YET = {}


def main():
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    ids = [p["id"] for p in props]
    checks, na = [], []
    for i in ids:
        if i in check.CHECKS and i in NOTES:
            t, n = NOTES[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                           "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": t, "level": "model_checking", "level_note": n})
        else:
            na.append({"property": i, "reason": NOT_YET.get(i, "check still being built")})
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif:"],
                           stdout=subprocess.PIPE, text=True).stdout.split()
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "hooks": {"guard": "verif",
                   "enable": "go build -tags verif (with -overlay, which adds the driver of /verif/driver)",
                   "source_commits": hooks},
         "checks": checks, "not_applicable": na,
         "notes": "Specification in TLA+ (spec/*.tla), checked with TLC; see DESIGN.md. "
                  "Replay files hold the rejected event, the clause and the script that produced it."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
