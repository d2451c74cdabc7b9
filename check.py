#!/usr/bin/env python3
"""check.py ID - decide one property (see MANIFEST.json and DESIGN.md)."""
import concurrent.futures as cf
import json
import os
import sys

import gen
import vlib

CHECKS = {}


def check(prop):
    def deco(fn):
        CHECKS[prop] = fn
        return fn
    return deco


def cases(c, kind):
    """The states of Cases.tla for a kind of call, with the specification's verdicts."""
    out = c.model("Cases", "Cases_%s_%s.cfg" % (kind, c.pick("q", "t")), workers=1)
    res = gen.printed(out, "CASE")
    if not res:
        raise vlib.CheckError("no cases for " + kind)
    c.extra.setdefault("cases", {})[kind] = {
        "total": len(res), **{v: sum(x["verdict"] == v for x in res) for v in ("ok", "err", "any")}}
    return [x["case"] for x in res]


def case_run(c, kinds, what, share=1.0):
    scen = []
    with cf.ThreadPoolExecutor(5) as ex:
        lists = list(ex.map(lambda kind: cases(c, kind), kinds))
    for cs in lists:
        scen += gen.case_scenarios(cs if share >= 1 else c.rng.sample(cs, int(len(cs) * share)), c.rng)
    ev = c.check_hist(scen, what, chunks=8)
    for kind in {e["ev"] for e in ev} & {"split", "combine", "regen"}:
        e = [x for x in ev if x["ev"] == kind][-3]
        c.sample({k: e.get(k) for k in ("ev", "api", "n", "k", "m", "shape", "out", "msg")})


def big_run(c, kinds, share=1.0):
    with cf.ThreadPoolExecutor(3) as ex:
        cs = [x for l in ex.map(lambda kind: cases(c, kind), kinds) for x in l]
    c.check_hist(gen.big_scenarios(c.rng.sample(cs, int(len(cs) * share)), c.rng), "long lists", chunks=8)


@check("C09")
def c09(c):
    case_run(c, ("split", "combine", "regen", "ssms", "ssmsparams"), "argument cases")
    big_run(c, ("big", "bigregen", "bigssms"), c.pick(0.5, 1))
    # the far ends of the domain: as many parts, shares and new shares as there can be
    ends = [(n, k) for n in (255, 254, 129, 128, 127) for k in (2, 3, n // 2, n - 1, n)] + c.pick([], GRID)
    plan = []
    for a in SHAMIR_APIS + SSMS_APIS:
        for n, k in ends if c.thorough else c.rng.sample(ends, 9) + ends[:1] + ends[4:5]:
            lists = [gen.quorum(c.rng, n, k, x) for x in (0, 1, n - k - 1, n) if x >= 0]
            plan.append((a, n, k, c.rng.choice([1, 2, 20]), -1, lists))
    run_plan(c, plan, "the most of everything", size=6)
    plan = []
    for g in [2, 3, 127, 128, 129, 253, 254, 255]:
        for m in {0, 1, 255 - g, 254 - g} - {-1}:
            plan.append((c.rng.choice(SHAMIR_APIS), 255, 2, 1, -1, c.rng.sample(range(255), g), m, 0))
    c.check_hist(gen.regen_scenarios(c.rng, plan, 4), "the most new shares", chunks=8)
    # long secrets
    run_plan(c, [(a, n, k, ln, -1, []) for a in SHAMIR_APIS + SSMS_APIS for n, k, ln in
                 [(2, 2, 1 << 24), (3, 2, (1 << 16) + 1), (20, 15, 1 << 16), (255, 2, (1 << 15) + 1), (5, 3, c.rng.randrange(1 << 20, 1 << 21))]],
             "long secrets", size=3)
    many(c, SHAMIR_APIS + SSMS_APIS, 0.5)
    return c.finish(need=["split returns", "combine refuses", "regenerate refuses"])


@check("C06")
def c06(c):
    case_run(c, ("ssms", "ssmsparams"), "share lists and parameters")
    big_run(c, ("bigssms",))
    return c.finish(need=["refused", "returns"])


CPUS = [("avx2", "", "verif"), ("ssse3", "avx2", "verif"), ("sse2", "avx2,ssse3", "verif"),
        ("plain", "avx2,ssse3,sse2", "verif"), ("noasm", "", "verif noasm")]


@check("C11")
def c11(c):
    c.models_parallel([("Heap", "Heap_%s.cfg" % c.pick("ok", "t"), None)] +
                      [("Heap", "Heap_bad_%s.cfg" % k, "Isolated") for k in ("cap", "alias", "pool", "inplace")])
    hs = gen.histories(c, "mix", c.pick(150, 2000))
    c.check_hist(hs, "histories", chunks=8)
    c.check_conc(gen.watched(hs), "histories, buffers watched", chunks=8)
    for env in machines(c):
        c.check_hist(gen.histories(c, "mix", c.pick(24, 300)), "histories, " + named(env), chunks=4, drive_kw={"env": env})
    apis = SHAMIR_APIS + SSMS_APIS
    c.check_hist(gen.memory_scenarios(c.rng, c.pick(200, 3000), [1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 48, 63, 64, 65, 100, 128,
                                                                 200, 256, 300, 512], apis), "memory", chunks=8)
    long = gen.memory_scenarios(c.rng, c.pick(60, 600), [1000, 1023, 1024, 1025, 2048, 3000, 4096, 5000, 20000, 65536], apis)
    c.check_hist(long, "memory of long secrets", chunks=8)
    c.check_conc(gen.watched(long), "memory, buffers watched", chunks=8)
    c.check_conc(gen.crowds(c.rng, c.pick(32, 400), 6, 300), "shared arguments", chunks=4)
    # the calls that fail, too
    case_run(c, ("combine", "regen", "ssms", "split"), "argument cases", c.pick(0.25, 1))
    return c.finish(need=["not disturbed", "leaves the secret alone", "leaves the shares alone", "stay as they were"])


@check("C12")
def c12(c):
    c.models_parallel([("MC_GF", "MC_GF.cfg", None), ("MC_GF", "MC_GF_bad_poly.cfg", "Primitive"),
                       ("Kernel", "Kernel_mul.cfg", None), ("Kernel", "Kernel_add.cfg", None),
                       ("Kernel", "Kernel_bad_round.cfg", "NothingOutside"),
                       ("Kernel", "Kernel_bad_tail.cfg", "EveryElementOnce")])
    jobs = []
    for cpu, off, tags in CPUS:
        c.build(tags)
        for part in range(c.pick(1, 4)):
            lens = list(range(0, 321)) + sorted(c.rng.sample(range(321, 1100), c.pick(24, 400)))
            jobs.append((cpu, off, tags, {
                "Cpu": cpu, "Scalar": part == 0 and cpu in ("avx2", "noasm"), "Lens": lens,
                "Consts": c.pick(8, 256), "Seed": c.rng.randrange(1 << 31), "Rounds": c.pick(2, 6),
                "Aligns": c.pick([0, 1 + c.rng.randrange(31), -1],
                                 [0, 1, 7, 8, 15, 16, 31, 33, 63, -1][part::2] + [-1]),
                "Big": [2048, 4095, 4096, 4097, 65535, 65536, 1 << 20] if part == 0 else []}))

    def one(j):
        cpu, off, tags, script = j
        ev, rc, err = c.drive("galois", json.dumps(script), env={"VERIF_CPU_OFF": off}, tags=tags)
        if rc != 0 or not ev or ev[-1]["ev"] != "end":
            if not c.crash_in_module(rc, err):
                raise vlib.CheckError("driver died: " + err[-1500:])
            ev = [e for e in ev if e["ev"] != "end"]
            ev.append({"ev": "mem", "cpu": cpu, "fn": "any", "calls": 0, "elems": 0, "outside": [],
                       "badlen": [], "faults": [[0, 0, 0, 0, 0]], "msg": err[:300]})
        else:
            ev = ev[:-1]
        c.validate(ev, module="TraceKernel", what="kernels, " + cpu)
        return sum(e["elems"] for e in ev if e["ev"] == "mem"), sum(e["calls"] for e in ev if e["ev"] == "mem"), ev

    with cf.ThreadPoolExecutor(5) as ex:
        res = list(ex.map(one, jobs))
    c.traces += len(jobs)
    c.extra["vector_elements_related"] = sum(r[0] for r in res)
    c.extra["vector_calls"] = sum(r[1] for r in res)
    for r in res[:2]:
        c.sample([e for e in r[2] if e["ev"] == "vec"][77])
        c.sample([e for e in r[2] if e["ev"] == "mem"][0])
    return c.finish(need=["scalar multiply", "scalar power", "MulConstVector equals", "AddVector equals", "outside"])


def stats(c, jobs, what, groups=8, env=None):
    """Run statistic jobs in parallel driver processes; TraceStat judges the counts."""
    c.build()
    groups = [jobs[i::groups] for i in range(min(groups, len(jobs)))]

    def one(g):
        ev, rc, err = c.drive("stats", "\n".join(json.dumps(j) for j in g), timeout=850, env=env)
        if rc != 0 or not ev or ev[-1]["ev"] != "end":
            if not c.crash_in_module(rc, err):
                raise vlib.CheckError("driver died (rc %s): %s" % (rc, err[-1500:]))
            ev = [e for e in ev if e["ev"] != "end"] + [{"ev": "died", "msg": vlib.last_words(err)}, {"ev": "end"}]
        c.validate(ev[:-1], module="TraceStat", what=what, heap="3g")
        return ev[:-1]

    with cf.ThreadPoolExecutor(8) as ex:
        res = [e for r in ex.map(one, groups) for e in r]
    c.traces += len(jobs)
    c.stage_done()
    return res


def many(c, apis, count=1):
    """Very many small splits, combines and regenerations."""
    jobs = [{"What": "many", "Api": a, "N": n, "Len": ln, "Count": int(max(count, least) * x * c.pick(1, 20)), "Seed": c.rng.randrange(1 << 31)}
            for n, ln, x, least in ((3, 2, 260000, 1), (5, 3, 140000, 1), (19, 24, 6000, 0), (60, 40, 1500, 0), (255, 9, 400, 0)) for a in apis]
    ev = stats(c, jobs, "very many calls", groups=8)
    c.extra["small_splits"] = sum(e["splits"] for e in ev if e["ev"] == "many")
    c.extra["small_regenerations"] = sum(e["regens"] for e in ev if e["ev"] == "many")


def starve(c, apis):
    """Splits and generators made while the operating system has no more randomness."""
    c.build()
    jobs = [{"Api": a, "N": n, "K": k, "Len": ln, "After": x, "Again": again} for a in apis
            for n, k, ln in ((2, 2, 20), (5, 3, 1100)) for x in (0, 1, 16, 31, c.rng.randrange(2, 60), 1000)
            for again in (False, True) if x < 100 or ln > 1000]

    def one(j):
        ev, rc, err = c.drive("starve", json.dumps(j))
        if rc != 0 or not ev or ev[-1]["ev"] != "end":
            if not ev or ev[0]["ev"] != "start" or not c.crash_in_module(rc, err):
                raise vlib.CheckError("driver died: " + err[-1500:])
            return {"ev": "starve", "api": j["Api"], "after": j["After"], "failed": True, "out": "crash", "msg": vlib.last_words(err)}
        return [e for e in ev if e["ev"] == "starve"][0]

    with cf.ThreadPoolExecutor(8) as ex:
        ev = list(ex.map(one, jobs))
    c.validate(list(ev), module="TraceStat", what="no randomness")
    c.traces += len(jobs)
    c.extra["starved"] = {o: sum(e["failed"] and e["out"] == o for e in ev) for o in ("ok", "err", "panic", "crash")}
    c.log("no randomness: %d processes" % len(jobs))
    c.stage_done()


def cold(c):
    """Runs every scenario of concurrent calls in a process of its own."""
    def run(scenarios, **kw):
        return [e for s in scenarios for e in c.conc([s], **kw)]
    return run


def ranks(c, apis, sizes):
    """Linear relations between all bits of two splits in a row."""
    return [{"What": "rank", "Api": a, "N": n, "K": k, "Len": ln, "Seed": c.rng.randrange(1 << 31)} for a in apis for n, k, ln in sizes]


def sequences(c, apis, count, ln=24):
    """Long sequences of small splits made with one generator or worker."""
    return [{"What": "psplit", "Api": a, "N": 2, "K": 2, "Len": ln, "Par": 1, "Count": count, "Seed": c.rng.randrange(1 << 31)} for a in apis]


SSMS_MODELS = [("MC_SSMS", "MC_SSMS_q1.cfg", None), ("MC_SSMS", "MC_SSMS_bad_parity.cfg", "AnyQuorumDecodes"),
               ("MC_SSMS", "MC_SSMS_bad_length.cfg", "AnyQuorumDecodes")]
SSMS_SECRET_MODELS = [("MC_SSMS", "MC_SSMS_q1.cfg", None), ("MC_SSMS", "MC_SSMS_bad_reuse.cfg", "FreshKeys"),
                      ("MC_SSMS", "MC_SSMS_bad_tag.cfg", "KeyHidden"),
                      ("MC_SSMS", "MC_SSMS_bad_plain.cfg", "PayloadIsNotPlaintext"),
                      ("MC_SSMS", "MC_SSMS_bad_degree.cfg", "KeyHidden")]
SSMS_DEEP = [("MC_SSMS", "MC_SSMS_t%d.cfg" % i, None) for i in (1, 2, 3)]
SHAMIR_APIS = ["split", "splitp", "generic", "old", "rand", "wshamir"]
SSMS_APIS = ["ssms", "ssmsrand", "wssms"]


def stat_split(c, apis, sizes, ln, count, fixed=False):
    return [{"What": "split", "Api": a, "N": n, "K": k, "Len": ln, "Count": count, "Fixed": fixed,
             "Seed": c.rng.randrange(1 << 31)} for a in apis for n, k in sizes]


def long_splits(c, sizes, apis=SHAMIR_APIS, count=1):
    """Long secrets, for random material that repeats far away."""
    return [{"What": "psplit", "Api": a, "N": n, "K": k, "Len": ln + c.rng.randrange(4096), "Par": 1, "Count": count,
             "Seed": c.rng.randrange(1 << 31)} for a in apis for n, k, ln in sizes]


@check("C03")
def c03(c):
    c.models_parallel([("MC_Sharing", "MC_Sharing_q%d.cfg" % i, None) for i in (1, 2, 3)] +
                      [("MC_Sharing", "MC_Sharing_bad_topcoef.cfg", "PerfectSecrecy"),
                       ("MC_Sharing", "MC_Sharing_bad_shared.cfg", "PerfectSecrecy")])
    jobs = []
    both = SHAMIR_APIS + SSMS_APIS
    jobs += stat_split(c, both, [(4, 3)], c.rng.choice([37, 39, 40, 41, 43]), c.pick(8192, 60000))
    jobs += stat_split(c, both, [(2, 2)], c.rng.choice([61, 63, 64, 65, 67]), c.pick(4096, 40000), fixed=True)
    jobs += stat_split(c, both, [(7, 6)], c.rng.choice([21, 23, 24, 25]), c.pick(4096, 30000), fixed=True)
    jobs += stat_split(c, ["splitp"], [(2, 2)], c.rng.randrange(2080, 2130), c.pick(64, 1024))
    jobs += stat_split(c, [a for a in SHAMIR_APIS if a != "splitp"], [(2, 2), (3, 3)], c.rng.randrange(1024, 1050), c.pick(64, 1024))
    jobs += stat_split(c, both, [(25, 20)], c.rng.choice([7, 8, 9]), c.pick(256, 4096))
    if c.thorough:
        jobs += stat_split(c, both, [(255, 255), (255, 128)], 4, 300)
    jobs += long_splits(c, c.pick([(2, 2, 5300000), (5, 5, 90000)], [(2, 2, 21000000), (5, 5, 400000), (3, 2, 140000), (9, 9, 70000)]))
    jobs += ranks(c, both, [(3, 2, 40), (5, 4, 33), (9, 8, 12), (13, 12, 6)] + c.pick([], [(25, 20, 5), (40, 36, 3)]))
    jobs += ranks(c, SHAMIR_APIS, [(2, 2, 5000), (3, 3, 1200)] + c.pick([], [(2, 2, 140000), (4, 4, 20000)]))
    # the largest thresholds
    wide = [(40, 33), (66, 65), (100, 97), (130, 129), (201, 200), (255, 255)]
    jobs += [dict(j, Len=c.rng.choice([5, 9, 20])) for j in long_splits(c, [x + (0,) for x in wide], SHAMIR_APIS, c.pick(2, 20))]
    jobs += ranks(c, [c.rng.choice(SHAMIR_APIS)], [(100, 97, 1)]) + c.pick([], ranks(c, both, [(70, 66, 1)]))
    starve(c, SHAMIR_APIS)
    ev = stats(c, jobs, "histograms of coefficients")
    c.extra["splits_measured"] = sum(e["splits"] for e in ev if e["ev"] == "stat")
    c.sample({k: v for k, v in ev[0].items() if k in ("api", "n", "k", "len", "splits")})
    # what fewer than k shares combine to, and of what degree the polynomials are
    plan = []
    for a in SHAMIR_APIS:
        for n, k in [p for p in SIZES + GRID if p[1] > 2 and p[0] * p[1] * p[1] < c.pick(60000, 3000000)]:
            few = [c.rng.sample(range(n), c.rng.randrange(2, k)), c.rng.sample(range(n), k - 1)]
            plan.append((a, n, k, c.rng.choice([8, 16, 17, 33]), 0, few))
        for ln in [1023, 1024, 1025, 2048, 4097]:
            plan.append((a, 4, 3, ln, 60, [c.rng.sample(range(4), 2)]))
    run_plan(c, plan, "fewer than k shares", size=10)
    return c.finish(need=["uniform", "independent", "fewer than k", "lower threshold", "no share is the secret"])


def processes(c, count):
    """Runs the same scenarios in several processes at once; one trace of all of them."""
    def run(scenarios, **kw):
        with cf.ThreadPoolExecutor(count) as ex:
            return [e for ev in ex.map(lambda _: c.hist(scenarios, **kw), range(count)) for e in ev]
    return run


@check("C04")
def c04(c):
    c.models_parallel([("Randomness", "Randomness_%s.cfg" % c.pick("ok", "t"), None), ("Stream", "Stream_%s.cfg" % c.pick("ok", "t"), None)] +
                      [("Randomness", "Randomness_bad_%s.cfg" % k, x) for k, x in
                       (("keys", "Unpredictable"), ("coefs", "Unpredictable"), ("onekey", "NeverReused"),
                        ("rewind", "NeverReused"), ("overlap", "NeverReused"))] +
                      [("Stream", "Stream_bad_%s.cfg" % k, "NoReuse") for k in ("torn", "stuck")])
    read = lambda **kw: dict({"What": "reads", "Gens": 1, "Count": 1, "Len": 16, "Seed": c.rng.randrange(1 << 31)}, **kw)
    jobs = []
    for pkg in ("csprng", "randomizer"):
        jobs += [read(Pkg=pkg, Count=16, Len=65536), read(Pkg=pkg, Count=c.pick(1, 16), Len=1 << 20),
                 read(Pkg=pkg, Gens=c.pick(25000, 100000), Par=8), read(Pkg=pkg, Gens=c.pick(4000, 50000), Reseed=True),
                 read(Pkg=pkg, Gens=c.pick(500, 5000), Par=8, Reseed=True),
                 read(Pkg=pkg, Shared=True, Par=8, Count=c.pick(20000, 400000), Len=16),
                 read(Pkg=pkg, Shared=True, Par=4, Count=c.pick(5000, 50000), Len=61),
                 read(Pkg=pkg, Shared=True, Par=16, Count=c.pick(2000, 50000), Len=33, Reseed=True)]
    jobs += [read(Pkg="worker", Gens=c.pick(1500, 30000), Par=8), read(Pkg="worker", Gens=c.pick(1500, 30000), Reseed=True)]
    for api in SHAMIR_APIS + SSMS_APIS:
        for n, k, ln in ((2, 2, 24), (4, 3, 24), (12, 10, 24), (5, 2, 1500)):
            jobs.append({"What": "split", "Api": api, "N": n, "K": k, "Len": ln, "Seed": c.rng.randrange(1 << 31),
                         "Count": c.pick(100, 2000) if ln > 1000 else c.pick(400, 5000), "Fixed": True, "Reseed": True})
        jobs.append({"What": "psplit", "Api": api, "N": 3, "K": 3, "Len": 40, "Par": 8, "Count": c.pick(400, 10000),
                     "Seed": c.rng.randrange(1 << 31), "Reseed": c.rng.random() < 0.3})
    jobs += long_splits(c, [(3, 3, c.pick(150000, 2000000))])
    jobs += long_splits(c, [(3, 2, c.pick(300000, 2000000)), (5, 4, 3000)], SSMS_APIS, 2)
    jobs += ranks(c, SHAMIR_APIS + SSMS_APIS, [(3, 3, 24)])
    jobs += ranks(c, SHAMIR_APIS, [(2, 2, 5000)])
    jobs += sequences(c, SHAMIR_APIS + SSMS_APIS, c.pick(160000, 1000000), 12)
    jobs += sequences(c, ["rand", "old", "wshamir", "ssmsrand", "wssms"], c.pick(70000, 300000))
    jobs += [{"What": "overlap", "Pkg": p, "Gens": c.pick(3, 8), "Len": c.pick(16, 64) << 20} for p in ("csprng", "randomizer")]
    jobs += [{"What": "items", "Pkg": p, "Par": par, "Count": c.pick(2500, 40000), "Seed": c.rng.randrange(1 << 31)}
             for p in ("", "perm", "rperm", "few", "many") for par in (4, 16)]
    c.rng.shuffle(jobs)
    starve(c, SHAMIR_APIS + SSMS_APIS + ["csprng", "randomizer"])
    ev = stats(c, jobs, "repeated material")
    c.extra["windows_compared"] = sum(e["total"] for e in ev if e["ev"] == "windows")
    c.check_hist(gen.histories(c, "seeding", c.pick(120, 1500)), "histories of a program that seeds", chunks=8)
    c.check_hist(gen.histories(c, "keyed", c.pick(60, 600)), "histories of keyed generators", chunks=8)
    c.check_hist(gen.material_scenarios(c.rng, c.pick(12, 60)), "the same program in several processes", chunks=4,
                 run=processes(c, 4))
    c.check_conc(gen.shared_reads(c.rng, c.pick(24, 300), 8, 30), "one generator, many readers", chunks=8)
    c.check_conc(gen.conc_deals(c.rng, c.pick(12, 160), 6, 4, False), "concurrent splits", chunks=8)
    return c.finish(need=["read from generators", "follows from the seed", "concurrent splits", "never goes back", "without randomness",
                          "do not overlap", "no 8 bytes of random material"])


EDGES = [127, 128, 129, 191, 192, 193, 255, 256, 257, 511, 512, 513, 767, 768, 1000, 1023, 1024, 1025,
         1535, 1536, 2047, 2048, 2049, 3071, 3072, 3073, 4095, 4096, 4097, 5000, 8191, 8192, 8193,
         10240, 16384, 20479, 32768, 65535, 65536, 65537]
SIZES = [(2, 2), (3, 2), (3, 3), (4, 2), (5, 3), (4, 4), (6, 5), (5, 2), (7, 4), (9, 9), (10, 3), (6, 6)]
GRID = [(255, 255), (255, 2), (255, 254), (255, 128), (254, 254), (254, 3), (253, 129), (200, 100), (129, 128),
        (128, 128), (127, 64), (128, 2), (100, 100), (65, 64), (64, 33), (32, 32), (33, 2), (31, 17), (21, 20),
        (20, 20), (20, 2), (19, 19), (19, 10), (18, 2), (17, 16), (16, 16), (16, 2), (15, 8), (13, 7), (12, 12)]


NEAR = [(4, 2), (6, 3), (7, 6), (11, 8), (14, 10), (20, 16), (24, 17), (40, 33), (70, 65), (140, 129), (255, 200)]


def quorums(c, n, k, rich=False):
    """Index lists to combine: exactly k at random, everything, and k+1."""
    res = [gen.quorum(c.rng, n, k, 0, c.rng.choice(["shuffle", "desc", "asc"]))]
    if rich:
        res.append(gen.quorum(c.rng, n, k, n, c.rng.choice(["desc", "shuffle"])))
        if n > k:
            res.append(gen.quorum(c.rng, n, k, 1))
    return res


def plan_lengths(c, apis, lens, ncols, rich=True, sizes=SIZES):
    plan = []
    for a in apis:
        off = c.rng.randrange(len(sizes))
        for i, ln in enumerate(lens):
            n, k = sizes[(i + off) % len(sizes)]
            plan.append((a, n, k, ln, ncols, quorums(c, n, k, rich)))
    return plan


def plan_grid(c, apis, grid, lens, ncols, rich=True):
    plan = []
    for a in apis:
        for n, k in grid:
            plan.append((a, n, k, c.rng.choice(lens), ncols, quorums(c, n, k, rich)))
    return plan


def all_quorums(c, apis):
    """Lists of shares, from Cases.tla (kind quorum): all orders of all subsets of at least
    k for few shares, ascending and descending for more."""
    out = c.model("Cases", "Cases_quorum_%s.cfg" % c.pick("q", "t"), workers=1)
    by = {}
    for x in gen.printed(out, "CASE"):
        q = x["case"]
        by.setdefault((q["n"], q["k"]), []).append([int(i) for i in q["list"]])
    plan = []
    for a in apis:
        for (n, k), lists in sorted(by.items()):
            plan.append((a, n, k, c.rng.randrange(1, 6), -1, lists))
    c.extra["quorum_lists"] = sum(len(v) for v in by.values())
    return plan


def run_plan(c, plan, what, size=40, chunks=8, focus=None, env=None):
    # the expensive ones are spread over the chunks
    c.rng.shuffle(plan)
    return c.check_hist(gen.deal_scenarios(c.rng, plan, size), what, chunks=chunks, focus=focus,
                        drive_kw={"env": env} if env else None)


def machines(c):
    """Other numbers of processors, and a busy garbage collector."""
    return [{"GOMAXPROCS": "1"}, {"GOMAXPROCS": c.rng.choice(["2", "3", "5"])}, {"GOMAXPROCS": c.rng.choice(["7", "16", "61"]), "GOGC": "1"}]


def named(env):
    return " ".join("%s=%s" % x for x in env.items())


def all_pairs(c, lo=2, hi=255, step=1):
    ps = [(n, k) for n in range(lo, hi + 1) for k in range(2, n + 1)]
    c.rng.shuffle(ps)
    return ps[::step]


@check("C01")
def c01(c):
    c.models_parallel([("MC_Sharing", "MC_Sharing_q%d.cfg" % i, None) for i in (1, 2, 3)] +
                      ([("MC_Sharing", "MC_Sharing_t%d.cfg" % i, None) for i in (1, 2, 3)] if c.thorough else []) +
                      [("MC_Sharing", "MC_Sharing_bad_zerotag.cfg", "Exact")])
    run_plan(c, all_quorums(c, SHAMIR_APIS), "every quorum", size=3)
    c.check_hist(gen.neighbour_scenarios(c.rng, SHAMIR_APIS, NEAR + c.pick([], NEAR + GRID[:20]), c.pick(24, 255)),
                 "lists that differ little", chunks=8)
    run_plan(c, plan_lengths(c, SHAMIR_APIS, range(1, c.pick(140, 700)), -1), "all lengths")
    edges = c.rng.sample(EDGES, 16) if not c.thorough else EDGES
    run_plan(c, plan_lengths(c, SHAMIR_APIS, sorted(edges), -1, rich=False) +
             plan_lengths(c, SHAMIR_APIS, [c.rng.randrange(200000, 1 << 20)], -1, False, [(3, 2), (4, 3)]) +
             plan_lengths(c, SHAMIR_APIS, [c.rng.randrange(1 << 21, 1 << 23), (1 << 24) + c.rng.randrange(1 << 20)], -1, False, [(3, 2)]),
             "long secrets", size=6)
    run_plan(c, plan_grid(c, SHAMIR_APIS, GRID + c.rng.sample(all_pairs(c), 20), [1, 2, 3, 33], -1), "parts and thresholds", size=10)
    run_plan(c, plan_grid(c, SHAMIR_APIS, c.rng.sample(GRID, c.pick(7, 30)) + [(255, 255), (255, 2)], [257, 300, 515, 1025, 2100], -1, rich=False),
             "many parts of long secrets", size=4)
    for env in machines(c):
        run_plan(c, plan_lengths(c, ["splitp"], [1, 2, 3, 6, 8, 30, 61, 200, 1023, 1025, 2049, 3000, 4096, 5121, 20000], -1, rich=False) +
                 plan_lengths(c, [a for a in SHAMIR_APIS if a != "splitp"], [1, 5, 64, 1500], -1, rich=False),
                 "other machines, " + named(env), size=10, env=env)
    if c.thorough:
        for a in SHAMIR_APIS:
            run_plan(c, plan_grid(c, [a], all_pairs(c), [1, 2], -1, rich=False), "all parts and thresholds, " + a)
    many(c, SHAMIR_APIS)
    return c.finish(need=["give the secret"])


@check("C02")
def c02(c):
    c.models_parallel([("MC_Sharing", "MC_Sharing_q%d.cfg" % i, None) for i in (1, 2, 3)] +
                      [("MC_Sharing", "MC_Sharing_bad_zerotag.cfg", "Exact"),
                       ("MC_Sharing", "MC_Sharing_bad_duptag.cfg", "Exact")])
    none = lambda plan: [p[:5] + ([],) for p in plan]
    lens = list(range(1, c.pick(72, 300)))
    run_plan(c, none(plan_lengths(c, SHAMIR_APIS, lens, 0)), "all lengths")
    run_plan(c, none(plan_lengths(c, SHAMIR_APIS, EDGES, c.pick(20, 60)) +
                     plan_lengths(c, SHAMIR_APIS, [c.rng.randrange(100000, 1 << 20)], 40) +
                     plan_lengths(c, SHAMIR_APIS, [(1 << 24) + c.rng.randrange(1 << 20)], 40, False, [(3, 2)])), "long secrets", size=12)
    grid = GRID + c.rng.sample(all_pairs(c), c.pick(10, 400))
    if not c.thorough:
        # the cost is that of interpolation in TLC: n * k^2
        grid = [p for p in grid if p[0] * p[1] * p[1] < 2000000] + [(255, 255), (255, 128)]
    run_plan(c, none(plan_grid(c, SHAMIR_APIS, grid, [1, 2, 3], 0)), "parts and thresholds", size=6)
    # tags only: many splits
    tags = []
    for a in SHAMIR_APIS:
        ns = list(range(2, 26)) * c.pick(5, 60) + [20, 40, 100, 127, 128, 200, 253, 254, 255] * c.pick(2, 20)
        tags += [(a, n, c.rng.randrange(2, n + 1), c.rng.randrange(1, 9), -1, []) for n in ns]
    run_plan(c, tags, "tags of many splits", size=100)
    if c.thorough:
        for a in SHAMIR_APIS:
            run_plan(c, none([(a, n, k, 1, -1, []) for n, k in all_pairs(c)]), "tags, all sizes, " + a, size=400)
    for env in machines(c):
        run_plan(c, none(plan_lengths(c, ["splitp"], [1, 2, 7, 31, 64, 1023, 1025, 2049, 3000, 4097, 5121, 20001], c.pick(20, 60))) +
                 none(plan_lengths(c, [a for a in SHAMIR_APIS if a != "splitp"], [1, 3, 40, 1100], 20)),
                 "other machines, " + named(env), size=12, env=env)
    many(c, SHAMIR_APIS)
    return c.finish(need=["polynomial of degree", "secret", "tags", "one byte longer"])


@check("C05")
def c05(c):
    c.models_parallel(SSMS_MODELS + c.pick([], SSMS_DEEP))
    run_plan(c, all_quorums(c, SSMS_APIS), "every quorum", size=3)
    c.check_hist(gen.neighbour_scenarios(c.rng, SSMS_APIS, NEAR + c.pick([], NEAR + GRID[:20]), c.pick(24, 255)),
                 "lists that differ little", chunks=8)
    # every way to lose shares, with nil in their place
    plan = []
    for a in SSMS_APIS:
        for n, k in [(2, 2), (3, 2), (4, 3), (5, 2)] + ([(6, 3), (6, 6), (7, 2)] if c.thorough else []):
            keeps = [[i for i in range(n) if m >> i & 1] for m in range(1 << n)]
            plan.append((a, n, k, c.rng.randrange(1, 40), -1,
                         [(x, {"inplace": True}) for x in keeps if len(x) >= k] +
                         [(c.rng.sample(x, len(x)), {"nils": c.rng.randrange(4)}) for x in keeps if len(x) >= k]))
    run_plan(c, plan, "lost shares as nil", size=3)
    run_plan(c, plan_lengths(c, SSMS_APIS, range(1, c.pick(330, 1500)), -1, rich=c.thorough), "all lengths")
    # lengths around what buffers of encoder and cipher are rounded to
    grid = [(3, 2), (2, 2), (5, 4), (61, 60), (255, 255), (128, 64), (10, 7)]
    lens = sorted({m * b + x for b in (8, 16, 32, 61, 64, 255) for m in (1, 2, 3, 4, 8, 16) for x in (-1, 0, 1)})
    run_plan(c, plan_lengths(c, SSMS_APIS, lens, -1, rich=False, sizes=grid), "lengths at block boundaries")
    edges = c.rng.sample(EDGES, 14) if not c.thorough else EDGES
    run_plan(c, plan_lengths(c, SSMS_APIS, sorted(edges), -1, rich=False) +
             plan_lengths(c, SSMS_APIS, [1 << 20, c.rng.randrange(1 << 20, 1 << 23)], -1, False, [(3, 2), (9, 5)]) +
             plan_lengths(c, SSMS_APIS, [(1 << 24) + c.rng.randrange(1 << 20)], -1, False, [(3, 2)]),
             "long secrets", size=6)
    run_plan(c, plan_grid(c, SSMS_APIS, GRID + c.rng.sample(all_pairs(c), 30), [1, 2, 3, 33, 254, 300], -1),
             "parts and thresholds", size=10)
    run_plan(c, plan_grid(c, SSMS_APIS, c.rng.sample(GRID, c.pick(7, 30)) + [(255, 255), (255, 2)], [1025, 5000, 65537, 70000, 140000], -1, rich=False),
             "many parts of long secrets", size=4)
    if c.thorough:
        for a in SSMS_APIS:
            run_plan(c, plan_grid(c, [a], all_pairs(c), [1, 2, 300], -1, rich=False), "all parts and thresholds, " + a)
    for env in machines(c):
        run_plan(c, plan_lengths(c, SSMS_APIS, [1, 3, 32, 61, 1023, 5000, 66000], -1, rich=False), "other machines, " + named(env), size=10, env=env)
    many(c, SSMS_APIS)
    return c.finish(need=["give the secret", "share length", "part id"])


@check("C07")
def c07(c):
    c.models_parallel([("MC_Sharing", "MC_Sharing_q%d.cfg" % i, None) for i in (1, 2, 3)] +
                      [("MC_Sharing", "MC_Sharing_bad_shared.cfg", "PerfectSecrecy")] +
                      SSMS_SECRET_MODELS + c.pick([], SSMS_DEEP))
    none = lambda plan: [p[:5] + ([],) for p in plan]
    # the same secret, and related ones, split again and again: no key, no coefficient, twice
    plan = []
    for a in SSMS_APIS:
        for n, k in c.rng.sample(SIZES, c.pick(6, 12)) + [(20, 16), (24, 20), (30, 4)]:
            for ln in [1, 15, 16, 17, 32, 48, 100] + c.rng.sample(range(1, 400), c.pick(3, 20)):
                plan.append((a, n, k, ln, 0, []))
    run_plan(c, plan, "keys and their sharing", size=30)
    run_plan(c, none(plan_lengths(c, SSMS_APIS, [c.rng.randrange(66000, 136000), c.rng.randrange(2000, 34000)], 20)),
             "long secrets", size=1)
    jobs = stat_split(c, SSMS_APIS, [(4, 3)], c.rng.choice([37, 39, 40, 41, 43]), c.pick(8192, 60000))
    jobs += stat_split(c, SSMS_APIS, [(2, 2)], 64, c.pick(8192, 40000), fixed=True)
    jobs += stat_split(c, SSMS_APIS, [(16, 2), (20, 17)], 24, c.pick(2048, 30000), fixed=True)
    jobs += stat_split(c, SSMS_APIS, [(25, 20)], 8, c.pick(256, 4096))
    jobs += ranks(c, SSMS_APIS, [(2, 2, 16), (4, 3, 40), (8, 7, 24)])
    jobs += long_splits(c, [(2, 2, 1200000), (7, 5, 150000), (3, 2, 20000)], SSMS_APIS, c.pick(2, 6))
    # one secret of every order of magnitude, many times
    jobs += long_splits(c, [(n, 2, 0) for n in (2, 5)] + [(3, 2, 1 << x) for x in (13, 14, 15, 16, 17, 18)], SSMS_APIS, c.pick(4, 20))
    starve(c, SSMS_APIS)
    ev = stats(c, jobs, "histograms of keys")
    c.extra["splits_measured"] = sum(e["splits"] for e in ev if e["ev"] == "stat")
    return c.finish(need=["opens the ciphertext", "no fewer than k", "not key bytes", "plaintext", "uniform",
                          "no 8 bytes in common"])


@check("C08")
def c08(c):
    c.models_parallel([("MC_Sharing", "MC_Sharing_q3.cfg", None), ("MC_Sharing", "MC_Sharing_bad_stale.cfg", "RegeneratedValid")])
    case_run(c, ("regen",), "share lists and counts")
    big_run(c, ("bigregen",), c.pick(0.6, 1))
    plan = []
    for i in range(c.pick(240, 3000)):
        n, k = c.rng.choice(SIZES + GRID[16:])
        given = gen.quorum(c.rng, n, k, c.rng.choice([0, 0, 1, 2, n]))
        room = 255 - len(given)
        m = c.rng.choice([0, 1, 1, 2, 3, 5, 8, room // 2])
        m2 = c.rng.choice([0, 0, 1, 2])
        plan.append((SHAMIR_APIS[i % 6], n, k, c.rng.choice([1, 2, 5, 16, 40]), 0 if m < 9 else 3, given, m, m2))
    # all unused tags, and nearly all
    for x in range(c.pick(6, 40)):
        for n, k in [(2, 2), (3, 2), (5, 3), (20, 4)]:
            given = gen.quorum(c.rng, n, k, c.rng.choice([0, 1, n]))
            plan.append((c.rng.choice(SHAMIR_APIS), n, k, 2, 0, given, 255 - len(given) - c.rng.choice([0, 0, 1, 2, 3]), 0))
    for n, k in [(255, 2), (255, 3), (254, 5), (253, 2), (250, 40), (128, 100)]:
        for extra in (0, n):
            given = gen.quorum(c.rng, n, k, extra)
            plan.append((c.rng.choice(SHAMIR_APIS), n, k, 2, 0, given, c.rng.randrange(0, 256 - len(given)), 0))
    for ln in (1000, 1024, 5000, 65535, 65536, 65537, c.rng.randrange(70000, 1 << 20), (1 << 20) + c.rng.randrange(100)):
        plan.append((c.rng.choice(SHAMIR_APIS), 5, 3, ln, 40, [0, 1, 2], 4, 2))
        plan.append((c.rng.choice(SHAMIR_APIS), 3, 2, ln, 40, [0, 1, 2], 1, 0))
    plan.append((c.rng.choice(SHAMIR_APIS), 3, 2, (1 << 24) + c.rng.randrange(100), 40, [0, 1], 2, 1))
    c.rng.shuffle(plan)
    c.check_hist(gen.regen_scenarios(c.rng, plan), "regenerations", chunks=8)
    many(c, SHAMIR_APIS)
    return c.finish(need=["exactly the requested", "same polynomials", "new tags", "refuses", "give the secret"])


@check("C10")
def c10(c):
    c.models_parallel([("PoolSplit", "PoolSplit_ok.cfg", None), ("Stream", "Stream_ok.cfg", None)] +
                      [("PoolSplit", "PoolSplit_t2.cfg", None), ("Chunks", "Chunks_%s.cfg" % c.pick("ok", "t"), None)] +
                      ([("PoolSplit", "PoolSplit_t.cfg", None)] if c.thorough else []) +
                      [("PoolSplit", "PoolSplit_bad_early.cfg", "Untouched"),
                       ("PoolSplit", "PoolSplit_bad_double.cfg", "Exclusive"),
                       ("PoolSplit", "PoolSplit_bad_peek.cfg", "Exclusive"),
                       ("Chunks", "Chunks_bad_index.cfg", "Exactly"), ("Chunks", "Chunks_bad_early.cfg", "Complete"),
                       ("Chunks", "Chunks_bad_add.cfg", "Complete"), ("Stream", "Stream_bad_torn.cfg", "NoReuse")])
    ev = c.check_conc(gen.gated(c.rng, gen.schedules(c, c.pick(80, 1500))), "schedules of the model", chunks=8)
    c.extra["turns_taken"] = sum(e["turns"] for e in ev if e["ev"] == "pool")
    c.check_conc(gen.spin_scenarios(c.rng, c.pick(4, 40), 12, 5, 60, True), "loops, buffers watched", chunks=4)
    c.check_conc(gen.spin_scenarios(c.rng, c.pick(4, 40), 16, 6, 200, False), "loops", chunks=2)
    c.check_conc(gen.splitp_scenarios(c.rng, c.pick(4, 40), 4, 6), "chunks of one split", chunks=2)
    for env in machines(c):
        c.check_conc(gen.spin_scenarios(c.rng, c.pick(2, 20), 8, 4, 60, False) + gen.splitp_scenarios(c.rng, c.pick(1, 10), 4, 4),
                     "loops, " + named(env), chunks=1, env=env)
    sets = list(gen.stored_sets(os.path.join(vlib.VERIF, "golden", "shares.jsonl")))
    c.check_hist(gen.cold_scenarios(c.rng, c.pick(60, 600), 8, sets), "first calls of a process", chunks=4, run=cold(c))
    c.check_conc(gen.rush_scenarios(c.rng, c.pick(48, 400)), "very many at once", chunks=4)
    c.check_conc(gen.conc_deals(c.rng, c.pick(16, 160), 6, 4, False) +
                 gen.conc_deals(c.rng, c.pick(8, 80), 6, 4, True), "recorded calls", chunks=8)
    c.check_conc(gen.shared_reads(c.rng, c.pick(16, 300), 8, 30), "one generator, many readers", chunks=8)
    c.check_conc(gen.crowds(c.rng, c.pick(48, 600), 6, 400) + gen.crowds(c.rng, c.pick(16, 200), 24, 60), "shared arguments", chunks=4)
    c.build(race=True)
    c.check_conc(gen.spin_scenarios(c.rng, c.pick(2, 16), 8, 6, 4, False) + gen.conc_deals(c.rng, c.pick(4, 40), 6, 4, False) +
                 gen.crowds(c.rng, c.pick(16, 100), 6, 6) + gen.shared_reads(c.rng, c.pick(8, 60), 6, 12), "race detector", chunks=2, race=True)
    c.check_hist(gen.cold_scenarios(c.rng, c.pick(32, 200), 6, sets), "race detector, first calls", chunks=4, run=cold(c), drive_kw={"race": True})
    return c.finish(need=["calls answer as they do alone", "are refused among others", "share their arguments", "left as they were", "give the secret", "it gives alone", "is held",
                          "put back twice", "after it was put back", "do not overlap", "synchronization",
                          "parts of the keystream"])


@check("C13")
def c13(c):
    c.models_parallel([("MC_Perm", "MC_Perm_%s.cfg" % c.pick("q", "t"), None)] +
                      [("MC_Perm", "MC_Perm_bad_%s.cfg" % k, x) for k, x in
                       (("dup", "AllDifferent"), ("range", "NoCrash"), ("cycle", "EveryArrangement"),
                        ("stuck", "Returns"))])
    c.check_hist(gen.perm_scenarios(c.rng, c.pick(4, 40)), "all sizes", chunks=8)
    edge = [0, 1, 2, 3, 18, 19, 20, 21, 127, 128, 129, 253, 254, 255]
    c.check_hist(gen.perm_scenarios(c.rng, c.pick(30, 400), edge), "sizes at the limits", chunks=8)
    jobs = []
    ns = [6, 7, 8, 16, 19, 20, 21, 64, 128, 129, 200, 254, 255] + c.rng.sample(range(9, 254), 6)
    for pkg in ("csprng", "randomizer", "uniq"):
        jobs += [{"What": "perm", "Pkg": pkg, "N": n, "Count": 20000} for n in range(6)]
        jobs += [{"What": "perm", "Pkg": pkg, "N": n, "Count": 40000}
                 for n in (range(6, 256) if c.thorough else ns)]
    # short lists of unique bytes are where a repetition is drawn again
    jobs += [{"What": "perm", "Pkg": "uniq", "N": n, "Count": c.pick(60000, 2000000)} for n in range(10, 23)]
    c.rng.shuffle(jobs)
    ev = stats(c, jobs, "arrangements")
    c.extra["calls_counted"] = sum(e["count"] for e in ev if e["ev"] == "reach")
    return c.finish(need=["Perm(n) is a permutation", "unique bytes are n", "excluded from", "every arrangement"])


@check("C14")
def c14(c):
    c.models_parallel([("MC_AES", "MC_AES.cfg", None), ("Stream", "Stream_%s.cfg" % c.pick("ok", "t"), None),
                       ("Stream", "Stream_bad_round.cfg", "Contiguous"),
                       ("Stream", "Stream_bad_stuck.cfg", "NoReuse"),
                       ("Stream", "Stream_bad_dirty.cfg", "OldContentsIrrelevant")])
    longs = [1000, 4096, 65536, 1 << 20, (1 << 20) + 13]
    c.check_hist(gen.stream_scenarios(c.rng, c.pick(40, 400), 40), "reads", chunks=8)
    c.check_hist(gen.stream_scenarios(c.rng, c.pick(8, 80), 4, longs), "long reads", chunks=8)
    c.check_hist(gen.two_cuts(c.rng, c.pick(16, 100), 6000), "one stream, cut twice", chunks=8)
    c.check_hist(gen.near_keys(c.rng, c.pick(24, 200), c.pick(10, 31)), "keys that differ little", chunks=8)
    c.check_hist(gen.mirrored(c.rng, c.pick(40, 400), 30), "equal generators", chunks=8)
    c.check_hist(gen.histories(c, "keyed", c.pick(60, 800)), "histories", chunks=8)
    # past 2^32 bytes (and 2^28 blocks)
    far = [{"ops": [gen.keyed_gen("a", gen.edge_key(c.rng)), {"op": "skip", "g": "a", "len": n, "limit": 300},
                    {"op": "read", "g": "a", "len": 40, "dirty": 255}, {"op": "skip", "g": "a", "len": 3, "limit": 300},
                    {"op": "read", "g": "a", "len": 33}, {"op": "read", "g": "a", "len": 16}]}
           for n in ((1 << 27) - 1, (1 << 28) - 1)]
    c.check_hist(far, "far into the stream", chunks=2)
    return c.finish(need=["fills the buffer", "continue the AES-CTR", "equal keys and calls", "equal generators are equal"])


@check("C15")
def c15(c):
    c.models_parallel([("Pool", "Pool_%s.cfg" % c.pick("ok", "t"), None)] +
                      [("Pool", "Pool_bad_%s.cfg" % k, x) for k, x in
                       (("block", "NeverWaits"), ("two", "Exclusive"), ("nil", "NeverNil"), ("twice", "Exclusive"),
                        ("size", "Bounded"))])
    hs = gen.pool_histories(c, c.pick(150, 3000))
    kw = dict(mode="pool", module="TracePool")
    c.check_conc(hs, "histories of the model", chunks=4, **kw)
    c.check_conc([dict(h, par=True) for h in hs], "the same, in several goroutines", chunks=4, **kw)
    c.check_conc(gen.pool_fills(c.rng, c.pick(30, 200)), "filled and drained", chunks=4, **kw)
    st = [{"size": s, "stress": p, "count": c.pick(40000, 400000), "hold": h, "seed": c.rng.randrange(1 << 31)}
          for s in (1, 2, 3, 8, 64, 0, -1, -1000) for p, h in ((8, 1), (8, 3), (3, 20), (32, 2))]
    rush = [{"size": s, "stress": p, "rush": True, "count": c.pick(15000, 150000), "seed": 0}
            for s in (1, 2, 3, 5) for p in (2, 3, 4, 6)]
    ev = c.check_conc(st, "stress", chunks=2, **kw) + c.check_conc(rush, "all at once", chunks=1, **kw)
    c.extra["stress_calls"] = sum(e["calls"] for e in ev if e["ev"] == "poolstress")
    c.build(race=True)
    c.check_conc([dict(x, count=3000) for x in st[:20]] + [dict(h, par=True) for h in hs[:30]], "race detector",
                 chunks=1, race=True, **kw)
    return c.finish(need=["never block", "nil", "while it is held", "holder's alone", "retained", "synchronization"])


@check("C16")
def c16(c):
    c.models_parallel([("Randomness", "Randomness_%s.cfg" % c.pick("ok", "t"), None),
                       ("Randomness", "Randomness_bad_rewind.cfg", "NeverReused"),
                       ("MC_Sharing", "MC_Sharing_q1.cfg", None), ("MC_SSMS", "MC_SSMS_q1.cfg", None)])
    lens = c.pick(list(range(1, 34)) + [47, 64, 65, 256], list(range(1, 301)))
    plan = [(alg, *c.rng.choice(SIZES), ln) for alg in ("shamir", "ssms") for ln in lens]
    plan += [(alg, n, k, c.rng.choice([1, 8, 20])) for alg in ("shamir", "ssms")
             for n, k in (GRID if c.thorough else [p for p in GRID if p[0] * p[1] * p[1] < 100000])]
    plan += [(alg, n, k, c.rng.choice([1, 2])) for alg in ("shamir", "ssms") for n, k in [(255, 2), (255, 20), (128, 40)]]
    c.rng.shuffle(plan)
    c.check_hist(gen.worker_scenarios(c.rng, plan, 5), "workers", chunks=8)
    c.check_hist(gen.histories(c, "workers", c.pick(60, 600)), "histories", chunks=8)
    workers = ["wshamir", "wssms"]
    run_plan(c, plan_lengths(c, workers, sorted(c.rng.sample(EDGES, c.pick(20, 40))) + [c.rng.randrange(66000, 140000)], 30, rich=False) +
             plan_lengths(c, workers, [1 << 20, c.rng.randrange(1 << 20, 1 << 23), (1 << 24) + c.rng.randrange(1 << 20)], -1, False, [(3, 2), (5, 4)]) +
             plan_grid(c, workers, c.rng.sample(GRID, 5), [1025, 70000], -1, rich=False), "long secrets", size=4)
    for env in machines(c):
        run_plan(c, plan_lengths(c, workers, [1, 3, 32, 61, 1023, 5000, 66000], 20, rich=False), "other machines, " + named(env), size=10, env=env)
    # all parameters, through the worker
    params = [x for x in cases(c, "split") if x["api"] in ("wshamir", "wssms", "wother")]
    c.check_hist(gen.case_scenarios(params, c.rng), "split parameters", chunks=8)
    many(c, workers, 2)
    stats(c, sequences(c, workers, c.pick(20000, 300000)) + ranks(c, workers, [(3, 3, 20)]), "long sequences")
    return c.finish(need=["answers as the scheme", "give the secret", "unknown algorithms", "one polynomial", "in long sequences",
                          "opens the ciphertext", "occur twice", "worker combine refuses"])


@check("C17")
def c17(c):
    c.models_parallel([("MC_AES", "MC_AES.cfg", None), ("MC_GF", "MC_GF.cfg", None), ("MC_GF", "MC_GF_bad_poly.cfg", "Primitive")])
    out = c.model("Encode", "Encode_%s.cfg" % c.pick("q", "t"), workers=1, env={"ENCODE_SEED": str(c.rng.randrange(1 << 20))})
    sets = list(gen.encoded_sets(out))
    c.extra["sets_made_by_the_specification"] = len(sets)
    c.check_hist(gen.stored_scenarios(c.rng, sets, per=c.pick(3, 6)), "share sets of the specification", chunks=8)
    sets = list(gen.stored_sets(os.path.join(vlib.VERIF, "golden", "shares.jsonl")))
    c.extra["sets_of_an_earlier_version"] = len(sets)
    c.check_hist(gen.stored_scenarios(c.rng, sets, per=c.pick(3, 6)), "share sets of an earlier version", chunks=8)
    # what this build writes, read by the specification
    apis = SHAMIR_APIS + SSMS_APIS
    none = lambda plan: [p[:5] + ([],) for p in plan]
    run_plan(c, none(plan_lengths(c, apis, list(range(1, c.pick(33, 200))) + [48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257], 0)),
             "shares of this build", size=20)
    run_plan(c, none(plan_lengths(c, apis, c.pick(c.rng.sample(EDGES, 8), EDGES) + [c.rng.randrange(140000, 1 << 20)], 40)) +
             none(plan_lengths(c, SSMS_APIS, [c.rng.randrange(66000, 140000)], 20)) +
             none(plan_lengths(c, ["ssms", "ssmsrand"], [1 << 24, (1 << 24) + (1 << 16) + 258], 40, sizes=[(3, 2)])),
             "long shares of this build", size=8)
    run_plan(c, none(plan_grid(c, apis, [p for p in GRID if p[0] * p[1] * p[1] < c.pick(150000, 5000000)], [1, 2, 20, 33], 0)),
             "parts and thresholds", size=6)
    return c.finish(need=["stored share set", "interpolation at zero", "one polynomial", "little-endian", "Reed-Solomon",
                          "AES-OFB"])


if __name__ == "__main__":
    if len(sys.argv) != 2 or sys.argv[1] not in CHECKS:
        sys.exit("usage: check.py " + "|".join(sorted(CHECKS)))
    vlib.main(sys.argv[1], CHECKS[sys.argv[1]])
