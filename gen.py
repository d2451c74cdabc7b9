"""Scenarios for the driver, from the states and behaviours TLC prints."""
import base64
import json
import re

MIN, MAX = -2147483648, 2147483647
SPLITS = ["split", "splitp", "generic", "old", "rand"]      # Shamir entry points
SSMS = ["ssms", "ssmsrand"]
WORKER = ["wshamir", "wssms"]


def printed(out, tag):
    """Values printed by TLC as '@@TAG json'."""
    res = []
    for m in re.finditer(r'^"@@%s (.*)"$' % tag, out, re.M):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def key(rng):
    return [rng.randrange(256) for _ in range(32)]


def setup(rng):
    return [{"op": "gen", "g": "a", "kind": "fresh"}, {"op": "worker", "w": "w"}]


def split(api, n, k, sec, d="", **kw):
    op = {"op": "split", "api": api, "n": n, "k": k, "sec": sec, "d": d}
    if api in ("rand", "old", "ssmsrand"):
        op["g"] = kw.pop("g", "a")
    if api in ("wshamir", "wssms", "wother"):
        op["w"] = kw.pop("w", "w")
    op.update(kw)
    return op


def combine(api, lst, n=0, k=0, full=True, **kw):
    op = {"op": "combine", "api": api, "list": lst, "n": n, "k": k, "full": full}
    if api in ("wshamir", "wssms", "wother"):
        op["w"] = kw.pop("w", "w")
    op.update(kw)
    return op


def rnd(rng, n):
    return {"kind": "rnd", "len": n, "seed": rng.randrange(1 << 31)}


def content(rng, n):
    """A secret of n bytes: mostly random; sometimes of one value, or with an end or a
    beginning that looks like padding."""
    x = rng.random()
    if x < 0.65:
        return rnd(rng, n)
    if x < 0.75:
        return {"kind": "fill", "len": n, "v": rng.choice([0, 0, 0, 255, 16, 128, 1])}
    return dict(rnd(rng, n), kind=rng.choice(["tail", "tail", "head"]), v=rng.choice([0, 0, 0, 1, 16, 128, 255]),
                pad=rng.choice([1, 2, 8, 15, 16, 16, 17, 32, n // 2, max(n - 1, 0)]))


def secret_len(x):
    if x < 0:
        return {"kind": "nil"}
    return {"kind": "ramp", "len": x, "v": 3}


def shamir_ref(desc):
    r = {"d": "d"}
    if desc in ("g0", "g1", "g2"):
        r["i"] = int(desc[1])
    elif desc == "copy":
        r.update(i=0, copy=True)
    elif desc == "twin":
        r.update(i=1, mut="tagof", v=0)
    elif desc == "zero":
        r.update(i=1, mut="tag", v=0)
    elif desc == "nil":
        return {"nil": True}
    elif desc == "empty":
        return {"lit": []}
    elif desc == "one":
        r.update(i=1, mut="len", v=1)
    elif desc == "cut":
        r.update(i=2, mut="cut", v=1)
    elif desc == "ext":
        r.update(i=2, mut="ext", v=1)
    else:
        raise ValueError(desc)
    return r


def ssms_ref(desc):
    r = {"d": "d"}
    if desc in ("g0", "g1", "g2"):
        r["i"] = int(desc[1])
    elif desc == "copy":
        r.update(i=0, copy=True)
    elif desc == "nil":
        return {"nil": True}
    elif desc == "empty":
        return {"lit": []}
    elif desc in ("l20", "l21", "l22"):
        r.update(i=1, mut="len", v=int(desc[1:]))
    elif desc == "cut":
        r.update(i=2, mut="cut", v=1)
    elif desc == "ext":
        r.update(i=2, mut="ext", v=1)
    elif desc in ("id3", "id255"):
        r.update(i=1, mut="id", v=int(desc[2:]))
    else:
        raise ValueError(desc)
    return r


def case_op(c, rng):
    k = c["kind"]
    if k == "split":
        return split(c["api"], c["n"], c["k"], secret_len(c["len"]), noObjs=True,
                     **({"alg": rng.choice(["", "Shamir", "SHAMIR", "ssms", "krawczyk ", "aes"])}
                        if c["api"] == "wother" else {}))
    if k == "combine":
        api = rng.choice(["shamir", "shamir", "wshamir"])
        return combine(api, [shamir_ref(x) for x in c["list"]], 3, 2, full=False, noObjs=True,
                       how=rng.choice(["", "nil"]) if not c["list"] else "")
    if k == "regen":
        return {"op": "regen", "list": [shamir_ref(x) for x in c["list"]], "m": c["m"], "d": "r",
                "noObjs": True}
    api = rng.choice(["ssms", "ssms", "wssms"])
    return combine(api, [ssms_ref(x) for x in c["list"]], c["n"], c["k"], full=False, noObjs=True,
                   how=rng.choice(["", "nil"]) if not c["list"] else "")


def case_scenarios(cases, rng, size=150):
    """One call per case, in groups that share a set-up (generator, worker, a deal)."""
    cases = list(cases)
    rng.shuffle(cases)
    res = []
    for i in range(0, len(cases), size):
        ops = setup(rng)
        kinds = {c["kind"] for c in cases[i:i + size]}
        if kinds & {"ssms", "ssmsparams"}:
            ops.append(split("ssms", 3, 2, rnd(rng, rng.choice([1, 2, 11, 12, 40])), "d", noObjs=True))
        else:
            ops.append(split("split", 3, 2, rnd(rng, 5), "d", noObjs=True))
        ops += [case_op(c, rng) for c in cases[i:i + size]]
        res.append({"ops": ops})
    return res


def big_scenarios(cases, rng, size=12):
    """Calls on long lists, some with one thing wrong in them (Cases.tla, big*)."""
    groups = {}
    for c in cases:
        groups.setdefault((c["kind"] == "bigssms", c["n"], c["k"]), []).append(c)
    res = []
    for (ssms, n, k), cs in sorted(groups.items()):
        rng.shuffle(cs)
        for i in range(0, len(cs), size):
            ops = setup(rng)
            ops.append(split("ssms" if ssms else rng.choice(["split", "generic"]), n, k,
                             rnd(rng, rng.randrange(2 * k + 1, 4 * k) if ssms else 5), "d", noObjs=True))
            for c in cs[i:i + size]:
                idx = rng.sample(range(n), c["len"])
                if rng.random() < 0.3:
                    idx.sort()
                lst = refs("d", idx)
                odd, where = c["list"][0]
                other = rng.choice([x for x in range(n) if x not in idx] or idx)
                r = {"d": "d", "i": other}
                if odd == "copy0":
                    r.update(i=idx[0], copy=rng.random() < 0.7)
                elif odd == "copy1":
                    r.update(i=idx[-1], copy=rng.random() < 0.7)
                elif odd == "twin":
                    r.update(mut="tagof", v=rng.choice(idx))
                elif odd == "nil":
                    r = {"nil": True}
                elif odd == "empty":
                    r = {"lit": []}
                elif odd in ("one", "l22"):
                    r.update(mut="len", v=1 if odd == "one" else 22)
                elif odd in ("cut", "ext"):
                    r.update(mut=odd, v=1)
                elif odd in ("idn", "id255"):
                    r.update(mut="id", v=n if odd == "idn" else 255)
                if odd != "none":
                    lst.insert({"front": 0, "middle": len(lst) // 2, "end": len(lst)}[where], r)
                if c["kind"] == "bigregen":
                    ops.append({"op": "regen", "list": lst, "m": c["m"], "d": "r", "noObjs": True})
                else:
                    api = rng.choice(["ssms", "wssms"] if ssms else ["shamir", "wshamir"])
                    ops.append(combine(api, lst, n, k, full=False, noObjs=True))
            res.append({"ops": ops})
    return res


def is_ssms(api):
    return api in ("ssms", "ssmsrand", "wssms")


def quorum(rng, n, k, extra=0, order="shuffle"):
    s = rng.sample(range(n), min(n, k + extra))
    if order == "asc":
        s.sort()
    elif order == "desc":
        s.sort(reverse=True)
    return s


def refs(d, idx, copies=False):
    return [dict(d=d, i=i, **({"copy": True} if copies else {})) for i in idx]


def combine_of(rng, api, d, n, k, idx, nils=0, via=None, full=False, copies=False):
    """Combine call for a deal made by api; nils: that many nil entries (SSMS only)."""
    lst = refs(d, idx, copies)
    if is_ssms(api):
        for _ in range(nils):
            lst.insert(rng.randrange(len(lst) + 1), {"nil": True})
        name = "ssms"
    else:
        name = "shamir"
    if via is None:
        via = rng.random() < 0.25
    return combine("w" + name if via else name, lst, n, k, full=full, noObjs=True, copy=copies)


def nil_list(rng, d, n, keep):
    """The list a caller has that keeps shares in their places: nil where one is lost."""
    return [{"d": d, "i": i} if i in keep else {"nil": True} for i in range(n)]


def deal_scenarios(rng, plan, size=40):
    """plan: (api, n, k, len, ncols, combines) with combines a list of index lists, or
    (index list, options)."""
    res = []
    for i in range(0, len(plan), size):
        ops = setup(rng)
        for j, (api, n, k, ln, ncols, combos) in enumerate(plan[i:i + size]):
            d = "d%d" % j
            ops.append(split(api, n, k, content(rng, ln), d, ncols=ncols, seed=rng.randrange(1 << 31), noObjs=True, limit=120))
            for c in combos:
                idx, kw = c if isinstance(c, tuple) else (c, {})
                if kw.get("inplace"):
                    ops.append(combine(rng.choice(["ssms", "wssms"]), nil_list(rng, d, n, set(idx)), n, k,
                                       full=False, noObjs=True))
                else:
                    ops.append(combine_of(rng, api, d, n, k, idx, **kw))
                ops[-1]["limit"] = 300
        res.append({"ops": ops})
    return res


def neighbours(rng, n, k, count):
    """Lists that differ little from each other: a base list, that list with one share
    exchanged, with two places swapped, rotated, with one share more."""
    base = rng.sample(range(n), k)
    rest = [i for i in range(n) if i not in base]
    res = [list(base)]
    places = list(range(k)) if k <= count else sorted(rng.sample(range(k), count - 1)) + [k - 1]
    for p in places:
        if rest:
            x = list(base)
            x[p] = rng.choice(rest)
            res.append(x)
    for _ in range(3):
        x = list(base)
        i, j = rng.randrange(k), rng.randrange(k)
        x[i], x[j] = x[j], x[i]
        res.append(x)
    res += [base[1:] + base[:1], base[::-1]]
    if rest:
        res += [base + [rng.choice(rest)], base[:-1] + [rest[0], base[-1]], [rest[-1]] + base]
    res.append(list(base))
    return res


def neighbour_scenarios(rng, apis, sizes, count):
    """Combines in one process that differ little: neighbouring lists of one deal, and (with
    equal keyed generators) deals of different secrets under the same tags."""
    res = []
    for api in apis:
        for n, k in sizes:
            ops = setup(rng)
            ln = rng.randrange(1, 9)
            kk = key(rng)
            keyed = api in ("rand", "old", "ssmsrand")
            names = []
            for j in range(3):
                d = "d%d" % j
                kw = {}
                if keyed and j < 2:
                    ops.append(keyed_gen("k%d" % j, kk))
                    kw["g"] = "k%d" % j
                ops.append(split(api, n, k, content(rng, ln), d,
                                 ncols=-1, noObjs=True, limit=120, **kw))
                names.append(d)
            for lst in neighbours(rng, n, k, count):
                for d in names if keyed else names[:1] + rng.sample(names[1:], 1):
                    ops.append(combine_of(rng, api, d, n, k, lst))
                    ops[-1]["limit"] = 300
            res.append({"ops": ops})
    rng.shuffle(res)
    return res


def regen_scenarios(rng, plan, size=10):
    """plan: (api, n, k, len, ncols, given, m, m2): split, regenerate m shares from the given
    ones, combine mixtures of old and new ones, regenerate m2 more from a mixture."""
    res = []
    for i in range(0, len(plan), size):
        ops = setup(rng)
        for j, (api, n, k, ln, ncols, given, m, m2) in enumerate(plan[i:i + size]):
            d = "d%d" % j
            ops.append(split(api, n, k, content(rng, ln), d, ncols=ncols, seed=rng.randrange(1 << 31), noObjs=True, limit=120))
            ops.append({"op": "regen", "list": refs(d, given, rng.random() < 0.3), "m": m, "d": d,
                        "noObjs": True, "limit": 120})
            new = list(range(n, n + m))

            def comb(idx):
                ops.append(combine_of(rng, api, d, n, k, idx))
                ops[-1]["limit"] = 300
            for _ in range(2 if m else 0):
                for nnew in {1, min(k, m), rng.randrange(1, min(k, m) + 1)}:
                    if nnew <= k <= nnew + len(given):
                        idx = rng.sample(new, nnew) + rng.sample(given, k - nnew)
                        rng.shuffle(idx)
                        comb(idx)
            if m2:
                mix = given + new
                base = rng.sample(mix, max(k, min(len(mix), k + rng.randrange(3))))
                ops.append({"op": "regen", "list": refs(d, base), "m": m2, "d": d, "noObjs": True, "limit": 120})
                # newest ones cannot clash with the ones they were made from
                newest = list(range(n + m, n + m + m2))
                take = rng.randrange(1, min(k, m2) + 1)
                idx = rng.sample(newest, take) + rng.sample(base, k - take)
                rng.shuffle(idx)
                comb(idx)
        res.append({"ops": ops})
    return res


def stored_sets(path):
    """Share sets made by the first version of the library."""
    for line in open(path):
        x = json.loads(line)
        yield {"n": x["n"], "k": x["k"], "scheme": "ssms" if is_ssms(x["api"]) else "shamir",
               "secret": x["secret"], "shares": x["shares"]}


def encoded_sets(out):
    """Share sets printed by Encode.tla."""
    b64 = lambda v: base64.b64encode(bytes(v)).decode()
    for x in printed(out, "SET"):
        yield {"n": x["n"], "k": x["k"], "scheme": x["scheme"], "secret": b64(x["secret"]),
               "shares": [b64(v) for v in x["shares"]]}


def stored_scenarios(rng, sets, size=10, per=3):
    """Load share sets, combine quorums of each, regenerate from them."""
    sets, res = list(sets), []
    rng.shuffle(sets)
    for i in range(0, len(sets), size):
        ops = setup(rng)
        for j, x in enumerate(sets[i:i + size]):
            d, n, k, have = "d%d" % j, x["n"], x["k"], len(x["shares"])
            ops.append({"op": "load", "d": d, "n": n, "k": k, "ncols": 40, "seed": rng.randrange(1 << 31),
                        "set": {"scheme": x["scheme"], "secret": x["secret"], "shares": x["shares"]}})
            ss = x["scheme"] == "ssms"
            for q in range(per):
                idx = quorum(rng, have, k, [0, have, 1][q % 3], ["shuffle", "shuffle", "desc"][q % 3])
                o = combine_of(rng, "ssms" if ss else "split", d, n, k, idx, nils=rng.randrange(2), full=len(x["secret"]) < 400)
                ops.append(o)
            if not ss and have == n and n < 200:
                m = rng.choice([1, 2, 5])
                ops.append({"op": "regen", "list": refs(d, quorum(rng, n, k, 1)), "m": m, "d": d, "noObjs": True, "limit": 120})
                new = list(range(n, n + min(m, k)))
                given = [r["i"] for r in ops[-1]["list"]]
                ops.append(combine_of(rng, "split", d, n, k, new + rng.sample(given, k - len(new))))
        res.append({"ops": ops})
    return res


# ------------------------------------------------------------------- histories
EDGE_IVS = [[255] * 16, [0] * 16, [255] * 8 + [0] * 8, [0] * 8 + [255] * 8, [0] * 15 + [255],
            [255] * 15 + [0], [127] + [255] * 15, [0] * 12 + [255] * 3 + [250], [1] * 7 + [0] + [255] * 7 + [254],
            [0] * 4 + [255] * 4 + [255] * 8, [255] * 4 + [127] + [255] * 11]


def edge_key(rng, const=0.0):
    k = [rng.randrange(256) for _ in range(16)] if rng.random() >= const else [rng.choice([0, 255])] * 16
    iv = rng.choice(EDGE_IVS) if rng.random() < 0.6 else [rng.randrange(256) for _ in range(16)]
    return k + list(iv)


def fill(rng, ops):
    """Concrete keys and contents for a history printed by TLC."""
    keys = {1: edge_key(rng), 2: edge_key(rng)}
    res = []
    for o in ops:
        o = dict(o)
        if o["op"] == "gen" and o["kind"] == "key":
            o["key"] = keys[o["keyid"]]
            o["dirty"] = rng.choice([0, 255])
        if o["op"] == "split":
            o["sec"] = rnd(rng, o["sec"]["len"])
        if o["op"] == "read":
            o["locate"] = True
        if o["op"] == "seed":
            o["seed"] = o["seed"]
        res.append(o)
    return res


def histories(c, cfg, num, depth=60):
    """Behaviours of History.tla, as scenarios."""
    out = c.tlc("History", "History_%s.cfg" % cfg,
                extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.rng.randrange(1 << 31))])
    hs = printed(out, "HIST")
    if len(hs) < num * 0.9:
        raise RuntimeError("too few histories: %d\n%s" % (len(hs), out[-2000:]))
    gen, dist = c.tlc_counts(out)
    c.states += dist
    c.transitions += gen
    c.models.append({"module": "History", "config": "History_%s.cfg" % cfg, "behaviours": len(hs), "calls": sum(map(len, hs))})
    return [{"ops": fill(c.rng, h)} for h in hs]


READS = [0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257]


def keyed_gen(g, key, dirty=255):
    return {"op": "gen", "g": g, "kind": "key", "key": key, "dirty": dirty}


def stream_scenarios(rng, num, nreads, longs=()):
    """Reads of keyed generators: odd sizes, dirty buffers, edge IVs, a scribbled key buffer."""
    res = []
    for i in range(num):
        ops = [keyed_gen("a", edge_key(rng, 0.2))]
        pool = rng.choice([READS, READS, [1], [15, 16, 17], [0, 1, 31, 33], [16], [8, 24, 40]])
        for _ in range(nreads):
            ops.append({"op": "read", "g": "a", "len": rng.choice(pool), "dirty": rng.choice([0, 255, 90])})
        for ln in longs:
            ops.append({"op": "read", "g": "a", "len": ln, "dirty": 255, "seed": rng.randrange(1 << 31)})
            ops.append({"op": "read", "g": "a", "len": rng.choice(READS), "dirty": 255})
        res.append({"ops": ops})
    return res


def two_cuts(rng, num, total):
    """One stream cut in two ways: two generators with the same key."""
    res = []
    for _ in range(num):
        key = edge_key(rng, 0.2)
        ops = []
        for g in ("a", "b"):
            ops.append(keyed_gen(g, key, rng.choice([0, 1, 255])))
            left = total
            while left > 0:
                n = min(left, rng.choice(READS[1:] + [500, 1000]))
                ops.append({"op": "read", "g": g, "len": n, "dirty": rng.choice([0, 255])})
                left -= n
        res.append({"ops": ops})
    return res


def near_keys(rng, num, count):
    """Generators whose keys differ in one byte only, or share a part, in turns."""
    res = []
    for i in range(num):
        base = key(rng)
        keys = [base]
        for p in rng.sample(range(32), count):
            k = list(base)
            k[p] ^= rng.choice([1, 128, 255, 1 + rng.randrange(255)])
            keys.append(k)
        for cut in (4, 8, 12, 16, 24):
            keys += [base[:cut] + key(rng)[cut:], key(rng)[:cut] + base[cut:]]
        rng.shuffle(keys)
        ops, names = [], []
        for j, k in enumerate(keys):
            ops.append(keyed_gen("g%d" % j, k, rng.choice([0, 0, 1, 255])))
            names.append("g%d" % j)
            if rng.random() < 0.5:
                ops.append({"op": "read", "g": "g%d" % j, "len": rng.choice([1, 16, 20]), "dirty": 255})
        for _ in range(2):
            rng.shuffle(names)
            ops += [{"op": "read", "g": g, "len": rng.choice([7, 16, 24]), "dirty": 0} for g in names]
        res.append({"ops": ops})
    return res


def mirrored(rng, num, ncalls, apis=("rand", "old", "ssmsrand")):
    """Two generators with the same key and the same calls, interleaved with one another and
    with unrelated calls in between."""
    res = []
    for _ in range(num):
        key = edge_key(rng, 0.2)
        calls = []
        for i in range(ncalls):
            x = rng.random()
            if x < 0.3:
                calls.append({"op": "read", "len": rng.choice(READS), "locate": True})
            elif x < 0.45:
                calls.append({"op": "perm", "n": rng.choice([0, 1, 2, 3, 10, 100, 254, 255])})
            elif x < 0.6:
                calls.append({"op": "uniq", "n": rng.choice([0, 1, 2, 10, 19, 20, 21, 255])})
            else:
                n, k = rng.choice([(2, 2), (3, 2), (5, 3), (19, 19), (20, 4), (40, 7), (255, 2)])
                calls.append(split(rng.choice(apis), n, k, rnd(rng, rng.choice([1, 2, 16, 40, 300, 1024, 3000])), "", noObjs=True))
        ops = [keyed_gen("a", key), keyed_gen("b", key, 7), {"op": "gen", "g": "z", "kind": "fresh"}]
        at = [0, 0]
        while at != [len(calls)] * 2:
            w = rng.randrange(2)
            if at[w] == len(calls):
                w = 1 - w
            o = dict(calls[at[w]], g="ab"[w])
            if o["op"] == "read":
                o["dirty"] = rng.choice([0, 255, 17])
            ops.append(o)
            at[w] += 1
            y = rng.random()
            if y < 0.1:
                ops.append(split(rng.choice(["split", "rand", "ssms", "generic"]), 3, 2, rnd(rng, 900), "", g="z", noObjs=True))
            elif y < 0.15:
                ops.append({"op": "seed", "seed": rng.randrange(1000)})
        res.append({"ops": ops})
    return res


def perm_scenarios(rng, reps, sizes=None):
    """Perm of every size for both packages, and unique bytes, on new and keyed generators."""
    res = []
    for r in range(reps):
        for part in range(4):
            ops = [{"op": "gen", "g": "a", "kind": "fresh"}, {"op": "gen", "g": "r", "kind": "rz"},
                   keyed_gen("k", edge_key(rng, 0.2))]
            ns = list(sizes or range(part, 256, 4))
            rng.shuffle(ns)
            for n in ns:
                for op, g in [("perm", "a"), ("perm", "r"), ("perm", "k"), ("uniq", "a"), ("uniq", "k")]:
                    ops.append({"op": op, "g": g, "n": n, "limit": 20})
            res.append({"ops": ops})
    return res


ALGS = ["", " ", "Shamir", "SHAMIR", "shamir ", " shamir", "shami", "shamirs", "Krawczyk", "KRAWCZYK", "krawczyk ",
        "krawczy", "ssms", "SSMS", "aes", "none", "default", "shamir\x00", "krawczyk\n", "shamir,krawczyk", "\u015bhamir"]


def worker_scenarios(rng, plan, size=12):
    """plan: (alg, n, k, len).  Splits through workers, copies of a worker and without a
    worker, in one history; every deal is combined through any of them."""
    res = []
    for i in range(0, len(plan), size):
        ops = setup(rng) + [{"op": "worker", "w": "v"}, {"op": "wcopy", "w": "w", "d": "wc"}]
        ws = ["w", "v", "wc"]
        for j, (alg, n, k, ln) in enumerate(plan[i:i + size]):
            d = "d%d" % j
            ss = alg == "ssms"
            if rng.random() < 0.3:
                api = rng.choice(["ssms", "ssmsrand"] if ss else SPLITS)
                ops.append(split(api, n, k, rnd(rng, ln), d, noObjs=True))
                vias = [True, True]
            else:
                ops.append(split("wssms" if ss else "wshamir", n, k, rnd(rng, ln), d, w=rng.choice(ws), noObjs=True))
                vias = [True, False]
            for via in vias:
                o = combine_of(rng, "wssms" if ss else "wshamir", d, n, k, quorum(rng, n, k, rng.choice([0, 0, 1])),
                               nils=rng.randrange(2), via=via, full=False)
                if via:
                    o["w"] = rng.choice(ws)
                ops.append(o)
            if rng.random() < 0.3 and k > 2:      # too few
                o = combine_of(rng, "wssms" if ss else "wshamir", d, n, k, quorum(rng, n, k - 1), via=True)
                ops.append(o)
            for _ in range(2):
                a = rng.choice(ALGS)
                if rng.random() < 0.5:
                    ops.append(split("wother", n, k, rnd(rng, ln), "", alg=a, w=rng.choice(ws), noObjs=True))
                else:
                    ops.append(combine("wother", refs(d, quorum(rng, n, k)), n, k, alg=a, w=rng.choice(ws), noObjs=True))
        res.append({"ops": ops})
    return res


def material_scenarios(rng, num):
    """Everything that draws random material, in the order in which a program would at its
    start; optionally it seeds the program-wide source."""
    res = []
    for i in range(num):
        ops = [{"op": "seed", "seed": rng.choice([1, 42])}] if i % 3 else []
        kinds = [{"op": "gen", "g": "a", "kind": "fresh"}, {"op": "gen", "g": "b", "kind": "fresh"},
                 {"op": "gen", "g": "r", "kind": "rz"}, {"op": "worker", "w": "w"}, {"op": "worker", "w": "v"}]
        rng.shuffle(kinds)
        ops += kinds
        rest = [{"op": "read", "g": g, "len": n, "dirty": rng.choice([0, 255])} for g in "abr" for n in (16, 33, 64)]
        for api in SPLITS + SSMS + WORKER + ["rand", "old", "ssmsrand", "wshamir", "wssms"]:
            n, k = rng.choice([(2, 2), (3, 3), (5, 4)])
            rest.append(split(api, n, k, rnd(rng, rng.choice([9, 16, 30])), "x%d" % len(rest), noObjs=True,
                              g=rng.choice("ab")) if api in RANDS else
                        split(api, n, k, rnd(rng, rng.choice([9, 16, 30])), "x%d" % len(rest), noObjs=True,
                              **({"w": rng.choice("wv")} if api in WORKER else {})))
        rng.shuffle(rest)
        res.append({"ops": ops + rest})
    return res


# ----------------------------------------------------------------- concurrency
RANDS = ["rand", "old", "ssmsrand"]
FREES = ["split", "splitp", "generic", "ssms", "wshamir", "wssms"]


def spin(rng, api, n, k, ln, count, **kw):
    o = split(api, n, k, rnd(rng, ln), "", **kw)
    o.update(op="spin", count=count, seed=rng.randrange(1 << 31), limit=300)
    return o


def spin_scenarios(rng, num, threads, per, count, hooks, lens=(1, 2, 7, 16, 33, 100, 500, 1023, 1024, 1025, 3000, 5000), wait=200):
    """Goroutines that split and combine in loops: through one shared worker, one shared
    generator, generators of their own keyed by the caller (which made the same splits
    alone before), and no generator at all."""
    res = []
    for _ in range(num):
        pre, ths = setup(rng), []
        for t in range(threads):
            ops = []
            for j in range(per):
                n, k = rng.choice([(2, 2), (3, 2), (5, 3), (6, 6), (9, 5), (20, 4), (100, 2)])
                ln = rng.choice(lens if n < 20 else lens[:6])
                cnt = max(1, count * 8 // (8 + n)) if ln < 600 else max(1, count // 4)
                x = rng.random()
                if x < 0.4:
                    key = edge_key(rng)
                    api = rng.choice(RANDS)
                    a, b = "p%d_%d" % (t, j), "q%d_%d" % (t, j)
                    pre += [keyed_gen(a, key), keyed_gen(b, key)]
                    o = spin(rng, api, n, k, ln, cnt, g=a)
                    pre.append(o)
                    ops.append(dict(o, g=b))
                elif x < 0.55:
                    ops.append(spin(rng, rng.choice(RANDS), n, k, ln, cnt, g="a"))
                else:
                    ops.append(spin(rng, rng.choice(FREES), n, k, ln, cnt))
            ths.append(ops)
        post = [spin(rng, a, 3, 2, 20, 3) for a in ("split", "rand", "ssms", "wssms")]
        res.append({"pre": pre, "threads": ths, "post": post, "hooks": hooks, "wait": wait})
    return res


def rush_scenarios(rng, threads, lens=(1, 40, 1500, 5000, 20000)):
    """The same call made by very many goroutines at once, one kind after the other."""
    res = []
    for api in RANDS + FREES:
        for ln in rng.sample(lens, 3):
            n, k = rng.choice([(2, 2), (5, 3)])
            res.append({"pre": setup(rng), "threads": [[spin(rng, api, n, k, ln, 3)] for _ in range(threads)], "post": [],
                        "hooks": False, "wait": 100})
    return res


def splitp_scenarios(rng, num, threads, per):
    """Long secrets: one split runs in many goroutines, and several splits at once."""
    res = []
    for _ in range(num):
        ths = [[spin(rng, "splitp", *rng.choice([(2, 2), (3, 2), (5, 3)]),
                     rng.choice([1023, 1024, 1025, 2048, 2049, 4096, 10000, 20000, 65536]), 8) for _ in range(per)]
               for _ in range(rng.choice([1, threads]))]
        res.append({"pre": setup(rng), "threads": ths, "post": [], "hooks": False, "wait": 200})
    return res


def deal_ops(rng, t, per, shared_gens=("a",)):
    ops = []
    for j in range(per):
        api = rng.choice(SPLITS + SSMS + WORKER)
        n, k = rng.choice([(2, 2), (3, 2), (5, 3), (4, 4), (6, 5)])
        d = "t%dd%d" % (t, j)
        ops.append(split(api, n, k, rnd(rng, rng.choice([1, 2, 7, 16, 33, 60])), d, noObjs=True, g=rng.choice(shared_gens))
                   if api in ("rand", "old", "ssmsrand") else
                   split(api, n, k, rnd(rng, rng.choice([1, 2, 7, 16, 33, 60])), d, noObjs=True))
        ops.append(combine_of(rng, api, d, n, k, quorum(rng, n, k, rng.choice([0, 1]))))
        if not is_ssms(api) and rng.random() < 0.5:
            ops.append({"op": "regen", "list": refs(d, quorum(rng, n, k)), "m": 2, "d": d, "noObjs": True})
            ops.append(combine_of(rng, api, d, n, k, [n] + [r["i"] for r in ops[-1]["list"]][1:]))
    return ops


def conc_deals(rng, num, threads, per, hooks):
    """Recorded calls in several goroutines; deals made beforehand are combined and
    regenerated from by all of them at once, and again at the end."""
    res = []
    for _ in range(num):
        pre = setup(rng)
        olds = []
        for j in range(4):
            api = rng.choice(SPLITS + SSMS)
            n, k = rng.choice([(3, 2), (5, 3), (4, 4)])
            pre.append(split(api, n, k, rnd(rng, rng.choice([5, 20, 40])), "o%d" % j, noObjs=True))
            olds.append((api, "o%d" % j, n, k))
        ths = []
        for t in range(threads):
            ops = deal_ops(rng, t, per)
            for _ in range(per):
                api, d, n, k = rng.choice(olds)
                o = combine_of(rng, api, d, n, k, quorum(rng, n, k, rng.choice([0, 1])))
                ops.insert(rng.randrange(len(ops) + 1), o)
            ops += [{"op": "perm", "g": "a", "n": rng.choice([0, 3, 20, 255])},
                    {"op": "uniq", "g": "a", "n": rng.choice([0, 3, 20, 255])}]
            ths.append(ops)
        post = [combine_of(rng, api, d, n, k, quorum(rng, n, k)) for api, d, n, k in olds]
        res.append({"pre": pre, "threads": ths, "post": post, "hooks": hooks, "wait": 120})
    return res


def crowds(rng, num, threads, count, hooks=False):
    """Several goroutines that split the very same secret, and combine and regenerate from the
    very same lists of shares; before and after, the lists and secrets are recorded."""
    res = []
    for _ in range(num):
        pre, post, kinds = setup(rng), [], []
        for j in range(rng.choice([1, 1, 2, 3])):
            api = rng.choice(SPLITS + SSMS + WORKER)
            n, k = rng.choice([(2, 2), (3, 2), (5, 3), (6, 6), (9, 5), (20, 4), (30, 17)])
            d, ln = "o%d" % j, rng.choice([1, 5, 20, 40, 100, 700, 1024, 3000])
            pre.append(split(api, n, k, content(rng, ln), d, noObjs=True, ncols=-1))
            idx = quorum(rng, n, k, rng.choice([0, 1, n]))
            lst = refs(d, idx)
            if is_ssms(api) and rng.random() < 0.6:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    lst.insert(rng.randrange(len(lst) + 1), {"nil": True})
            pre.append({"op": "list", "obj": d, "list": lst})
            post.append({"op": "list", "obj": d})
            kinds.append((is_ssms(api), d, n, k, ln))
        ths = []
        for t in range(threads):
            ops = []
            for _ in range(3):
                ssms, d, n, k, ln = rng.choice(kinds)
                what = rng.choice(["combine", "combine", "split", "fail"] + ([] if ssms else ["regen"]))
                api = {"combine": "ssms" if ssms else "shamir", "regen": "shamir"}.get(what)
                if what == "combine" and rng.random() < 0.3:
                    api = "w" + api
                o = {"op": "crowd", "how": what, "obj": d, "d": d, "n": n, "k": k, "w": "w", "g": "a", "m": rng.choice([1, 2, 5]),
                     "count": max(3, count * 20 // (20 + n * k + ln // 20)), "api": api or rng.choice(SPLITS + SSMS + WORKER), "limit": 300}
                ops.append(o)
            ths.append(ops)
        post += [dict(o, count=2) for o in ths[0]]
        res.append({"pre": pre, "threads": ths, "post": post, "hooks": hooks, "wait": 200})
    return res


def cold_scenarios(rng, num, threads, sets):
    """Processes whose very first calls are made by several goroutines at once.  Combines and
    regenerations take share sets that were not made by this process."""
    res = []
    sets = [x for x in sets if len(x["secret"]) < 4000 and x["k"] <= 20 and len(x["shares"]) >= max(x["k"], 3) and None not in x["shares"]]
    for i in range(num):
        pre, ths = [], []
        x = rng.choice(sets)
        d, n, k, have = "d", x["n"], x["k"], len(x["shares"])
        pre.append({"op": "load", "d": d, "n": n, "k": k, "ncols": -1,
                    "set": {"scheme": x["scheme"], "secret": x["secret"], "shares": x["shares"]}})
        pre.append({"op": "list", "obj": d, "list": refs(d, quorum(rng, have, k, rng.choice([0, have])))})
        same = rng.choice(RANDS + FREES + ["combine", "regen", "perm"]) if rng.random() < 0.7 else None
        for t in range(threads):
            what = same or rng.choice(RANDS + FREES + ["combine", "regen", "perm"])
            g, ops = "g%d" % t, []
            if what == "regen" and (x["scheme"] == "ssms" or have > 200):
                what = "combine"
            if what in RANDS or what == "perm":
                ops.append({"op": "gen", "g": g, "kind": "fresh" if what in RANDS else rng.choice(["fresh", "rz"])})
            if what in ("wshamir", "wssms"):
                ops.append({"op": "worker", "w": "w"})
            if what == "perm":
                ops.append({"op": "perm", "g": g, "n": rng.choice([3, 20, 255])})
            elif what in ("combine", "regen"):
                api = x["scheme"]
                if what == "combine" and i % 3 == 0:
                    ops.append({"op": "worker", "w": "w"})
                    api = "w" + api
                ops.append({"op": "crowd", "how": what, "obj": d, "d": d, "n": n, "k": k, "m": 2, "w": "w", "api": api, "count": 2, "limit": 60})
            else:
                nn, kk = rng.choice([(2, 2), (5, 3)])
                ops.append(spin(rng, what, nn, kk, rng.choice([1, 20, 1500]), 2, g=g))
            ths.append(ops)
        res.append({"pre": pre, "threads": ths, "post": [{"op": "list", "obj": d}], "hooks": False, "wait": 60})
    return res


def gated(rng, scheds):
    """One scenario for each schedule: what TLC's threads do, with the pools gated."""
    res = []
    for s in scheds:
        pre, ths = setup(rng), []
        for t in range(max(s)):
            ops = []
            for j in range(2):
                n, k = 3, rng.choice([2, 3])
                d = "t%dd%d" % (t, j)
                api = rng.choice(["split", "rand", "split", "rand", "ssms", "ssmsrand", "wshamir", "old", "splitp"])
                ln = rng.choice([8, 16, 40, 300])
                if api in ("rand", "ssmsrand") and rng.random() < 0.7:
                    key = edge_key(rng)
                    a, b = "p%d_%d" % (t, j), "q%d_%d" % (t, j)
                    pre += [keyed_gen(a, key), keyed_gen(b, key)]
                    o = spin(rng, api, n, k, ln, 1, g=a)
                    pre.append(o)
                    ops.append(dict(o, g=b))
                    continue
                ops.append(split(api, n, k, rnd(rng, ln), d, noObjs=True, ncols=40))
                ops.append(combine_of(rng, api, d, n, k, quorum(rng, n, k)))
            ths.append(ops)
        post = []
        for t in range(max(s)):
            for o in ths[t]:
                if o["op"] == "combine":
                    post.append(o)
        res.append({"pre": pre, "threads": ths, "post": post, "hooks": True, "sched": s, "wait": 60})
    return res


def shared_reads(rng, num, threads, per, lens=(12, 13, 15, 16, 17, 31, 32, 33, 48, 64, 100)):
    """One generator read by several goroutines: keyed, fresh, and of the randomizer package."""
    res = []
    for _ in range(num):
        key = edge_key(rng)
        pre = [keyed_gen("s", key), {"op": "gen", "g": "f", "kind": "fresh"}, {"op": "gen", "g": "r", "kind": "rz"}]
        g0 = rng.choice(["s", "s", "f", "r"])
        ths = []
        for t in range(threads):
            fixed = rng.choice(lens)
            ths.append([{"op": "read", "g": g0, "len": rng.choice([fixed, rng.choice(lens)]),
                         "dirty": rng.choice([0, 255]), "shared": True} for _ in range(per)])
        res.append({"pre": pre, "threads": ths, "post": [], "hooks": False, "wait": 60})
    return res


def schedules(c, num, depth=400):
    out = c.tlc("PoolSplit", "PoolSplit_sim.cfg",
                extra=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(c.rng.randrange(1 << 31))])
    ss = printed(out, "SCHED")
    if len(ss) < num * 0.9:
        raise RuntimeError("too few schedules: %d\n%s" % (len(ss), out[-2000:]))
    c.models.append({"module": "PoolSplit", "config": "PoolSplit_sim.cfg", "behaviours": len(ss)})
    return ss


# ------------------------------------------------------------------ buffer pools
def pool_histories(c, num):
    out = c.tlc("Pool", "Pool_sim.cfg",
                extra=["-simulate", "num=%d" % num, "-depth", "120", "-seed", str(c.rng.randrange(1 << 31))])
    hs = printed(out, "POOL")
    if len(hs) < num * 0.9:
        raise RuntimeError("too few pool histories: %d\n%s" % (len(hs), out[-2000:]))
    c.models.append({"module": "Pool", "config": "Pool_sim.cfg", "behaviours": len(hs)})
    return hs


def pool_fills(rng, num):
    """Take many, put all back, take them again: what the pool retained shows."""
    res = []
    for i in range(num):
        size = rng.choice([1, 1, 2, 3, 4, 5, 7, 8, 16, 31, 64, 100, 200, 0, -1, -5])
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            m = max(size, 3) + rng.choice([0, 1, 2, 5, 40])
            ops += [[1, 0, 0]] * m + [[1, 1, rng.randrange(1, m + 1)] for _ in range(m)]
        ops += [[1, 0, 0]] * (max(size, 3) + 45)
        res.append({"size": size, "ops": ops})
    return res


# ---------------------------------------------------------------------- memory
SMALL = [(2, 2), (3, 2), (5, 3), (4, 4), (9, 4), (20, 3)]


def memory_scenarios(rng, num, lens, apis):
    """Deals of all kinds; everything the caller holds is appended to and overwritten, with
    later calls in between, and audited each time."""
    res = []
    for i in range(num):
        ops = setup(rng)
        deals = []
        # calls of one size are the ones that could be given each other's memory
        alike = (rng.choice(apis), rng.choice(SMALL), rng.choice(lens)) if rng.random() < 0.5 else None

        def call():
            x = rng.random()
            if x < 0.5 or not deals:
                api, (n, k), ln = alike or (rng.choice(apis), rng.choice(SMALL), rng.choice(lens))
                d = "d%d" % len(deals)
                ops.append(split(api, n, k, rnd(rng, ln), d, ncols=-1))
                deals.append([api, d, n, k, set()])
            else:
                api, d, n, k, dirty = rng.choice(deals)
                ok = [j for j in range(n) if j not in dirty]
                if len(ok) < k:
                    return
                idx = rng.sample(ok, rng.randrange(k, len(ok) + 1))
                if rng.random() < 0.25 and not is_ssms(api):
                    ops.append({"op": "regen", "list": refs(d, idx), "m": rng.choice([1, 3]), "d": d})
                elif is_ssms(api) and rng.random() < 0.4:
                    ops.append(combine("ssms", nil_list(rng, d, n, set(idx)), n, k, full=False))
                else:
                    o = combine_of(rng, api, d, n, k, idx, nils=rng.randrange(2))
                    o["noObjs"] = False
                    ops.append(o)
        for _ in range(3):
            call()
        ops.append({"op": "audit"})
        for step in range(18):
            x = rng.random()
            dl = rng.choice(deals)
            if x < 0.2:
                for j in rng.sample(range(dl[2]), dl[2]):
                    ops.append({"op": "write", "obj": "%s/%d" % (dl[1], j), "how": "append"})
            elif x < 0.35:
                ops.append({"op": "write", "obj": dl[1] + "/sec", "how": rng.choice(["fill", "flip", "append", "last"])})
            elif x < 0.5:
                j = rng.randrange(dl[2])
                dl[4].add(j)
                ops.append({"op": "write", "obj": "%s/%d" % (dl[1], j), "how": rng.choice(["fill", "flip", "first", "last"])})
            elif x < 0.57:
                ops.append({"op": "write", "obj": "res%d" % rng.randrange(1, 6), "how": rng.choice(["fill", "append"])})
            elif x < 0.64:
                ops.append({"op": "write", "obj": dl[1] + rng.choice(["/list", "/list", "/list%d" % dl[2]]),
                            "how": rng.choice(["clear", "append", "reverse"])})
            elif x < 0.72:
                ops.append({"op": "gc", "m": rng.randrange(2)})
            else:
                call()
            ops.append({"op": "audit"})
        res.append({"ops": ops})
    return res


def watched(scenarios):
    """The same calls, in a goroutine whose pool buffers are overwritten while in the pool."""
    return [{"pre": [], "threads": [s["ops"]], "post": [], "hooks": True, "wait": 120} for s in scenarios]
