"""Orchestration shared by all checks: build the driver from /repo's working tree,
replay scenarios in it, and let TLC judge the recorded traces.  Nothing here decides
a property: verdicts are TLC's (clauses of the specification, or invariants)."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
EXIT_HANG = 71


def last_words(err):
    """What a process that died of the code under test said."""
    m = re.search(r"^(panic:|fatal error:|failed to ).*$", err, re.M)
    return m.group(0)[:200] if m else err[:200]


class CheckError(Exception):
    """The check itself failed: neither 'holds' nor 'violated'."""


class Enough(Exception):
    """The property is violated, or calls keep hanging: the rest need not be replayed."""


class Check:
    """One run of one check."""

    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%s" % (prop, self.seed))
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.bins = {}
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.models = []
        self.tally = {}
        self.samples = []
        self.rejects = []
        self.notes = []
        self.extra = {}
        self.assumptions = []
        self.nfile = 0
        self.hangs = 0

    # ------------------------------------------------------------------ util
    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def path(self, stem):
        self.nfile += 1
        return os.path.join(self.tmp, "%04d-%s" % (self.nfile, stem))

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def fresh(self):
        """Rejections of this property that are not known findings."""
        return [r for r in self.rejects if r["property"] == self.prop and not self.finding(r)]

    def finding(self, r):
        for f in self.known():
            if f["property"] == r["property"] and f["clause"] == r["clause"] and \
                    all(r["event"].get(k) == v for k, v in f["event"].items()):
                return f
        return None

    def stage_done(self):
        """Between two stages of a check: is there anything left to find out?"""
        if self.fresh() or self.hangs >= 4:
            raise Enough()

    # ----------------------------------------------------------------- build
    def build(self, tags="verif", race=False):
        key = (tags, race)
        if key in self.bins:
            return self.bins[key]
        over = {}
        drv = os.path.join(VERIF, "driver")
        for f in os.listdir(drv):
            if f.endswith(".go"):
                over[os.path.join(REPO, "verifdriver", f)] = os.path.join(drv, f)
        over[os.path.join(REPO, "aaacpu", "aaacpu.go")] = os.path.join(drv, "aaacpu", "aaacpu.go")
        ov = self.path("overlay.json")
        with open(ov, "w") as f:
            json.dump({"Replace": over}, f)
        out = self.path("driver")
        env = dict(os.environ, GOFLAGS="", GOPROXY="off", GOTOOLCHAIN="local", GO111MODULE="on")
        cmd = ["go", "build", "-overlay", ov, "-tags", tags, "-o", out]
        if race:
            cmd.append("-race")
            env["CGO_ENABLED"] = "1"
        p = subprocess.run(cmd + ["./verifdriver"], cwd=REPO, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise CheckError("driver does not build:\n" + p.stdout)
        self.bins[key] = out
        return out

    # ---------------------------------------------------------------- driver
    def drive(self, mode, script, env=None, tags="verif", race=False, timeout=600, stem="t"):
        """Run the driver once; returns (events, returncode, stderr)."""
        exe = self.build(tags, race)
        sp, op, ep = self.path(stem + ".script"), self.path(stem + ".events"), self.path(stem + ".stderr")
        with open(sp, "w") as f:
            f.write(script)
        e = dict(os.environ)
        e.update(env or {})
        with open(ep, "w") as ef:
            try:
                p = subprocess.run([exe, mode, sp, op], stdout=subprocess.DEVNULL, stderr=ef,
                                   env=e, cwd=self.tmp, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                raise CheckError("driver gave no answer within %ds (%s)" % (timeout, mode))
        err = open(ep, errors="replace").read()
        if rc == 70 or "DRIVER-ERROR" in err:
            raise CheckError("driver error: " + err[-2000:])
        events = []
        if os.path.exists(op):
            for line in open(op):
                try:
                    events.append(json.loads(line))
                except ValueError:
                    break           # cut short by a crash
        if not (rc == 0 and events and events[-1].get("ev") == "end"):
            if rc in (-9, 137):
                raise CheckError("driver was killed (out of memory?)")
        return events, rc, err

    @staticmethod
    def crash_in_module(rc, err):
        """Did the process die of the code under test (panic in another goroutine, fatal
        runtime error, os.Exit), as opposed to being ended from outside?"""
        return rc in (1, 2) or bool(re.search(r"^(panic:|fatal error:|SIG|unexpected fault)", err, re.M))

    def hist(self, scenarios, **kw):
        """Replay scenarios of calls.  A call that kills the process is recorded as an
        event with out = "crash"; the remaining scenarios are replayed afterwards."""
        todo = list(scenarios)
        lines, restarts = [], 0
        while todo:
            events, rc, err = self.drive("hist", "\n".join(json.dumps(s) for s in todo), **kw)
            done = {e["sc"] for e in events if e["ev"] == "done"}
            if rc == 0 and events and events[-1]["ev"] == "end":
                lines += [e for e in events if e["ev"] not in ("start", "end")]
                break
            starts = [e for e in events if e["ev"] == "start"]
            if not starts:
                raise CheckError("driver died before its first call: " + err[-2000:])
            last = starts[-1]
            cur = [s for s in todo if s["sc"] == last["sc"]][0]
            lines += [e for e in events if e["ev"] not in ("start", "end")]
            if rc != EXIT_HANG:
                if not self.crash_in_module(rc, err):
                    raise CheckError("driver died (rc %s): %s" % (rc, err[-2000:]))
                if events[-1]["ev"] == "start":
                    lines.append(self.crash_event(cur, last["op"], err))
                else:
                    raise CheckError("driver died between calls: " + err[-2000:])
            restarts += 1
            if rc == EXIT_HANG:
                self.hangs += 1
            todo = [s for s in todo if s["sc"] not in done and s["sc"] != last["sc"]]
            if restarts >= (2 if self.hangs > 1 else 4):
                self.notes.append("stopped after %d crashes or hangs; %d scenarios not replayed"
                                  % (restarts, len(todo)))
                self.extra["cut_short"] = True
                break
        return lines

    def conc(self, scenarios, mode="conc", **kw):
        """Replay scenarios of concurrent calls.  A scenario that ends the process, or does
        not end, is recorded as such and the others are replayed afterwards."""
        todo = list(scenarios)
        lines, restarts = [], 0
        race = kw.get("race")
        if race:
            kw["env"] = dict(kw.get("env") or {}, GORACE="halt_on_error=0 exitcode=0 atexit_sleep_ms=0")
        while todo:
            events, rc, err = self.drive(mode, "\n".join(json.dumps(s) for s in todo), **kw)
            done = {e["sc"] for e in events if e["ev"] == "done"}
            lines += [e for e in events if e["ev"] not in ("start", "end", "done")]
            if race:
                found = [b for b in err.split("==================") if "DATA RACE" in b]
                mine = [b for b in found if "github.com/fadhilkurnia/shamir/" in
                        re.sub(r"github.com/fadhilkurnia/shamir/(verifdriver|aaacpu)", "", b)]
                if len(mine) < len(found):
                    raise CheckError("the driver races with itself:\n" + found[0][:3000])
                lines.append({"ev": "race", "sc": todo[0]["sc"], "op": -1, "races": len(mine),
                              "msg": mine[0][:1500] if mine else ""})
            if rc == 0 and events and events[-1]["ev"] == "end":
                break
            starts = [e for e in events if e["ev"] == "start"]
            if not starts:
                raise CheckError("driver died before its first scenario: " + err[-2000:])
            last = starts[-1]["sc"]
            if rc != EXIT_HANG:
                if not self.crash_in_module(rc, err):
                    raise CheckError("driver died (rc %s): %s" % (rc, err[-2000:]))
                lines.append({"ev": "died", "sc": last, "op": -1, "msg": last_words(err)})
            restarts += 1
            if rc == EXIT_HANG:
                self.hangs += 1
            todo = [s for s in todo if s["sc"] not in done and s["sc"] != last]
            if restarts >= (2 if self.hangs > 1 else 3):
                self.notes.append("stopped after %d crashes or hangs" % restarts)
                self.extra["cut_short"] = True
                break
        return lines

    @staticmethod
    def crash_event(scenario, i, err):
        op = scenario["ops"][i]
        e = {"sc": scenario["sc"], "op": i, "out": "crash", "msg": last_words(err),
             "args": True, "nores": True, "objs": [], "lens": [], "full": False}
        kind = op["op"]
        sec = op.get("sec") or {}
        if kind == "split":
            api = op["api"]
            e.update(ev="split", api=api, scheme="ssms" if api in ("ssms", "ssmsrand", "wssms") else "shamir",
                     alg=op.get("alg", ""), d=op.get("d", ""), n=op["n"], k=op["k"],
                     len=len(sec.get("lit", [])) if sec.get("kind") == "lit" else sec.get("len", 0),
                     src=op.get("g", "") + op.get("w", ""), sdig="", shdig="", shares=[], secret=[], ofb=[])
        elif kind in ("combine", "regen"):
            refs = [[r.get("d", "") if not r.get("mut") else "", r.get("i", 0) if not r.get("mut") else 0]
                    for r in op.get("list", [])]
            e.update(ev=kind, refs=refs, shape=[], d=op.get("d", ""), m=op.get("m", 0), shares=[], base=0,
                     api=op.get("api", ""), scheme="ssms" if op.get("api") in ("ssms", "wssms") else "shamir",
                     alg=op.get("alg", ""), n=op.get("n", 0), k=op.get("k", 0), rdig="", rlen=0,
                     res=[], src=op.get("w", ""))
            e["in"] = []
        elif kind in ("perm", "uniq"):
            e.update(ev=kind, g=op["g"], n=op["n"], data=[])
        elif kind == "read":
            e.update(ev=kind, g=op["g"], n=-1, len=op["len"], wins=[], dig="", hint=[-1, -1])
        elif kind == "skip":
            e.update(ev=kind, g=op["g"], blocks=0)
        else:
            raise CheckError("process died in %s: %s" % (kind, err[-1500:]))
        return e

    # ------------------------------------------------------------------- TLC
    def tlc(self, module, cfg, env=None, workers=1, timeout=600, heap="3g", extra=(), sim=None, cwd=SPEC):
        """Run TLC; returns its output."""
        meta = self.path("tlc")
        cmd = ["java", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + self.tmp,
               "-XX:+UseParallelGC" if workers != 1 else "-XX:+UseSerialGC",
               "-cp", JAR, "tlc2.TLC", "-config", cfg, "-metadir", meta,
               "-noGenerateSpecTE", "-workers", str(workers)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC gave no answer within %ds: %s %s" % (timeout, module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    @staticmethod
    def tlc_counts(out):
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", out, re.M)
        if not m:
            m = re.findall(r"The number of states generated: (\d+)()", out)
            return (int(m[-1][0]), int(m[-1][0])) if m else (0, 0)
        return int(m[-1][0]), int(m[-1][1])

    def model(self, module, cfg, workers=8, timeout=800, expect=None, heap="8g", env=None):
        """Model check a design configuration.  expect=None: everything must hold.
        expect=NAME: the configuration turns a knob into a mistake, and exactly that
        property has to fail (so the invariants are not vacuous)."""
        t = time.time()
        out = self.tlc(module, cfg, workers=workers, timeout=timeout, heap=heap, env=env)
        gen, dist = self.tlc_counts(out)
        if expect is None:
            if "Model checking completed. No error has been found." not in out:
                raise CheckError("specification %s/%s does not satisfy its own properties:\n%s"
                                 % (module, cfg, out[-3000:]))
            self.states += dist
            self.transitions += gen
            self.models.append({"module": module, "config": cfg, "distinct_states": dist,
                                "transitions": gen, "wall_s": round(time.time() - t, 1)})
        else:
            names = re.findall(r"(?:Invariant|Action property|Temporal property) (\S+?) (?:is|was) violated", out)
            names += re.findall(r"The invariant of (\S+) is equal to FALSE", out)
            if "Temporal properties were violated" in out:
                names.append("Temporal")
            if "Deadlock reached" in out:
                names.append("Deadlock")
            if expect not in names:
                raise CheckError("mistake configuration %s/%s does not violate %s but %s:\n%s"
                                 % (module, cfg, expect, names, out[-3000:]))
            self.models.append({"module": module, "config": cfg, "mistake_detected_by": expect})
        return out

    def models_parallel(self, jobs):
        """jobs: (module, cfg, expect) triples."""
        with cf.ThreadPoolExecutor(4) as ex:
            for f in [ex.submit(self.model, m, c, 2, 800, x, "3g") for m, c, x in jobs]:
                f.result()

    def validate(self, events, module="TraceSharing", cfg=None, focus=None, what="", timeout=800, heap="4g",
                 extra_env=None):
        """Check one recorded trace against a trace specification."""
        tp = self.path("trace.ndjson")
        events = [e for e in events if e["ev"] != "start"] + [{"ev": "end"}]
        with open(tp, "w") as f:
            for e in events:
                f.write(json.dumps(e) + "\n")
        env = {"TRACE": tp, "FOCUS": focus or self.prop}
        env.update(extra_env or {})
        out = self.tlc(module, cfg or module + ".cfg", env=env, timeout=timeout, heap=heap)
        if "Model checking completed. No error has been found." not in out or "@@TALLY" not in out:
            raise CheckError("trace specification %s failed on %s:\n%s" % (module, what, out[-4000:]))
        tally = {}
        for m in re.finditer(r'^"@@(REJECT|TALLY) (.*)"$', out, re.M):
            v = json.loads(json.loads('"' + m.group(2) + '"'))
            if m.group(1) == "TALLY":
                for c in v:
                    tally[tuple(c["clause"])] = c["count"]
            else:
                ev = events[v["line"] - 1]
                for prop, clause in v["clauses"]:
                    self.rejects.append({"property": prop, "clause": clause, "event": ev, "what": what})
        gen, dist = self.tlc_counts(out)
        self.states += dist
        self.transitions += gen
        self.events += len(events)
        for k, n in tally.items():
            self.tally[k] = self.tally.get(k, 0) + n
        return out

    def check_conc(self, scenarios, what, chunks=4, module="TraceSharing", **kw):
        return self.check_hist(scenarios, what, chunks, run=self.conc, drive_kw=kw, module=module)

    def check_hist(self, scenarios, what, chunks=6, focus=None, drive_kw=None, cfg=None, run=None,
                   module="TraceSharing"):
        """Replay scenarios and check the recorded traces, in parallel chunks."""
        scenarios = list(scenarios)
        for i, s in enumerate(scenarios):
            s["sc"] = i + 1
        self.build(**{k: v for k, v in (drive_kw or {}).items() if k in ("tags", "race")})
        chunks = max(1, min(chunks, len(scenarios)))
        parts = [scenarios[i::chunks] for i in range(chunks)]

        def one(part):
            ev = (run or self.hist)(part, **(drive_kw or {}))
            self.validate(ev, module=module, focus=focus, what=what, cfg=cfg)
            return ev

        with cf.ThreadPoolExecutor(chunks) as ex:
            res = list(ex.map(one, parts))
        by = {s["sc"]: s for s in scenarios}
        for r in self.rejects:
            if "script" not in r and r["what"] == what and r["event"].get("sc") in by:
                r["script"] = by[r["event"]["sc"]]
        self.traces += len(scenarios)
        self.log("%s: %d scenarios, %d events" % (what, len(scenarios), sum(map(len, res))))
        self.stage_done()
        return [e for r in res for e in r]

    # --------------------------------------------------------------- results
    def sample(self, x, limit=1500):
        if len(self.samples) < 6:
            t = json.dumps(x)
            self.samples.append(x if len(t) <= limit else t[:limit] + "...")

    def known(self):
        """Open findings: specific failures that are recorded and not repaired."""
        res = []
        p = os.path.join(VERIF, "known-findings.txt")
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
        return res

    def finish(self, need=()):
        """need: clause names (or properties) that must have been decided at least once."""
        mine = [r for r in self.rejects if r["property"] == self.prop]
        other = {}
        for r in self.rejects:
            if r["property"] != self.prop:
                other.setdefault(r["property"], r["clause"])
        for p in sorted(other):
            self.log("note: the trace also rejects %s (%s); its own check decides that" % (p, other[p]))
        judged = {"%s: %s" % k: n for k, n in self.tally.items() if k[0] == self.prop}
        code = 0
        shown = set()
        for r in mine:
            f = self.finding(r)
            if f and f["what"] not in shown:
                shown.add(f["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.prop, f["what"]))
        fresh = self.fresh()
        if fresh:
            code = 1
            rdir = os.path.join(VERIF, "replays")
            os.makedirs(rdir, exist_ok=True)
            by = {}
            for r in fresh:
                by.setdefault(r["clause"], r)
            for clause, r in sorted(by.items()):
                self.log("rejected: %s [%s] in %s" % (clause, r["what"], json.dumps(r["event"])[:400]))
            rp = os.path.join(rdir, "%s-%s-%d.json" % (self.prop, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "violations": list(by.values())[:20]}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (self.prop, rp), flush=True)
        elif not judged and not self.extra.get("model_only"):
            raise CheckError("nothing was decided")
        else:
            for n in need:
                if not any(n in k for k in judged):
                    raise CheckError("clause never decided: " + n)
            if self.extra.get("cut_short"):
                raise CheckError("; ".join(self.notes))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level,
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "events_validated": self.events,
                           "clauses_decided": judged, "models": self.models,
                           "samples": self.samples, **self.extra},
              "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.log("%s; %d states, %d traces, %d events, %d clause decisions"
                 % ("VIOLATED" if code else "held", self.states, self.traces, self.events,
                    sum(judged.values())))
        return code

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def main(prop, fn):
    c = Check(prop)
    try:
        try:
            code = fn(c)
        except Enough:
            code = c.finish()
            if code == 0:
                raise CheckError("calls do not return")
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (prop, e), flush=True)
        code = 2
    finally:
        c.close()
    sys.exit(code)
