#!/usr/bin/env python3
"""Runs the checks of one property: model checking of the specification,
generation of cases from the specification, execution on the real code of
/repo, and validation by TLC of what the code did.

exit 0: the property held on everything explored (or only listed findings failed)
exit 1: VIOLATION
exit 2: the machinery itself failed (no verdict)
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
REPO = "/repo"
JAVA = ["java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss64m", "-cp",
        "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"]


class Broken(Exception):
    pass


def log(*a):
    print(*a, flush=True)


class Check:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.accepted = 0
        self.cases = 0
        self.events = 0
        self.nontrivial = set()
        self.models = []
        self.samples = []
        self.violations = []
        self.known = []
        self.ops = {}
        self.results = {}
        self.cat = None
        self.findings = load_findings(pid)

    # ---- tools -------------------------------------------------------------
    def env(self, **kw):
        e = dict(os.environ)
        e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
                 TIER=self.tier, SEED=str(self.seed))
        e.setdefault("HOME", "/root")
        e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
        e.setdefault("GOCACHE", "/root/.cache/go-build")
        e.update(kw)
        return e

    def build(self, race=False):
        src = os.path.join(self.work, "harness")
        if not os.path.exists(src):
            shutil.copytree(HARNESS, src)
        vh = os.path.join(self.work, "vh-race" if race else "vh")
        r = subprocess.run(["go", "build"] + (["-race"] if race else []) + ["-o", vh, "."], cwd=src, env=self.env(),
                           capture_output=True, text=True)
        if r.returncode != 0:
            raise Broken("harness does not build:\n" + r.stdout + r.stderr)
        return vh

    def tlc(self, module, cfg, out, timeout, workers=8, **env):
        meta = tempfile.mkdtemp(dir=self.work)
        cmd = JAVA + ["tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
                      "-config", cfg, os.path.join(SPEC, module + ".tla")]
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=SPEC, env=self.env(**env), stdout=f,
                                   stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise Broken("TLC timed out on " + module)
        shutil.rmtree(meta, ignore_errors=True)
        txt = open(out, errors="replace").read()
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
        gen = int(m[-1][0]) if m else 0
        dist = int(m[-1][1]) if m else 0
        return r.returncode, txt, gen, dist

    # ---- stages ------------------------------------------------------------
    def mc(self, module, timeout=600):
        """model check the specification itself"""
        out = os.path.join(self.work, module + ".out")
        t = time.time()
        rc, txt, gen, dist = self.tlc(module, os.path.join(SPEC, module + ".cfg"), out, timeout, OUT="")
        if rc != 0:
            raise Broken("the specification %s violates its own invariants:\n%s" % (module, strip(txt)))
        self.states += dist
        self.transitions += gen
        self.models.append({"module": module, "distinct_states": dist, "states_generated": gen})
        log("model %s: %d states, %d transitions (%.1fs)" % (module, dist, gen, time.time() - t))

    def catalog(self):
        """parameter sets and what they say, from the specifications of the codecs"""
        if self.cat:
            return self.cat
        t = time.time()
        jobs = []
        for m in ("CatH264", "CatH265", "CatAv1", "CatAac"):
            cfg = os.path.join(self.work, m + ".cfg")
            open(cfg, "w").write(overrides(m) + "INIT CInit\nNEXT CNext\nINVARIANT CInv\nCHECK_DEADLOCK FALSE\n")
            meta = tempfile.mkdtemp(dir=self.work)
            cmd = JAVA + ["tlc2.TLC", "-workers", "2", "-metadir", meta, "-noGenerateSpecTE", "-config", cfg, os.path.join(SPEC, m + ".tla")]
            out = open(os.path.join(self.work, m + ".out"), "w+")
            env = self.env(OUT=os.path.join(self.work, m + ".nd"))
            jobs.append((m, out, subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=out, stderr=subprocess.STDOUT)))
        self.cat = os.path.join(self.work, "catalog.nd")
        n = 0
        with open(self.cat, "w") as f:
            for m, out, p in jobs:
                try:
                    rc = p.wait(600)
                except subprocess.TimeoutExpired:
                    raise Broken("TLC timed out on " + m)
                out.seek(0)
                txt = out.read()
                ls = sorted(json.loads('"' + x + '"') for x in re.findall(r'^"GEN (.*)"$', txt, re.M))
                if rc != 0 or not ls:
                    raise Broken("generation from %s failed:\n%s" % (m, strip(txt)))
                n += len(ls)
                f.write("\n".join(ls) + "\n")
        log("catalog of %d parameter sets (%.1fs)" % (n, time.time() - t))
        return self.cat

    def gen(self, module, timeout=300, workers=8, **env):
        """cases enumerated by TLC from the specification"""
        stem = module + "".join("-%s" % os.path.basename(v) for v in env.values())
        out = os.path.join(self.work, stem + ".out")
        nd = os.path.join(self.work, stem + ".cases")
        t = time.time()
        cfg = os.path.join(SPEC, module + ".cfg")
        if not os.path.exists(cfg):
            cfg = os.path.join(self.work, module + ".cfg")
            run = "INSTANCE GenRun" in open(os.path.join(SPEC, module + ".tla")).read()
            open(cfg, "w").write(overrides(module) + (
                "INIT GInit\nNEXT GNext\nCHECK_DEADLOCK FALSE\n" if run else ""))
            module_has_behaviour = False
        else:
            module_has_behaviour = True
        rc, txt, gen, dist = self.tlc(module, cfg, out, timeout, workers, OUT=nd, **env)
        lines = []
        if os.path.exists(nd):
            lines += open(nd).read().splitlines()
        for m in re.finditer(r'^"GEN (.*)"$', txt, re.M):
            lines.append(json.loads('"' + m.group(1) + '"'))
        if rc != 0 or not lines:
            raise Broken("generation from %s failed:\n%s" % (module, strip(txt)))
        if module_has_behaviour:
            self.states += dist
            self.transitions += gen
            self.models.append({"module": module, "distinct_states": dist, "states_generated": gen})
        lines.sort()
        with open(nd, "w") as f:
            f.write("\n".join(lines) + "\n")
        log("generated %d cases from %s, %d states, %d transitions (%.1fs)" % (len(lines), module, dist, gen, time.time() - t))
        return nd

    def run_harness(self, driver, n, inp, trace, lo=None, hi=None, reuse=0):
        cmd = [self.vh, "-driver", driver, "-seed", str(self.seed), "-n", str(n), "-out", trace]
        if self.tier == "thorough":
            cmd.append("-deep")
        if reuse:
            cmd += ["-reuse", str(reuse)]
        if inp:
            cmd += ["-in", inp]
        if lo is not None:
            cmd += ["-lo", str(lo), "-hi", str(hi)]
        try:
            return subprocess.run(cmd, env=self.env(GOMEMLIMIT="6GiB"), capture_output=True, text=True,
                                  timeout=800, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("harness timed out on driver " + driver)

    def trace(self, driver, module, n, gens=(), label=None):
        """execute cases on the real code, validate the trace with TLC"""
        t = time.time()
        inp = None
        if gens:
            inp = os.path.join(self.work, driver + ".in")
            with open(inp, "w") as f:
                for g in gens:
                    f.write(open(g).read())
        trace = os.path.join(self.work, driver + ".ndjson")
        r = self.run_harness(driver, n, inp, trace)
        if r.returncode != 0:
            if r.returncode == 3:
                raise Broken("harness failed: " + r.stderr[-3000:])
            self.crash(driver, n, inp, r)
            return
        t1 = time.time()
        self.judge(driver, module, trace, self.validate(driver, module, trace), t1 - t)

    def validate(self, driver, module, trace, workers=8):
        """TLC follows the trace through the specification"""
        out = os.path.join(self.work, driver + ".tlc")
        cfg = os.path.join(self.work, driver + "-" + module + ".cfg")
        open(cfg, "w").write(overrides(module) + "INIT CInit\nNEXT CNext\nCHECK_DEADLOCK FALSE\n")
        t = time.time()
        odd = {}
        while True:
            r = self.tlc(module, cfg, out, 800, workers, TRACE=trace)
            at = incomparable(r[1]) if r[0] != 0 else None
            if at is None or at[0] in odd or len(odd) == 10:
                return r + (time.time() - t, odd)
            # go on without the case
            odd[at[0]] = at[1]
            lines = open(trace).read().splitlines()
            c = json.loads(lines[at[0] - 1])
            odd[at[0]] = (at[1], c)
            lines[at[0] - 1] = json.dumps({"cfg": c["cfg"], "ev": []})
            with open(trace, "w") as f:
                f.write("\n".join(lines) + "\n")

    def judge(self, driver, module, trace, result, run_s):
        rc, txt, gen, dist, tlc_s, odd = result
        for k in sorted(odd):
            self.report(driver, module, odd[k][1], {"ev": odd[k][0], "expected": [
                "a result of the kind specified (TLC cannot compare the observed one with it)"]})
        if rc != 0:
            raise Broken("trace validation of %s failed to run:\n%s" % (module, strip(txt)))
        acc = set(int(x) for x in re.findall(r'^"ACCEPT (\d+)"$', txt, re.M))
        rej = {}
        for m in re.finditer(r'^"REJECT (.*)"$', txt, re.M):
            j = json.loads(json.loads('"' + m.group(1) + '"'))
            rej[j["case"]] = j
        lines = open(trace).read().splitlines()
        acc -= set(odd)
        if len(acc) + len(rej) + len(odd) != len(lines):
            raise Broken("trace validation of %s incomplete: %d accepted, %d rejected, %d cases\n%s" % (
                module, len(acc), len(rej), len(lines), txt[-2000:]))
        self.states += dist
        self.transitions += gen
        odd = txt.count('"UNSPECIFIED"')
        if odd:
            log("%d operations without a specified outcome other than not crashing" % odd)
            self.results["unspecified"] = self.results.get("unspecified", 0) + odd
        self.accepted += len(acc)
        self.cases += len(lines)
        for i, l in enumerate(lines):
            self.nontrivial.add(hashlib.md5(l.encode()).digest())
            c = json.loads(l)
            self.events += len(c["ev"])
            for e in c["ev"]:
                self.ops[e["op"]] = self.ops.get(e["op"], 0) + 1
                k = e["op"] + (":err" if isinstance(e["r"], dict) and e["r"].get("err") else ":ok")
                self.results[k] = self.results.get(k, 0) + 1
            if i in (0, len(lines) // 2):
                s = json.dumps(c)
                self.samples.append(s if len(s) < 1500 else s[:1500] + "...")
        log("driver %s: %d cases run (%.1fs), validated against %s: %d accepted, %d rejected (%.1fs)" % (
            driver, len(lines), run_s, module, len(acc), len(rej), tlc_s))
        for k in sorted(rej):
            c = json.loads(lines[k - 1])
            before = []
            if "group" in c:
                before = [x for x in map(json.loads, lines[max(0, k - 12):k - 1]) if x.get("group") == c["group"]]
            self.report(driver, module, c, rej[k], before)

    def mix(self, parts):
        """execute cases of several components together, interleaved and concurrently,
        with the race detector; validate each with its specification.
        parts: (driver, module, random cases, maximum, generated cases)"""
        t = time.time()
        vh = self.build(race=True)
        conf = os.path.join(self.work, "mix.json")
        with open(conf, "w") as f:
            for driver, module, n, top, gens in parts:
                inp = ""
                if gens:
                    inp = os.path.join(self.work, driver + ".in")
                    with open(inp, "w") as g:
                        for x in gens:
                            g.write(open(x).read())
                f.write(json.dumps({"driver": driver, "in": inp, "n": n, "max": top}) + "\n")
        out = os.path.join(self.work, "mix")
        os.mkdir(out)
        t = time.time()
        cmd = [vh, "-mix", conf, "-seed", str(self.seed), "-out", out] + (["-deep"] if self.tier == "thorough" else [])
        try:
            r = subprocess.run(cmd, env=self.env(GOMEMLIMIT="12GiB", GORACE="exitcode=66"), capture_output=True,
                               text=True, timeout=800, errors="replace")
        except subprocess.TimeoutExpired:
            raise Broken("mixed run timed out")
        races = re.findall(r"WARNING: DATA RACE\n.*?\n==================", r.stderr, re.S)
        if r.returncode not in (0, 66) and not races:
            if r.returncode == 3 or ("goroutine" not in r.stderr and "fatal error" not in r.stderr):
                raise Broken("mixed run failed: " + r.stderr[-3000:])
            self.report("mix", "-", {"cfg": {}, "ev": [{"op": "concurrent operations", "r": r.stderr[:3000]}]}, {"ev": 1, "expected": []})
            return
        for x in races[:3]:
            self.report("mix", "-", {"cfg": {}, "ev": [{"op": "concurrent operations", "r": {"race": x[:3000]}}]},
                        {"ev": 1, "expected": ["no data race between operations on different objects"]})
        log("mixed run of %d components: %d data races (%.1fs)" % (len(parts), len(races), time.time() - t))
        if not all(os.path.exists(os.path.join(out, p[0] + ".ndjson")) for p in parts):
            if races:
                return
            raise Broken("mixed run left no traces: " + r.stderr[-3000:])
        with ThreadPoolExecutor(4) as ex:
            jobs = [(p, ex.submit(self.validate, p[0], p[1], os.path.join(out, p[0] + ".ndjson"), 2)) for p in parts]
            for p, j in jobs:
                self.judge(p[0], p[1], os.path.join(out, p[0] + ".ndjson"), j.result(), 0)

    def reuse(self, parts):
        """execute cases in groups, decoding into the same objects; validate each with its specification.
        parts: as in mix"""
        t = time.time()
        todo = []
        for driver, module, n, top, gens in parts:
            inp = None
            if gens:
                inp = os.path.join(self.work, driver + ".in")
                with open(inp, "w") as g:
                    for x in gens:
                        g.write(open(x).read())
            trace = os.path.join(self.work, driver + ".ndjson")
            r = self.run_harness(driver, n, inp, trace, reuse=top)
            if r.returncode == 0:
                todo.append((driver, module, trace))
            elif r.returncode == 3 or ("goroutine" not in r.stderr and "fatal error" not in r.stderr):
                raise Broken("harness failed: " + r.stderr[-3000:])
            else:
                self.report(driver, "-", {"cfg": {}, "ev": [{"op": "operations on used objects", "r": r.stderr[:3000]}]},
                            {"ev": 1, "expected": []})
        log("%d components on used objects (%.1fs)" % (len(parts), time.time() - t))
        with ThreadPoolExecutor(4) as ex:
            jobs = [(p, ex.submit(self.validate, p[0], p[1], p[2], 2)) for p in todo]
            for p, j in jobs:
                self.judge(p[0], p[1], p[2], j.result(), 0)

    def crash(self, driver, n, inp, r):
        # the process died: find a case that kills it
        sig = (r.stderr or "")[-3000:]
        log("harness process died (%d), looking for the case" % r.returncode)
        d = subprocess.run([self.vh, "-driver", driver, "-seed", str(self.seed), "-n", str(n), "-dump"]
                           + (["-deep"] if self.tier == "thorough" else []) + (["-in", inp] if inp else []),
                           env=self.env(), capture_output=True, text=True)
        cases = d.stdout.splitlines()
        lo, hi = 0, len(cases)
        tmp = os.path.join(self.work, "crash.ndjson")
        m = re.search(r"memory exhausted, cases \[([\d ]*)\]", sig)
        for i in sorted(int(x) for x in m.group(1).split()) if m else ():
            x = self.run_harness(driver, n, inp, tmp, i, i + 1)
            if x.returncode not in (0, 3):
                lo, hi, sig = i, i + 1, x.stderr[-3000:]
                break
        while hi - lo > 1:
            mid = (lo + hi) // 2
            x = self.run_harness(driver, n, inp, tmp, lo, mid)
            if x.returncode not in (0, 3):
                hi, sig = mid, x.stderr[-3000:]
                continue
            x = self.run_harness(driver, n, inp, tmp, mid, hi)
            if x.returncode not in (0, 3):
                lo, sig = mid, x.stderr[-3000:]
                continue
            raise Broken("harness process died, not reproducible:\n" + sig)
        if "goroutine" not in sig and "fatal error" not in sig and "signal" not in sig:
            raise Broken("harness process died without a Go failure:\n" + sig)
        c = json.loads(cases[lo])
        self.report(driver, "-", {"cfg": c["cfg"], "ev": c["ops"]},
                    {"ev": len(c["ops"]), "expected": [], "crash": sig})

    def report(self, driver, module, case, rej, before=()):
        i = rej["ev"] - 1
        e = case["ev"][i]
        rec = {"property": self.pid, "driver": driver, "module": module, "cfg": case["cfg"],
               "ops": [{k: v for k, v in x.items() if k != "r"} for x in case["ev"][:i + 1]],
               "observed": e.get("r"), "expected": rej["expected"]}
        if before:  # executed before with the same objects
            rec["before"] = [{"cfg": x["cfg"], "ops": [{k: v for k, v in y.items() if k != "r"} for y in x["ev"]]} for x in before]
        if "crash" in rej:
            rec["crash"] = rej["crash"]
        for f in self.findings:
            if matches(f["match"], rec):
                if f["id"] not in [x["id"] for x in self.known]:
                    self.known.append(f)
                return
        d = os.path.join(HERE, "out", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%d.json" % (self.pid, driver, len(self.violations)))
        if len(self.violations) < 20:
            json.dump(rec, open(p, "w"), indent=1)
        self.violations.append((p, rec))

    # ---- end ---------------------------------------------------------------
    def finish(self):
        for f in self.known:
            log("KNOWN-FINDING: property=%s %s" % (self.pid, f["what"]))
        for p, rec in self.violations[:5]:
            log("VIOLATION property=%s replay=%s" % (self.pid, p))
            log("  last op  :", json.dumps(rec["ops"][-1])[:600])
            log("  observed :", json.dumps(rec["observed"])[:800])
            log("  specified:", json.dumps(rec["expected"])[:800])
        if len(self.violations) > 5:
            log("  ... and %d more" % (len(self.violations) - 5))
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed,
            "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.accepted,
                "samples": self.samples[:6],
                "cases_executed": self.cases, "events_executed": self.events,
                "distinct_nontrivial": len(self.nontrivial),
                "models": self.models, "operations": self.ops, "outcomes": self.results,
            },
            "assumptions": ASSUMPTIONS.get(self.pid, []) + [
                "TLC and the Go toolchain are correct",
                "the driver in /verif/harness records faithfully what the public API returned"],
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        log("property %s, tier %s: %d violations, %d known findings, %.1fs" % (
            self.pid, self.tier, len(self.violations), len(self.known), time.time() - self.t0))
        return 1 if self.violations else 0


def overrides(module):
    """substitutions of the constants of module Syntax, for the modules that use it"""
    todo, seen = [module], set()
    while todo:
        m = todo.pop()
        f = os.path.join(SPEC, m + ".tla")
        if m in seen or not os.path.exists(f):
            continue
        seen.add(m)
        for l in re.findall(r"^EXTENDS (.*)$", open(f).read(), re.M):
            todo += [x.strip() for x in l.split(",")]
    if "Syntax" not in seen:
        return ""
    return "CONSTANTS Cond <- MyCond Count <- MyCount Calc <- MyCalc Ext <- MyExt ExtEnc <- MyExtEnc\n"


def incomparable(txt):
    """(case, event) whose result cannot be compared with the specification, if that is why TLC stopped"""
    if not re.search(r"Attempted to|evaluating the expression|unable to fingerprint|TLC encountered a non-enumerable", txt):
        return None
    if re.search(r"OutOfMemory|StackOverflow|Overflow when computing", txt):
        return None
    m = re.findall(r"/\\ ci = (\d+)\s+/\\ ei = (\d+)", txt[txt.rfind("The behavior up to this point is:"):])
    return (int(m[-1][0]), int(m[-1][1]) + 1) if m else None


def strip(txt):
    return "\n".join(l for l in txt.splitlines() if not l.startswith(
        ('"GEN', '"ACCEPT', '"REJECT', "Parsing file", "Semantic processing", "Linting")))[-4000:]


def load_findings(pid):
    p = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if not l or l.startswith("#") or l.startswith("fixed:"):
                continue
            j = json.loads(l)
            if j["property"] == pid:
                out.append(j)
    return out


def matches(pat, val):
    """structural match: dicts match on the listed keys, everything else exactly"""
    if isinstance(pat, dict):
        return isinstance(val, dict) and all(k in val and matches(v, val[k]) for k, v in pat.items())
    return pat == val


from props import PROPS, ASSUMPTIONS  # noqa: E402


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: check.py PROPERTY [quick|thorough]")
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    work = tempfile.mkdtemp(prefix="vh-%s-" % pid)
    ck = Check(pid, tier, seed, work)
    try:
        ck.vh = ck.build()
        PROPS[pid](ck, tier == "thorough")
        return ck.finish()
    except Broken as e:
        if ck.violations:
            log("NOTE: incomplete run:", e)
            return ck.finish()
        log("ERROR: no verdict:", e)
        return 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
