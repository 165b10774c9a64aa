"""Decides one property by symbolic execution of the real code.

    python3-vt run.py C03 [--tier quick|thorough] [--only SCENARIO] [-v]
    python3-vt run.py --replay FILE

The code under test is parsed (by Jython's own parser) and converted anew on
every run; every feasible path of every scenario is executed with symbolic
inputs, the assertions are put to z3, and counterexamples are replayed against
the real code under Jython before anything is reported."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import zipfile

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "symex"))
sys.setrecursionlimit(6000)
sys.unraisablehook = lambda *a: None

import core
import env as symenv
import loader

REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = "/opt/jy/lib"
JAR = "/usr/share/java/jython-2.7.3.jar"
LIBRARY = {
    "twisted.internet.task": LIB + "/twisted/internet/task.py",
    "twisted.internet.defer": LIB + "/twisted/internet/defer.py",
    "twisted.python.usage": LIB + "/twisted/python/usage.py",
    "twisted.protocols.basic": LIB + "/twisted/protocols/basic.py",
    "twisted.application.service": LIB + "/twisted/application/service.py",
    "twisted.application.internet": LIB + "/twisted/application/internet.py",
    "twisted.internet.protocol": LIB + "/twisted/internet/protocol.py",
}
JARLIB = ["fnmatch", "ConfigParser", "getopt"]
BUDGET = {"quick": 200.0, "thorough": 2400.0}
SLICE = 4.0


def jython_env():
    e = dict(os.environ)
    e["JYTHONPATH"] = "/opt/jy/compat:%s:/opt/jy/lib" % REPO
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["VERIF_REPO"] = REPO
    e["JAVA_TOOL_OPTIONS"] = "-XX:TieredStopAtLevel=1 -XX:+UseSerialGC"
    try:
        out = subprocess.run(
            ["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"],
            capture_output=True, timeout=20).stdout
        for item in out.split(b"\0"):
            if b"=" in item:
                k, v = item.decode("utf-8", "replace").split("=", 1)
                if k not in ("PWD", "SHLVL", "_", "JYTHONPATH",
                             "PYTHONDONTWRITEBYTECODE"):
                    e[k] = v
        jp = dict(i.decode("utf-8", "replace").split("=", 1)
                  for i in out.split(b"\0") if b"=" in i).get("JYTHONPATH")
        if jp:
            e["JYTHONPATH"] = jp.replace("/repo", REPO)
    except Exception:
        pass
    return e


def source_modules():
    out = {}
    for top in ("txstatsd", "twisted"):
        for base, dirs, files in os.walk(os.path.join(REPO, top)):
            if "tests" in dirs:
                dirs.remove("tests")
            for f in files:
                if f.endswith(".py"):
                    path = os.path.join(base, f)
                    name = os.path.relpath(path, REPO)[:-3].replace("/", ".")
                    if name.endswith(".__init__"):
                        name = name[:-9]
                    out[name] = path
    return out


def dump(work, jenv, harness):
    """Fresh syntax trees of the code under test, the harnesses and the
    library modules that are executed symbolically."""
    mods = source_modules()
    mods.update(LIBRARY)
    z = zipfile.ZipFile(JAR)
    for name in JARLIB:
        path = os.path.join(work, name + ".py")
        with open(path, "wb") as f:
            f.write(z.read("Lib/%s.py" % name))
        mods[name] = path
    for f in os.listdir(os.path.join(ROOT, "harness")):
        if f.endswith(".py") and (f[:-3] == harness or f[0] == "h"):
            mods[f[:-3]] = os.path.join(ROOT, "harness", f)
    out = os.path.join(work, "ast.json")
    args = ["%s=%s" % kv for kv in sorted(mods.items())]
    p = subprocess.run(
        ["jython", "-S", os.path.join(ROOT, "jy", "dump_ast.py"), out] + args,
        env=jenv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        timeout=300)
    if p.returncode:
        raise RuntimeError("parsing failed: %s" % p.stdout.decode()[-2000:])
    with open(out) as f:
        return json.load(f)


class Driver(object):
    """The concrete side: a Jython process working through cases."""

    def __init__(self, work, jenv, lanes=2):
        self.work = work
        self.jenv = jenv
        self.cases = {}
        self.results = {}
        self.lock = threading.Lock()
        self.lanes = [Lane(self, k) for k in range(lanes)]
        self.next = 0
        self.closed = False

    def submit(self, case, tag):
        case = dict(case)
        cid = self.next
        self.next += 1
        case["id"] = cid
        self.cases[cid] = (case, tag)
        self.lanes[cid % len(self.lanes)].put(case)
        return cid

    def poll(self):
        for l in self.lanes:
            l.poll()

    def done(self):
        return len(self.results) >= len(self.cases)

    def close(self):
        for l in self.lanes:
            l.close()


class Lane(object):
    def __init__(self, driver, k):
        self.driver = driver
        self.k = k
        self.out = os.path.join(driver.work, "results-%d.jsonl" % k)
        open(self.out, "w").close()
        self.offset = 0
        self.waiting = {}
        self.proc = None
        self.restarts = 0
        self.start()

    def start(self):
        err = open(os.path.join(self.driver.work, "driver-%d.err" % self.k),
                   "ab")
        self.proc = subprocess.Popen(
            ["jython", "-S", os.path.join(ROOT, "jy", "driver.py"), "-",
             self.out],
            env=self.driver.jenv, stdin=subprocess.PIPE,
            stdout=subprocess.DEVNULL, stderr=err,
            cwd=self.driver.work)
        err.close()

    def put(self, case):
        self.waiting[case["id"]] = case
        self.write(case)

    def write(self, case):
        try:
            self.proc.stdin.write((json.dumps(case) + "\n").encode())
            self.proc.stdin.flush()
        except (BrokenPipeError, ValueError, OSError):
            pass

    def read(self):
        with open(self.out, "rb") as f:
            f.seek(self.offset)
            data = f.read()
        end = data.rfind(b"\n") + 1
        self.offset += end
        for line in data[:end].splitlines():
            r = json.loads(line)
            self.driver.results[r["id"]] = r
            self.waiting.pop(r["id"], None)

    def poll(self):
        self.read()
        if self.proc.poll() is not None and self.waiting:
            self.read()
            if not self.waiting:
                return
            self.restarts += 1
            first = min(self.waiting)
            if self.restarts > 3:
                for cid in list(self.waiting):
                    self.driver.results[cid] = {
                        "id": cid, "gap": "replay process ended",
                        "failures": [], "exception": None, "labels": [],
                        "observations": [], "diverged": []}
                    self.waiting.pop(cid)
                return
            self.start()
            for cid in sorted(self.waiting):
                self.write(self.waiting[cid])

    def close(self):
        try:
            self.proc.stdin.close()
        except OSError:
            pass
        try:
            self.proc.wait(5)
        except subprocess.TimeoutExpired:
            self.proc.kill()


PROGRAM = None


def explore_slice(job):
    """Worker: run one scenario from some decision prefixes for a while."""
    harness, func, params, tier, prefixes, slice_s, opts = job
    ex = symenv.ScenarioExplorer(
        PROGRAM, harness, func, params, tier, REPO + "/",
        budget_s=slice_s, **opts)
    start = time.time()
    ex.stack = [(p, None) for p in prefixes]
    ex.run_stack(ex.run_path)
    s = ex.stats
    return {"stats": {"paths": s.paths, "infeasible": s.infeasible,
                      "unsupported": s.unsupported, "decisions": s.decisions,
                      "forks": s.forks, "queries": s.queries,
                      "unknown": s.unknown, "solver_s": s.solver_s,
                      "obligations": s.obligations,
                      "discharged": s.discharged,
                      "concretised": s.concretised,
                      "functions": sorted(s.functions)},
            "abstractions": sorted(ex.abstractions),
            "labels": ex.labels, "undecided": ex.undecided,
            "failures": ex.failures, "failure_counts": ex.failure_counts,
            "witnesses": ex.witnesses, "unsupported": ex.unsupported_cases,
            "rest": [p for p, m in ex.stack], "wall": time.time() - start}


def merge(total, part):
    for k, v in part.items():
        if isinstance(v, dict):
            merge(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            total.setdefault(k, [])
            if k == "functions":
                total[k] = sorted(set(total[k]) | set(v))
            else:
                total[k].extend(v)
        else:
            total[k] = total.get(k, 0) + v


def close_obs(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return a == b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-6 * max(1, abs(a), abs(b))
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(close_obs(x, y)
                                        for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str) and a != b:
        import re
        num = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?")
        if num.sub("#", a) != num.sub("#", b):
            return False
        return all(close_obs(float(x), float(y)) for x, y in
                   zip(num.findall(a), num.findall(b)))
    return a == b


class Run(object):
    def __init__(self, prop, tier, only=None, verbose=False, budget=None):
        self.prop = prop
        self.tier = tier
        self.only = only
        self.verbose = verbose
        self.harness = prop.lower()
        self.budget = budget
        self.started = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.jenv = jython_env()
        self.violations = []
        self.known_hits = set()
        self.inconclusive = []
        self.scen = {}
        self.samples = []
        self.validated = 0
        self.mismatch = 0
        self.replayed = 0
        self.known = load_known(prop)

    def say(self, *a):
        if self.verbose:
            print(*a, file=sys.stderr, flush=True)

    def main(self):
        global PROGRAM
        driver = None
        try:
            PROGRAM = loader.Program(dump(self.work, self.jenv, self.harness))
            driver = Driver(self.work, self.jenv,
                            lanes=2 if self.tier == "quick" else 3)
            self.say("parsed", round(time.time() - self.started, 2))
            self.explore(driver)
            return self.finish(driver)
        finally:
            for l in driver.lanes if driver else ():
                if l.proc.poll() is None:
                    l.proc.kill()
            shutil.rmtree(self.work, True)

    def scenarios(self):
        """The harness's scenario list, evaluated by the converter."""
        class Quiet(core.Explorer):
            pass
        ex = Quiet()
        box = {}

        def run(path):
            w = loader.World(PROGRAM)
            m = w.load(self.harness)
            box["s"] = [(f.__name__ if callable(f) else f,
                         dict(p.items()), t) for f, p, t in m.SCENARIOS]
            box["budget"] = getattr(m, "BUDGET", None)
            box["bounds"] = getattr(m, "BOUNDS", "")
            box["assumes"] = list(getattr(m, "ASSUMES", []))
            box["opts"] = dict(getattr(m, "OPTIONS", {}).items()) \
                if hasattr(m, "OPTIONS") else {}
        ex.explore(run)
        if "s" not in box:
            raise RuntimeError("harness does not load: %r"
                               % (ex.stats.unsupported,))
        self.bounds = box["bounds"]
        self.assumes = box["assumes"]
        self.opts = box["opts"]
        if self.budget is None:
            self.budget = BUDGET[self.tier]
            if box["budget"]:
                self.budget = float(box["budget"].get(self.tier, self.budget))
        out = []
        for k, (f, p, t) in enumerate(box["s"]):
            if self.tier == "quick" and t == "thorough":
                continue
            if self.tier == "thorough" and t == "quick-only":
                continue
            name = f + ("(" + ",".join("%s=%s" % kv for kv in
                                       sorted(p.items())) + ")" if p else "")
            if self.only and self.only not in name:
                continue
            out.append((name, f, p))
        return out

    def explore(self, driver):
        scen = self.scenarios()
        if not scen:
            raise RuntimeError("no scenario")
        ctx = multiprocessing.get_context("fork")
        pool = cf.ProcessPoolExecutor(max_workers=8, mp_context=ctx)
        deadline = self.started + self.budget
        running = {}
        left = {}
        sent_w = {}

        def start(name, prefixes, slice_s):
            f, p = [(f, p) for n, f, p in scen if n == name][0]
            fut = pool.submit(explore_slice, (
                self.harness, f, p, self.tier, prefixes, slice_s, self.opts))
            running[fut] = (name, prefixes)

        for name, f, p in scen:
            self.scen[name] = {}
            start(name, [[]], 1.0 if len(scen) < 8 else SLICE)
        stop = False
        while running and not stop:
            done, _ = cf.wait(list(running), timeout=0.5,
                              return_when=cf.FIRST_COMPLETED)
            for fut in done:
                name, prefixes = running.pop(fut)
                try:
                    part = fut.result()
                except Exception as e:
                    self.inconclusive.append("worker failed on %s: %r"
                                             % (name, e))
                    stop = isinstance(e, cf.process.BrokenProcessPool)
                    continue
                rest = part.pop("rest")
                fails = part.pop("failures")
                wits = part.pop("witnesses")
                uns = part.pop("unsupported")
                merge(self.scen[name], part)
                for x in fails:
                    if x["case"] is not None:
                        driver.submit(x["case"], ("candidate", name, x))
                cap = 24 if self.tier == "quick" else 60
                for x in wits:
                    if sent_w.get(name, 0) < cap:
                        sent_w[name] = sent_w.get(name, 0) + 1
                        driver.submit(x["case"], ("witness", name, x))
                for x in uns:
                    if sent_w.get((name, "u"), 0) < 8:
                        sent_w[name, "u"] = sent_w.get((name, "u"), 0) + 1
                        driver.submit(x["case"], ("unsupported", name, x))
                if rest:
                    left.setdefault(name, []).extend(rest)
            # hand out remaining work
            if time.time() < deadline:
                free = 10 - len(running)
                while free > 0 and left:
                    name = min(left, key=lambda n: self.scen[n].get("wall", 0))
                    todo = left.pop(name)
                    n = max(1, min(free, len(todo)))
                    chunks = [todo[i::n] for i in range(n)]
                    for c in chunks:
                        start(name, c, SLICE)
                        free -= 1
            driver.poll()
            self.judge(driver)
            if self.violations:
                stop = True
            if time.time() > deadline and not running:
                break
            if time.time() > deadline + 60:
                break
        for name, todo in left.items():
            self.inconclusive.append(
                "%s: %d unexplored branches when time ran out"
                % (name, len(todo)))
            self.scen[name]["rest"] = len(todo)
        for fut, (name, prefixes) in running.items():
            self.scen[name]["rest"] = self.scen[name].get("rest", 0) + \
                len(prefixes)
        procs = list((getattr(pool, "_processes", None) or {}).values())
        pool.shutdown(wait=False, cancel_futures=True)
        if running:
            for p in procs:
                p.kill()

    def judge(self, driver):
        for cid in [c for c in driver.results if c in driver.cases]:
            case, (kind, name, item) = driver.cases.pop(cid)
            res = driver.results.pop(cid)
            self.judge_one(case, kind, name, item, res)

    def judge_one(self, case, kind, name, item, res):
        self.replayed += 1
        broken = []
        for label, detail in res["failures"]:
            broken.append((label, detail))
        if res.get("exception"):
            broken.append(("exception:" + res["exception"][0],
                           "%s at %s" % (res["exception"][1],
                                         " > ".join(res["exception"][2]))))
        if res.get("hang"):
            broken.append(("does not terminate", None))
        if broken:
            for label, detail in broken:
                k = match_known(self.known, case["func"], label, case)
                if k is not None:
                    self.known_hits.add(k)
                    continue
                self.violations.append({
                    "scenario": name, "label": label, "detail": detail,
                    "found_by": kind, "case": case,
                    "solver_said": item.get("detail"), "real_run": res})
                break
            return
        if kind == "candidate":
            self.inconclusive.append(
                "%s: counterexample to '%s' does not reproduce (%s%s)"
                % (name, item["label"], item.get("detail"),
                   "; " + res["gap"] if res.get("gap") else ""))
            self.mismatch += 1
            self.say("NOT REPRODUCED", json.dumps(item)[:1500],
                     json.dumps(res)[:1500])
            return
        if res.get("gap"):
            self.inconclusive.append("%s: %s" % (name, res["gap"]))
            self.say("GAP", res["gap"])
            return
        if kind == "unsupported":
            return
        bad = []
        if res["diverged"]:
            bad.append("inputs diverge: %s" % (res["diverged"][:3],))
        want = item["observations"]
        if len(want) != len(res["observations"]):
            bad.append("number of observations")
        for (n1, v1), (n2, v2) in zip(want, res["observations"]):
            if n1 != n2 or not close_obs(v1, v2):
                bad.append("%s: predicted %r, real code gave %r"
                           % (n1, v1, v2))
                break
        if set(item["labels"]) != set(res["labels"]):
            bad.append("checks reached differ: %s" % sorted(
                set(item["labels"]) ^ set(res["labels"]))[:4])
        if bad:
            self.mismatch += 1
            self.inconclusive.append("%s: encoding and real code disagree: %s"
                                     % (name, "; ".join(bad)))
            self.say("MISMATCH", bad, json.dumps(case)[:1200],
                     json.dumps(res)[:1500])
        else:
            self.validated += 1
            if len(self.samples) < 3:
                self.samples.append({"scenario": name,
                                     "inputs": case["inputs"],
                                     "observed": res["observations"][:6]})

    def finish(self, driver):
        limit = time.time() + (120 if self.tier == "quick" else 300)
        while driver.cases and not self.violations and time.time() < limit:
            driver.poll()
            self.judge(driver)
            time.sleep(0.05)
        if driver.cases and not self.violations:
            self.inconclusive.append("%d cases were not replayed in time"
                                     % len(driver.cases))
        for name, s in self.scen.items():
            st = s.get("stats", {})
            for why, n in sorted(st.get("unsupported", {}).items()):
                self.inconclusive.append("%s: %d paths given up: %s"
                                         % (name, n, why))
            for label in sorted(set(s.get("undecided", []))):
                self.inconclusive.append("%s: solver gave no answer for '%s'"
                                         % (name, label))
            if not st.get("paths") and not self.violations:
                self.inconclusive.append("%s: no path completed" % name)
            elif not st.get("obligations") and not self.violations:
                self.inconclusive.append("%s: no assertion reached" % name)
        self.evidence()
        for k in sorted(self.known_hits):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for line in sorted(set(self.inconclusive))[:40]:
            print("INCONCLUSIVE: %s" % line[:600])
        code = 0
        if self.violations:
            code = 1
            os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
            for i, v in enumerate(self.violations[:3]):
                path = os.path.join(ROOT, "evidence",
                                    "replay-%s-%d.json" % (self.prop, i))
                with open(path, "w") as f:
                    json.dump(v, f, indent=1)
                print("%s: %s [%s] %s" % (v["scenario"], v["label"],
                                          v["found_by"],
                                          str(v["detail"])[:500]))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
        tot = self.totals()
        print("%s %s: %d scenarios, %d paths, %d obligations (%d discharged), "
              "%d queries, %.1f s solver, %d runs of the real code, %.1f s"
              % (self.prop, "VIOLATED" if code else "holds within bounds"
                 if not self.inconclusive else
                 "holds on what was decided (%d inconclusive)"
                 % len(set(self.inconclusive)), len(self.scen),
                 tot.get("paths", 0), tot.get("obligations", 0),
                 tot.get("discharged", 0), tot.get("queries", 0),
                 tot.get("solver_s", 0), self.replayed,
                 time.time() - self.started))
        sys.stdout.flush()
        if not code and self.inconclusive and os.environ.get("VERIF_STRICT"):
            return 2
        return code

    def totals(self):
        t = {}
        for s in self.scen.values():
            merge(t, s.get("stats", {}))
        return t

    def evidence(self):
        t = self.totals()
        abstr = sorted(set(a for s in self.scen.values()
                           for a in s.get("abstractions", [])))
        rest = sum(s.get("rest", 0) for s in self.scen.values())
        ev = {
            "property": self.prop, "tier": self.tier,
            "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
            "level": "model_checking",
            "coverage": {
                "states": t.get("paths", 0),
                "transitions": t.get("decisions", 0),
                "traces_validated_against_impl": self.validated,
                "samples": self.samples or
                [v["case"] for v in self.violations[:2]] or ["none"],
                "obligations": t.get("obligations", 0),
                "discharged": t.get("discharged", 0),
                "exhaustive": not rest and not self.inconclusive and
                not self.violations,
                "explanation":
                    "states: feasible paths of the scenarios executed to the "
                    "end; transitions: branch decisions put to the solver or "
                    "to a character domain; obligations: assertions met on "
                    "those paths, each decided for every value satisfying "
                    "the path condition; traces validated: solver models of "
                    "completed paths run on the real code under Jython with "
                    "equal observations",
                "bounds": self.bounds,
                "scenarios": dict(
                    (n, {"paths": s.get("stats", {}).get("paths", 0),
                         "assertions": s.get("labels", {}),
                         "unexplored": s.get("rest", 0)})
                    for n, s in self.scen.items()),
                "functions_encoded": t.get("functions", []),
                "queries": t.get("queries", 0),
                "solver_unknown": t.get("unknown", 0),
                "solver_s": round(t.get("solver_s", 0), 3),
                "infeasible_paths": t.get("infeasible", 0),
                "real_code_runs": self.replayed,
                "encoding_disagreements": self.mismatch,
                "concretised": t.get("concretised", {}),
                "abstractions": abstr,
                "inconclusive": sorted(set(self.inconclusive))[:60],
                "known_findings_seen": sorted(self.known_hits),
            },
            "assumptions": self.assumes + [
                "floats are idealised as reals (replays use real doubles "
                "with a relative tolerance of 1e-9)",
                "Jython 2.7 semantics of builtins as implemented in "
                "symex/runtime.py, symex/rope.py and symex/stubs.py"],
            "wall_s": round(time.time() - self.started, 2),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"),
                  "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)


def load_known(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def match_known(known, func, label, case):
    for k in known:
        if k["scenario"] == func and k["label"] == label and all(
                case["params"].get(a) == b
                for a, b in k.get("params", {}).items()):
            return k["what"]
    return None


def replay(path):
    with open(path) as f:
        v = json.load(f)
    work = tempfile.mkdtemp(prefix="verif-replay-")
    d = Driver(work, jython_env(), lanes=1)
    d.submit(v["case"], ("replay", "", {}))
    end = time.time() + 60
    while not d.done() and time.time() < end:
        d.poll()
        time.sleep(0.05)
    print(json.dumps(d.results, indent=1))
    d.close()
    shutil.rmtree(work, True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--budget", type=float)
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        replay(a.replay)
        sys.exit(0)
    code = Run(a.prop, a.tier, a.only, a.v, a.budget).main()
    sys.stdout.flush()
    os._exit(code)
