#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property of /repo by symbolic execution of its current source:
builds the engine (engine/), lays the harnesses (harness/) over the repository
in a temporary module, runs the property's harnesses symbolically (z3 decides
every branch and assertion), replays every counterexample natively against the
real code, and writes evidence/<id>.json.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.
"""
import concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tool"))
import props  # noqa: E402

REPOMOD = "github.com/continusec/verifiabledatastructures"
OBJHASH = "github.com/continusec/objecthash"

ENGINE_ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOTOOLCHAIN="local")
GO124 = "/opt/veriftools/go1.24.13/bin"
REPO_ENV = dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOWORK="off", GOTOOLCHAIN="local",
                PATH=GO124 + ":" + os.environ.get("PATH", ""))
for _e in (ENGINE_ENV, REPO_ENV):
    _e.setdefault("HOME", "/root")


def log(*a):
    print(*a, flush=True)


def build_engine(work):
    out = os.path.join(work, "gosym")
    cached = os.environ.get("GOSYM_BIN")
    if cached and os.path.exists(cached):
        return cached
    src = os.path.join(work, "engine")
    shutil.copytree(os.path.join(VERIF, "engine"), src)
    subprocess.run(["go", "build", "-o", out, "."], cwd=src, env=ENGINE_ENV, check=True)
    return out


def make_module(work, names):
    mod = os.path.join(work, "mod")
    shutil.copytree(os.path.join(VERIF, "harness"), mod)
    gm = open(os.path.join(REPO, "go.mod")).read()
    gm = re.sub(r"(?m)^module .*$", "module gosymharness", gm)
    gm += "\nrequire %s v0.0.0\nreplace %s => %s\nreplace %s => %s\n" % (
        REPOMOD, REPOMOD, REPO, OBJHASH, os.path.join(VERIF, "stubs", "objecthash"))
    open(os.path.join(mod, "go.mod"), "w").write(gm)
    shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(mod, "go.sum"))
    # the server command, as a package that can be imported
    gen = os.path.join(mod, "gen", "vdbserver")
    os.makedirs(gen)
    src = os.path.join(REPO, "cmd", "vdbserver")
    for f in sorted(os.listdir(src)) if os.path.isdir(src) else []:
        if f.endswith(".go") and not f.endswith("_test.go"):
            t = open(os.path.join(src, f)).read()
            t = re.sub(r"(?m)^package main\b", "package vdbserver", t, count=1)
            t = re.sub(r"(?m)^func main\(\)", "// Main is the main function of the command.\nfunc Main()", t, count=1)
            open(os.path.join(gen, f), "w").write(t)
    # the native replay program knows the harnesses of this property
    pk = sorted({n.rsplit(".", 1)[0] for n in names})
    d = os.path.join(mod, "cmd", "replay")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "table.go"), "w") as f:
        f.write("package main\n\nimport (\n")
        for i, p in enumerate(pk):
            f.write('\tp%d "gosymharness/%s"\n' % (i, p))
        f.write(")\n\nfunc init() {\n")
        for n in sorted(set(names)):
            p, fn = n.rsplit(".", 1)
            f.write('\ttable["%s"] = p%d.%s\n' % (n, pk.index(p), fn))
        f.write("}\n")
    return mod


class Native:
    """Builds and runs the native replay program."""

    def __init__(self, mod, work, race=False):
        self.mod, self.work = mod, work
        self.bin = os.path.join(work, "replay-race" if race else "replay")
        self.tries = 8 if race else 1
        self.proc = subprocess.Popen(["go", "build"] + ["-race"] * race + ["-o", self.bin, "./cmd/replay"], cwd=mod,
                                     env=dict(REPO_ENV, CGO_ENABLED="1") if race else REPO_ENV,
                                     stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        self.err = None

    def ready(self):
        if self.proc is not None:
            o, _ = self.proc.communicate()
            if self.proc.returncode != 0:
                self.err = o
            self.proc = None
        return self.err is None

    def run(self, path, timeout):
        """-> (outcome, text): ok | skip | assert | panic | hang | fatal | race"""
        for _ in range(self.tries):  # which schedule it is cannot be chosen natively
            got, text = self.once(path, timeout)
            if got != "ok":
                break
        return got, text

    def once(self, path, timeout):
        d = tempfile.mkdtemp(dir=self.work)
        try:
            p = subprocess.run([self.bin, path], cwd=d, env=dict(REPO_ENV, TMPDIR=d, GOTRACEBACK="single", GORACE="halt_on_error=1 exitcode=66"),
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", "no end after %ds" % timeout
        return outcome(p)


def outcome(p):
    t = p.stdout[-4000:]
    if p.returncode == 0:
        return "ok", t
    if p.returncode == 10:
        return "assert", t
    if p.returncode in (3, 11) or p.returncode == 1 and "may exit\n" in p.stdout:
        return "skip", t
    if p.returncode == 12:
        return "panic", t
    if p.returncode == 66 and "DATA RACE" in p.stdout:
        return "race", t
    if "all goroutines are asleep" in t:
        return "hang", t
    if p.returncode == 2 and ("panic:" in t or "fatal error" in t):
        return "panic", t
    return "fatal", t


BAD = ("assert", "panic", "hang", "fatal")


class Delayed(Native):
    """The replay program with a call before and after every statement that can hold up who
    comes by, to follow schedules that the go run time does not choose by itself."""

    def __init__(self, mod, work, gosym, seed):
        self.mod, self.work = mod, work
        self.bin = os.path.join(work, "replay-delayed")
        self.err, self.proc = None, None
        self.rnd = random.Random(seed)
        self.left = 150.0
        d = os.path.join(work, "instrumented")
        p = subprocess.run([gosym, "-instrument", d, REPO, mod], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            p = subprocess.run(["go", "build", "-overlay", os.path.join(d, "overlay.json"), "-o", self.bin, "./cmd/replay"], cwd=mod,
                               env=REPO_ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            self.err = p.stdout
            return
        self.points = json.load(open(os.path.join(d, "points.json")))

    def run_with(self, path, timeout, procs, sched):
        d = tempfile.mkdtemp(dir=self.work)
        env = dict(REPO_ENV, TMPDIR=d, GOTRACEBACK="single", GOMAXPROCS=str(procs), VERIF_SCHED=json.dumps(sched))
        if procs == 1:
            env["GODEBUG"] = "asyncpreemptoff=1"
        try:
            p = subprocess.run([self.bin, path], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
        except subprocess.TimeoutExpired:
            return "hang", "no end after %ds" % timeout
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return outcome(p)

    def point(self, s):
        best = None
        at = [s["line"], s["col"]]
        for i, q in enumerate(self.points):
            if q["file"] == s["file"] and bool(q["exit"]) == bool(s["exit"]) and q["from"] <= at <= q["to"]:
                size = (q["to"][0] - q["from"][0], q["to"][1] - q["from"][1] if q["to"][0] == q["from"][0] else 0)
                if best is None or size <= best[0]:
                    best = (size, i)
        return None if best is None else best[1]

    def search(self, path, switches, timeout):
        """Runs the counterexample with delays where it switches, and then near there -> (outcome, text, how)"""
        t0 = time.time()
        end = t0 + min(self.left, 60)
        out = os.path.join(self.work, "hits.json")
        if os.path.exists(out):
            os.unlink(out)
        got, text = self.run_with(path, timeout, 1, {"out": out})
        if got in BAD:
            return got, text, {"procs": 1, "sched": {}}
        if not os.path.exists(out):
            return got, text, None
        hits = json.load(open(out))
        count = {(i, a): n for i, a, n in hits["hits"] or []}
        if not count:
            return got, text, None
        start = not hits["explored"]
        anchors = []
        for s in switches:
            i = self.point(s) if s["file"] else None
            if i is not None:
                anchors.append((i, int(bool(s["after"] or s["exit"])), s["hit"]))
        tries = []

        def plan(procs, ds):
            tries.append((procs, {"from_start": start, "delays": [{"id": i, "after": bool(a), "hit": h, "us": us} for i, a, h, us in ds]}))
        if anchors:
            for procs in (1, 8):
                for off in (0, 1, -1, 2):
                    for us in (20000, 3000):
                        plan(procs, [(i, a, max(1, h + off), us) for i, a, h in anchors])
        keys = sorted(count)
        near = sorted({k for k in keys for i, _, _ in anchors if self.points[k[0]]["file"] == self.points[i]["file"]}) or keys
        own = [k for k in keys if any(k[0] == i for i, _, _ in anchors)] or near
        for _ in range(400):
            ds = []
            for _ in range(self.rnd.choice((1, 1, 2, 2, 3))):
                k = self.rnd.choice(self.rnd.choice((own, near, keys)))
                ds.append((k[0], k[1], self.rnd.randint(1, count[k]), self.rnd.choice((500, 3000, 20000))))
            plan(self.rnd.choice((1, 1, 8)), ds)
        found = None
        with concurrent.futures.ThreadPoolExecutor(5) as ex:
            def one(x):
                if found is not None or time.time() > end:
                    return None
                return self.run_with(path, timeout, x[0], x[1]) + ({"procs": x[0], "sched": x[1]},)
            for r in ex.map(one, tries):
                if r is not None and r[0] in BAD and found is None:
                    found = r
        self.left -= time.time() - t0
        return found or (got, text, None)


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == pid and k.get("status") == "known"]


def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = props.PROPS[pid]
    runs = [dict(r) for r in prop["runs"] if tier in r.get("tiers", ("quick", "thorough"))]
    for r in runs:
        r.update(r.pop(tier, {}))
        r.pop("quick", None)
        r.pop("thorough", None)
    kf = known_findings(pid)
    for k in kf:
        runs.append(dict(name=k["harness"], params=k.get("params", {}), finding=k["id"], what=k["what"], no_samples=True))
    budget = prop.get("budget", {}).get(tier, 240 if tier == "quick" else 780)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 1
    try:
        rc = run(pid, tier, seed, prop, runs, budget, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, tier, seed, prop, runs, budget, work, t0):
    names = [r["name"] for r in runs]
    mod = make_module(work, names)
    native = Native(mod, work)
    gosym = build_engine(work)
    specs = []
    for r in runs:
        specs.append({k: r[k] for k in ("name", "params", "max_paths", "max_steps", "seconds", "timeout_ms", "workers", "no_samples", "stop_after") if k in r})
    sp, out = os.path.join(work, "spec.json"), os.path.join(work, "out.json")
    json.dump(specs, open(sp, "w"))
    p = subprocess.run([gosym, "-dir", mod, "-spec", sp, "-out", out, "-seconds", str(budget)], cwd=mod, env=REPO_ENV,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    log(p.stdout.rstrip())
    violations, notes, known = [], [], []
    results = []
    if p.returncode != 0 or not os.path.exists(out):
        # the encoding could not be made from this tree: no verdict
        notes.append("engine: no verdict: " + p.stdout[-1500:])
    else:
        doc = json.load(open(out))
        results = doc["results"]
    rep_dir = os.path.join(VERIF, "evidence", "replays")
    validated = 0
    delayed = None
    racy = None  # the replay program built to detect data races
    samples_out = []
    incon = {}
    for r, res in zip(runs, results):
        tag = res["harness"] + "(" + ",".join("%s=%d" % kv for kv in sorted((res["params"] or {}).items())) + ")"
        for k, v in (res.get("inconclusive") or {}).items():
            incon[tag + ": " + k] = v
        for lab in r.get("reach", ["checked"]):
            if not res["violations"] and not (res.get("reached") or {}).get(lab):
                notes.append("vacuous: %s never reached '%s'" % (tag, lab))
        for v in res["violations"] or []:
            os.makedirs(rep_dir, exist_ok=True)
            doc = {"property": pid, "harness": res["harness"], "params": res["params"] or {}, "kind": v["Kind"], "msg": v["Msg"],
                   "inputs": [{"name": i["name"], "kind": i["kind"], "val": i["val"]} for i in v["Inputs"] or []], "stack": v["Stack"],
                   "switches": v.get("Sched") or []}
            h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10]
            path = os.path.join(rep_dir, "%s-%s.json" % (pid, h))
            json.dump(doc, open(path, "w"), indent=1)
            nat = native
            if v["Kind"] == "race":
                if racy is None:
                    racy = Native(mod, work, race=True)
                nat = racy
            if not nat.ready():
                notes.append("native replay does not build: " + (nat.err or "")[-500:])
                log("NOTE replay build failed:\n" + (nat.err or "")[-2000:])
                continue
            got, text = nat.run(path, r.get("replay_timeout", 60 if v["Kind"] not in ("hang", "deadlock") else 10))
            log("  counterexample [%s] %s: %s -> native replay: %s %s" % (tag, v["Kind"], v["Msg"], got, text.strip().splitlines()[-1] if text.strip() else ""))
            ok = got in BAD + ("race",)
            if got == "ok" and v["Kind"] != "race" and r.get("schedules", 1):
                # which schedule it is cannot be chosen, but who is held up can
                if delayed is None:
                    delayed = Delayed(mod, work, gosym, seed)
                    if delayed.err:
                        log("NOTE replay with delays does not build:\n" + delayed.err[-2000:])
                if not delayed.err and delayed.left > 0:
                    got, text, how = delayed.search(path, v.get("Sched") or [], r.get("replay_timeout", 30 if v["Kind"] not in ("hang", "deadlock") else 10))
                    ok = got in BAD
                    log("    with delays: %s %s" % (got, text.strip().splitlines()[-1] if text.strip() else ""))
                    if ok:
                        doc["native"] = how
                        json.dump(doc, open(path, "w"), indent=1)
            if not ok:
                notes.append("counterexample of %s not reproduced natively (%s: %s); not reported: %s" % (tag, v["Kind"], v["Msg"], path))
                continue
            if r.get("finding"):
                known.append((r["finding"], r["what"]))
            else:
                violations.append((tag, v["Kind"], v["Msg"], path))
        # agreement of engine and compiled code on sampled paths
        if not r.get("no_samples") and not res["violations"]:
            for s in (res.get("samples") or [])[: r.get("validate", 6)]:
                if not native.ready():
                    notes.append("native replay does not build: " + (native.err or "")[-500:])
                    break
                doc = {"property": pid, "harness": res["harness"], "params": res["params"] or {}, "kind": "sample", "msg": "",
                       "inputs": [{"name": i["name"], "kind": i["kind"], "val": i["val"]} for i in s]}
                os.makedirs(rep_dir, exist_ok=True)
                h = hashlib.sha256(json.dumps(doc, sort_keys=True).encode()).hexdigest()[:10]
                path = os.path.join(rep_dir, "%s-s%s.json" % (pid, h))
                json.dump(doc, open(path, "w"), indent=1)
                got, text = native.run(path, r.get("replay_timeout", 60))
                if got in ("ok", "skip"):
                    validated += got == "ok"
                    os.unlink(path)
                    if len(samples_out) < 3 and got == "ok":
                        samples_out.append({"harness": tag, "inputs": {i["name"]: i["val"][:80] for i in s}})
                else:
                    log("  model of a completed path of %s fails natively: %s %s" % (tag, got, text[-500:]))
                    violations.append((tag, got, "compiled code fails on the model of a symbolic path: " + (text.strip().splitlines()[-1] if text.strip() else ""), path))
                    break
    native.ready()
    seen = set()
    for fid, what in known:
        if fid not in seen:
            seen.add(fid)
            log("KNOWN-FINDING: property=%s %s" % (pid, what))
    for n in notes:
        log("NOTE " + n)
    for k, v in incon.items():
        log("NOTE inconclusive: %s (%d)" % (k, v))
    for tag, kind, msg, path in violations:
        log("  violated in %s: %s: %s" % (tag, kind, msg))
    if violations:
        log("VIOLATION property=%s replay=%s" % (pid, violations[0][3]))
    main_res = [x for r, x in zip(runs, results) if not r.get("finding")]
    tot = lambda k: sum(x[k] for x in main_res)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": prop.get("level", "model_checking"),
        "coverage": {
            "states": tot("paths") + tot("pruned"),
            "transitions": tot("steps"),
            "traces_validated_against_impl": validated,
            "samples": samples_out or [{"harness": x["harness"], "params": x["params"], "reached": x["reached"]} for x in main_res[:3]],
            "symbolic_paths_completed": tot("paths"),
            "assertions_decided": tot("asserts"),
            "assertions_needing_solver": tot("assert_queries"),
            "solver_queries": tot("queries"), "solver_unsat": tot("unsat"), "solver_sat": tot("sat"), "solver_unknown": tot("unknown"),
            "solver_seconds": round(tot("solver_s"), 2),
            "functions_encoded": sorted({f for x in main_res for f in x.get("functions") or []}),
            "runs": [{"harness": x["harness"], "bounds": x["params"], "paths": x["paths"], "queries": x["queries"], "solver_s": round(x["solver_s"], 2),
                      "wall_s": round(x["wall_s"], 2), "reached": x["reached"], "inconclusive": x["inconclusive"], "violations": len(x["violations"] or [])} for x in main_res],
            "bounds": prop["bounds"][tier] if isinstance(prop["bounds"], dict) else prop["bounds"],
            "outside": prop.get("outside", ""),
            "exhaustive": not incon and not notes and bool(results),
            "notes": notes, "known_findings": sorted(seen),
            "explanation": "states = symbolic paths (completed + pruned as infeasible), each standing for all inputs satisfying its path condition; transitions = SSA instructions executed symbolically; every path condition and assertion is decided by z3.",
        },
        "assumptions": props.ASSUMPTIONS + prop.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    log("%s %s: %d paths, %d queries, %.1fs solver, %d traces validated natively, %d violations, %.1fs" % (
        pid, tier, tot("paths"), tot("queries"), tot("solver_s"), validated, len(violations), time.time() - t0))
    return 1 if violations else 0


if __name__ == "__main__":
    main()
