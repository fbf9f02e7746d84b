#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property.

TLC explores the property's slices of the specification, the harness (built from
/repo's working tree) executes every explored behaviour on the real application and
compares every state. Exit 0: no violation; 1: VIOLATION; anything else: the check
itself failed."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")   # /repo; another copy only while developing the checks
sys.path.insert(0, HERE)
import gen
from configs import CONFIGS
from props import P

TLC = ["java", "-XX:+UseSerialGC", "-Xmx1500m", "-cp", "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar", "tlc2.TLC", "-workers", "1"]
CORES = os.cpu_count() or 8

class Failed(Exception): pass

def goenv(work):
    """the environment in which /repo builds"""
    out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; env -0"], capture_output=True).stdout
    env = dict(x.split("=", 1) for x in out.decode(errors="replace").split("\0") if "=" in x)
    env["TMPDIR"] = work
    return env

def build(work):
    overlay = {"Replace": {}}
    h = os.path.join(VERIF, "harness")
    for f in sorted(os.listdir(h)):
        if f.endswith(".go"): overlay["Replace"]["%s/cmd/verifconf/%s" % (REPO, f)] = os.path.join(h, f)
    json.dump(overlay, open(work + "/overlay.json", "w"))
    t = time.time()
    r = subprocess.run(["go", "build", "-overlay", work + "/overlay.json", "-tags", "norace", "-o", work + "/verifconf", "./cmd/verifconf"],
                       cwd=REPO, env=goenv(work), capture_output=True, text=True)
    if r.returncode: raise Failed("building the harness failed:\n" + r.stdout + r.stderr)
    return time.time() - t

def tlc(d, args, env, limit):
    with open(d + "/tlc.out", "w") as o:
        r = subprocess.run(TLC + ["-metadir", d + "/meta"] + args + ["-config", "MC.cfg", "MC.tla"], cwd=d, stdout=o, stderr=subprocess.STDOUT, env=env, timeout=limit)
    txt = open(d + "/tlc.out").read()
    shutil.rmtree(d + "/meta", ignore_errors=True)
    if r.returncode != 0 or ("No error has been found" not in txt and "-simulate" not in args):
        raise Failed("TLC failed in %s:\n%s" % (d, txt[-3000:]))
    if not os.path.exists(d + "/log.json"): raise Failed("TLC wrote no behaviours: " + txt[-2000:])
    st = gn = 0
    for l in txt.splitlines():
        if "distinct states found" in l and "states generated," in l and "Progress" not in l:
            gn = int(l.split()[0].replace(",", "")); st = int(l.split(",")[-2].split()[0].replace(",", "")) if False else int(l.split("generated, ")[1].split()[0].replace(",", ""))
        if l.startswith("The number of states generated:"): gn = int(l.split(":")[1].strip().replace(",", ""))
    return st, gn

def specs(d):
    os.makedirs(d)
    for f in os.listdir(VERIF + "/spec"):
        if f.endswith(".tla"): shutil.copy(os.path.join(VERIF, "spec", f), d)

class Check:
    def __init__(self, prop, tier, seed):
        self.p, self.tier, self.seed = P[prop], tier, seed
        self.prop = prop
        self.start = time.time()
        self.work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.env = dict(os.environ, TMPDIR=self.work)
        self.env["JAVA_TOOL_OPTIONS"] = "-Djava.io.tmpdir=" + self.work
        self.tot = dict(states=0, generated=0, transitions=0, compared=0, traces=0, accepted={}, rejected={}, checks={}, notes={}, skipped=0, out=0)
        self.slices = []
        self.samples = []
        self.found = None
        self.n = 0

    def run(self):
        try:
            return self.main()
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def main(self):
        quick = self.tier == "quick"
        self.bt = None
        with cf.ThreadPoolExecutor(CORES + 1) as ex:
            b = ex.submit(build, self.work)
            pool = cf.ThreadPoolExecutor(CORES - 1 if quick else CORES)
            # the exhaustive slices, and the first round of random behaviours
            jobs = []
            sims = [s for s in self.p["slices"] if s["mode"] in ("sim", "govsim")]
            for s in self.p["slices"]:
                if s["mode"] in ("mc", "govmc"):
                    depth = s["depth"] or CONFIGS[s["cfg"]]["depth"]
                    if not quick: depth += CONFIGS[s["cfg"]].get("deeper", 0)
                    jobs.append((s, [pool.submit(self.explore, s, depth)]))
            jobs += self.round(pool, sims, 0, quick)
            self.bt = b.result()
            for s, fs in jobs:
                self.replay(s, [f.result() for f in fs])
                if self.found: pool.shutdown(cancel_futures=True); break
            # further rounds until the time is used up
            limit = float(os.environ.get("VERIF_BUDGET", "0" if quick else "600"))
            r = 1
            while sims and not self.found and time.time() - self.start < limit:
                for s, fs in self.round(pool, sims, r, quick):
                    res = [f.result() for f in fs]
                    if not self.found: self.replay(s, res)
                r += 1
        return self.finish()

    def round(self, pool, sims, r, quick):
        """random behaviours of the sim slices: several TLC processes with different seeds for each"""
        if not sims: return []
        procs = max(1, round((8 if quick else 16) / len(sims)))
        num = (self.p.get("num") or (60 if quick else 150))
        jobs = []
        for s in sims:
            fs = []
            for i in range(s.get("procs", procs)):
                self.n += 1
                fs.append(pool.submit(self.simulate, s, num, self.seed * 100003 + r * 1009 + self.n * 17))
            jobs.append((s, fs))
        return jobs

    def explore(self, s, depth):
        d = "%s/mc-%s" % (self.work, s["cfg"]); specs(d)
        gen.write(s["cfg"], s["mode"], d, depth)
        st, gn = tlc(d, [], self.env, 3000)
        return dict(dir=d, states=st, generated=gn)

    def simulate(self, s, num, seed):
        d = "%s/sim-%s-%d" % (self.work, s["cfg"], seed); specs(d)
        gen.write(s["cfg"], s["mode"], d)
        st, gn = tlc(d, ["-simulate", "num=%d" % num, "-depth", str(100 if s["mode"] == "govsim" else CONFIGS[s["cfg"]]["depth"]), "-seed", str(seed)], self.env, 3000)
        return dict(dir=d, states=0, generated=gn)

    def replay(self, s, runs):
        t = time.time()
        d = runs[0]["dir"]
        json.dump(self.p["rules"], open(d + "/rules.json", "w"))
        logs = [r["dir"] + "/log.json" for r in runs]
        lines = sum(1 for f in logs for _ in open(f))
        args = [self.work + "/verifconf", {"mc": "graph", "sim": "linear"}.get(s["mode"], "gov"), "-cfg", d + "/cfg.json", "-rules", d + "/rules.json", "-log", ",".join(logs),
                "-out", d + "/res.json", "-prop", self.prop, "-budget", "120" if self.tier == "quick" else "900", "-workers", str(CORES), "-replay", d + "/replay.json"]
        if self.p["checks"]:
            # a sample of the states, as the additional checks are expensive
            per = self.p.get("persample", 700 if self.tier == "quick" else 6000)
            args += ["-checks", ",".join(self.p["checks"]), "-every", str(max(1, lines // per))]
        r = subprocess.run(args, capture_output=True, text=True, env=self.env)
        if r.returncode or not os.path.exists(d + "/res.json"):
            raise Failed("the harness failed (%s):\n%s" % (s["cfg"], (r.stdout + r.stderr)[-4000:]))
        x = json.load(open(d + "/res.json"))
        T = self.tot
        T["states"] += sum(q["states"] for q in runs) if s["mode"] in ("mc", "govmc") else x["spec_states"]
        T["generated"] += sum(q["generated"] for q in runs)
        T["transitions"] += x["edges"]; T["compared"] += x["states_compared"]; T["traces"] += x["traces"]; T["skipped"] += x["skipped"]; T["out"] += x["diverged"]
        for k in ("accepted", "rejected", "checks", "notes"):
            for n, v in (x.get(k) or {}).items(): T[k][n] = T[k].get(n, 0) + v
        self.slices.append(dict(config=s["cfg"], mode=s["mode"], states=x["spec_states"], edges=x["edges"], traces=x["traces"], wall_s=round(time.time() - t, 1)))
        if s["mode"] in ("govmc", "govsim"): self.samples.append(dict(config=s["cfg"], transactions=[json.loads(json.loads(l)) for l in open(logs[0]).read().splitlines()[7::400][:4]]))
        elif s["mode"] == "sim" and len(self.samples) < 3: self.samples.append(dict(config=s["cfg"], behaviour=sample(logs[0])))
        elif s["mode"] == "mc" and len(self.samples) < 3: self.samples.append(dict(config=s["cfg"], after=[a for a in CONFIGS[s["cfg"]]["prefix"]][-2:], action=edge(logs[0])))
        if x.get("found"):
            self.found = VERIF + "/evidence/%s.replay.json" % self.prop
            os.makedirs(VERIF + "/evidence", exist_ok=True)
            shutil.copy(d + "/replay.json", self.found)
            print(json.dumps({k: v for k, v in x["found"][0].items() if k != "want"}, indent=1)[:6000])
        elif x["diverged"]:
            o = x["out_of_scope"][0] if x.get("out_of_scope") else {}
            print("note: %d divergences in %s that do not concern %s, the first: %s %s %s %s" % (x["diverged"], s["cfg"], self.prop, o.get("type"), o.get("kind"), o.get("dir"), o.get("err")))
        for q in runs: shutil.rmtree(q["dir"], ignore_errors=True)

    def finish(self):
        T = self.tot
        quick = self.tier == "quick"
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(states=T["states"], transitions=T["transitions"], traces_validated_against_impl=T["traces"], samples=gen.plain(self.samples),
                                explanation="states: states of the specification explored by TLC (distinct states of the exhaustive slices, states of the random behaviours); "
                                            "transitions: steps executed on the real application and compared with the specification (rejected requests included); "
                                            "traces: maximal explored behaviours executed on the real application",
                                states_compared_with_impl=T["compared"], spec_states_generated=T["generated"], accepted=T["accepted"], rejected=T["rejected"],
                                additional_checks=T["checks"], exercised=T["notes"], steps_skipped=T["skipped"], slices=self.slices,
                                divergences_outside_this_property=T["out"] if not self.found else 0, build_s=round(self.bt or 0, 1)),
                  assumptions=["bounds and abstractions of the configurations named in slices (tools/configs.py, DESIGN.md)", "TLC, and the projection of the real state in harness/proj.go"],
                  wall_s=round(time.time() - self.start, 1), violations=1 if self.found else 0)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        json.dump(ev, open(VERIF + "/evidence/%s.json" % self.prop, "w"), indent=1)
        known(self.prop, T["notes"])
        print("%s %s: %d spec states, %d steps on the real code, %d behaviours, %.0f s" % (self.prop, self.tier, T["states"], T["transitions"], T["traces"], time.time() - self.start))
        if self.found:
            print("VIOLATION property=%s replay=%s" % (self.prop, self.found))
            return 1
        if not T["transitions"]: raise Failed("nothing was executed")
        return 0

def known(prop, notes):
    """prints the known findings that this run met; the list itself is KNOWN_FINDINGS.md"""
    for l in open(VERIF + "/KNOWN_FINDINGS.md"):
        if l.startswith("known: property=%s " % prop):
            ident, text = l.split(" ", 2)[2].split(" ", 1)
            if notes.get("known:" + ident): print("KNOWN-FINDING: property=%s %s %s" % (prop, ident, text.strip()))

def sample(f):
    r = []
    for l in open(f):
        x = json.loads(json.loads(l))
        if x["l"] > 1: r.append(("" if x["ok"] else "rejected: ") + show(x["a"]))
        if len(r) >= 12: break
    return r

def edge(f):
    for l in open(f):
        x = json.loads(json.loads(l))
        if x["e"]: return [("" if e["ok"] else "rejected: ") + show(e["a"]) for e in x["e"][:6]]
    return []

def show(a):
    def v(x): return "+".join("%d%s" % (n, d) for d, n in x.items() if n) or "0" if isinstance(x, dict) and all(isinstance(n, int) for n in x.values()) else json.dumps(x)
    return a["n"] + "(" + ", ".join("%s=%s" % (k, v(x)) for k, x in a.items() if k != "n") + ")"

if __name__ == "__main__":
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        c = Check(prop, tier, int(os.environ.get("VERIF_SEED", "1")))
        sys.exit(c.run())
    except Failed as e:
        print("CHECK-ERROR", prop, e)
        sys.exit(3)
