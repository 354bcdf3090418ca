"""python -m dst.check PROPERTY [--replay FILE] [--seeds N] [--plan SEED]

Runs the simulations that decide one property and writes evidence/PROPERTY.json.
Exit 0: held on everything explored; 1: violation (with replay file); 2: the check itself failed.
"""
import argparse, importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor, FIRST_COMPLETED, wait
from . import build as B
from . import zygote as Z
from .harness import mix

VERIF = B.VERIF
NPROC = 8


class HarnessError(Exception):
    pass


class Zygotes:
    def __init__(self, specs):
        """specs: {name: dict(flavour=..., env={...})}"""
        self.dir = tempfile.mkdtemp(prefix="dstz")
        so = B.build_all(sorted({s["flavour"] for s in specs.values()}))
        self.addr = {n: os.path.join(self.dir, n) for n in specs}
        self.procs = {}
        for n, s in specs.items():
            e = dict(os.environ, PYTHONHASHSEED="0", DST_ZYGOTES=json.dumps(self.addr), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
                     MALLOC_ARENA_MAX="1", PYTHONDONTWRITEBYTECODE="1", **{"DST_SO_" + k.upper(): v for k, v in so.items()})
            for k, v in s.get("env", {}).items():
                if v is None:
                    e.pop(k, None)
                else:
                    e[k] = v
            if s.get("disk"):
                e["LD_PRELOAD"] = B.build_fs()
            self.procs[n] = subprocess.Popen([sys.executable, "-m", "dst.zygote", s["flavour"], self.addr[n]], cwd=VERIF, env=e,
                                             stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        for n, p in self.procs.items():
            l = p.stdout.readline()
            if l.strip() != "READY":
                raise HarnessError(f"zygote {n} did not start: {l}{p.stderr.read()[-3000:]}")

    def close(self):
        for p in self.procs.values():
            p.kill()
        for p in self.procs.values():
            p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


SIGN = {4: "SIGILL", 6: "SIGABRT", 7: "SIGBUS", 8: "SIGFPE", 11: "SIGSEGV"}


class Runner:
    def __init__(self, mod):
        self.mod = mod
        self.m = importlib.import_module(mod)
        self.known = known_findings(self.m.ID)
        self.z = Zygotes(self.m.ZYGOTES)
        self.primary = next(iter(self.m.ZYGOTES))

    def run(self, plan, retry=True):
        """Execute a plan; returns Rec.out() with a violation for crashes and hangs."""
        cpu, wall = getattr(self.m, "LIMITS", (60, 150))
        if not retry:
            cpu, wall = cpu * 2, wall * 2
        try:
            r = Z.call(self.z.addr[plan.get("zygote", self.primary)], "dst.harness", "execute", self.mod, plan, cpu=cpu, wall=wall)
        except (EOFError, OSError) as e:
            if retry:
                time.sleep(1)
                return self.run(plan, False)
            raise HarnessError(f"no reply: {e!r}")
        st = r["status"]
        if st == 0:
            out = r["result"]
            out["cpu"] = r["rusage"]
            for sig, what in out["finds"].items():
                if not out["violation"] and not any(re.search(rx, sig) for rx, _ in self.known):
                    out["violation"] = dict(what=what, sig=sig)
            return out
        base = dict(evals=0, keys=set(), faults={}, ops={}, states=set(), steps=0, stats={}, sample=None, digest="", cpu=r["rusage"])
        if st in (-4, -6, -7, -8, -11):
            base["violation"] = dict(what=f"the process died with {SIGN[-st]}: {r['err'].strip()[-300:]}", sig=SIGN[-st])
            return base
        if st == 97:
            base["violation"] = dict(what="the simulated runtime stopped the run: " + r["err"].strip()[-300:], sig=r["err"].strip().split("\n")[-1][:80])
            if "deadlock" in r["err"] or "livelock" in r["err"]:
                return base
            raise HarnessError(r["err"])
        if r["timeout"] or st in (-24, -9):
            if retry:
                return self.run(plan, False)
            if st == -9 and not r["timeout"]:
                raise HarnessError("run was killed " + r["err"])
            base["violation"] = dict(what="the run did not finish", sig="hang")
            return base
        raise HarnessError(f"status {st}: {r['err']}")

    def close(self):
        self.z.close()


def ddmin(items, test, deadline):
    """Smallest sublist (by removal) for which test stays true; test runs candidates in parallel."""
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, -(-len(items) // n))
        cands = [items[:i] + items[i + size:] for i in range(0, len(items), size)]
        k = test(cands)
        if k is not None:
            items = cands[k]
            n = max(2, n - 1)
        elif size == 1:
            break
        else:
            n = min(len(items), n * 2)
    return items


def minimise(runner, plan, viol, budget=60):
    deadline = time.time() + budget
    sig = viol["sig"]
    tried = [0]

    def fails(p):
        tried[0] += 1
        try:
            o = runner.run(p)
        except HarnessError:
            return None
        v = o["violation"]
        return v if v and (v["sig"] == sig or not getattr(runner.m, "STRICT_SIG", True)) else None

    def first(plans):
        with ThreadPoolExecutor(NPROC) as ex:
            for k, v in enumerate(ex.map(fails, plans)):
                if v:
                    return k
        return None
    cur = plan
    if getattr(runner.m, "LIMITS", (60, 0))[0] and viol["sig"] == "hang":
        return cur, tried[0]
    for key in getattr(runner.m, "SHRINK", ("ops", "faults")):
        if not isinstance(cur.get(key), list) or not cur[key]:
            continue
        items = ddmin(cur[key], lambda cs: first([dict(cur, **{key: c}) for c in cs]), deadline)
        cur = dict(cur, **{key: items})
    f = getattr(runner.m, "simplify", None)
    while f and time.time() < deadline:
        cands = list(f(cur))[:64]
        k = first(cands) if cands else None
        if k is None:
            break
        cur = cands[k]
    if getattr(runner.m, "SCRIPTED", False) and time.time() < deadline:
        # replace the seeded scheduler by its recorded decisions, then drop context switches
        try:
            script = runner.run(dict(cur, record=True)).get("script") or []
        except HarnessError:
            script = []
        for strategy in ("script",):
            p = dict(cur, script=script, sched=dict(cur["sched"], strategy=strategy))
            if 0 < len(script) < 20000 and fails(p):
                keep = [e for e in script if e[4] == 4]
                rest = [e for e in script if e[4] != 4]
                mk = lambda ev: dict(p, script=keep + ev)
                rest = ddmin(rest, lambda cs: first([mk(c) for c in cs]), deadline)
                cur = mk(rest)
    return cur, tried[0]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) sig=/(.*?)/ (.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--first", type=int, default=0)
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--no-min", action="store_true")
    a = ap.parse_args()
    prop = a.prop.upper()
    mod = "dst.checks." + prop.lower()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    try:
        runner = Runner(mod)
    except B.BuildError as e:
        print("build failed:", e, file=sys.stderr)
        return 2
    try:
        if a.replay:
            return replay(runner, prop, a.replay)
        return search(runner, prop, tier, seed, a, t0)
    except HarnessError as e:
        print("HARNESS ERROR:", e, file=sys.stderr)
        return 2
    finally:
        runner.close()


def replay(runner, prop, path):
    d = json.load(open(path))
    o = runner.run(d["plan"])
    v = o["violation"]
    if v:
        print(f"replayed {path}: {v['what']}")
        print(f"execution {o['digest'][:16]} (recorded {d.get('digest', '')[:16]}): {'identical' if o['digest'] == d.get('digest') else 'differs'}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("the recorded execution no longer violates the property")
    return 0


def search(runner, prop, tier, seed, a, t0):
    m = runner.m
    n = a.seeds or m.SEEDS[tier if tier in m.SEEDS else "quick"]
    guard = t0 + (float(os.environ.get("DST_WALL", 0)) or (240 if tier == "quick" else 3 * 3600))
    tot = dict(evals=0, keys=set(), states=set(), steps=0)
    faults, ops, stats = Counter(), Counter(), Counter()
    samples, viols, errors, done, cpu = [], [], [], 0, 0.0
    digests = {}
    fnd = known_findings(prop)
    hits = Counter()

    def one(i):
        s = mix(seed, prop, i)
        plan = json.loads(json.dumps(m.plan(s, tier)))
        plan.setdefault("seed", s)
        return i, plan, runner.run(plan)

    t1 = time.time()
    it = iter(range(a.first, a.first + n))
    with ThreadPoolExecutor(NPROC) as ex:
        live = set()
        stop = False
        while True:
            while not stop and len(live) < NPROC and time.time() < guard:
                i = next(it, None)
                if i is None:
                    stop = True
                    break
                live.add(ex.submit(one, i))
            if not live:
                break
            d, live = wait(live, return_when=FIRST_COMPLETED)
            for f in d:
                try:
                    i, plan, o = f.result()
                except HarnessError as e:
                    errors.append(str(e))
                    if a.verbose:
                        print("HARNESS ERROR", e, flush=True)
                    if len(errors) > 3:
                        stop = True
                    continue
                done += 1
                cpu += o["cpu"]
                tot["evals"] += o["evals"]
                tot["keys"] |= o["keys"]
                tot["states"] |= o["states"]
                tot["steps"] += o["steps"]
                faults.update(o["faults"])
                ops.update(o["ops"])
                stats.update(o["stats"])
                digests[i] = o["digest"]
                for x in o.get("finds", ()):
                    stats["known: " + x] += 1
                if o["sample"] is not None and len(samples) < 3:
                    samples.append(o["sample"])
                if a.verbose:
                    print(i, o["evals"], round(o["cpu"], 2), o["violation"], flush=True)
                if o["violation"]:
                    for rx, what in fnd:
                        if re.search(rx, o["violation"]["sig"]):
                            hits[what] += 1
                            break
                    else:
                        viols.append((i, plan, o))
                        if not a.verbose:
                            stop = True
    t2 = time.time()
    # determinism of the simulator: the same seeds again must give the identical executions
    redo = sorted(digests)[:6]
    same = 0
    if not viols:
        with ThreadPoolExecutor(NPROC) as ex:
            for i, _, o in ex.map(lambda i: one(i) if True else None, redo):
                same += o["digest"] == digests[i]
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level="exploration",
              coverage=dict(
                  evaluations=tot["evals"], distinct_nontrivial=len(tot["keys"]), rule=m.RULE, samples=samples[:3],
                  simulated_runs=done, runs_per_hour=round(done / max(t2 - t1, 1e-6) * 3600), seeds=done, seeds_per_hour=round(done / max(t2 - t1, 1e-6) * 3600),
                  first_seed_index=a.first, stopped_by_wall_guard=done < n and not viols,
                  simulated_steps=tot["steps"], simulated_time="logical: batoid reads no clock; time is counted in scheduling points (simulated_steps)",
                  faults_injected=dict(faults), operations=dict(ops), simulator_counters=dict(stats),
                  distinct_states=len(tot["states"]), distinct_states_measure=m.MEASURE,
                  real_components=m.REAL, stub_components=m.STUB,
                  determinism=dict(reruns=len(redo) if not viols else 0, identical=same),
                  cpu_s=round(cpu, 1)),
              assumptions=getattr(m, "ASSUME", []), wall_s=round(time.time() - t0, 1), violations=len(viols))
    if not viols and same < len(redo):
        print(f"warning: {len(redo) - same} of {len(redo)} repeated executions differed from the first", file=sys.stderr)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rc = 0
    for rx, what in fnd:
        print(f"KNOWN-FINDING: property={prop} {what}")
    if viols:
        viols.sort(key=lambda v: v[0])
        i, plan, o = viols[0]
        v = o["violation"]
        small, tried = (plan, 0) if a.no_min else minimise(runner, plan, v)
        o2 = runner.run(small)
        if not o2["violation"]:
            small, o2 = plan, o
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{i}.json")
        again = [runner.run(small) for _ in range(2)]
        rep = sum(1 for x in again if x["violation"] and x["violation"]["sig"] == o2["violation"]["sig"])
        json.dump(dict(property=prop, seed=seed, index=i, plan=small, violation=o2["violation"], digest=o2["digest"],
                       minimisation_runs=tried, original_plan=plan if small is not plan else None), open(path, "w"), indent=1, default=str)
        print(f"seed {seed} run {i}: {o2['violation']['what']}")
        print(f"minimised with {tried} runs; replayed {rep}/2 identically; {len(viols)} failing run(s) so far")
        print(f"VIOLATION property={prop} replay={path}")
        ev["coverage"]["violation"] = o2["violation"]
        ev["coverage"]["failing_runs"] = [x[0] for x in viols]
        rc = 1
    elif errors:
        print("HARNESS ERROR:", errors[0], file=sys.stderr)
        rc = 2
    elif done == 0:
        print("HARNESS ERROR: nothing ran", file=sys.stderr)
        rc = 2
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    print(f"{prop}: {done} runs, {tot['evals']} evaluations, {len(tot['keys'])} distinct, {tot['steps']} steps, {len(tot['states'])} states, "
          f"{len(viols)} violations, {round(time.time() - t0, 1)} s")
    if a.verbose:
        print(json.dumps(ev["coverage"], indent=1, default=str)[:3000])
    return rc


if __name__ == "__main__":
    sys.exit(main())
