"""C12: the thread limit in force is obeyed by every operation and changes no result."""
import numpy as np
from .. import world as W, ops as O, inject, zygote as Z
from ..harness import Violation, threads, mix
from .c01 import rayop, bundles, configure, race_text, drop_objects
from . import c01

ID = "C12"
ZYGOTES = {"host": dict(flavour="host"), "n5": dict(flavour="host", env={"OMP_NUM_THREADS": "5"}), "n0": dict(flavour="host", env={"OMP_NUM_THREADS": None})}
SEEDS = {"quick": 2500, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("ops",)
RULE = ("a case is one operation run with one limit in force and one grant/stall schedule, checked for the number of workers it asked for and was given and compared with the "
        "single-worker result; non-trivial when at least one parallel region was entered; distinct by (operation, limit, previous limit, schedule hash)")
MEASURE = "hashes of (limit history, team sizes granted, schedule)"
REAL = c01.REAL
STUB = c01.STUB
CAP = 13      # what the simulated runtime would use if it were not told a number
BIG = 256     # from this many rays on, an operation can use any limit up to this


def plan(seed, tier):
    g = O.OpGen(seed)
    r = g.r
    big = r.random() < .35
    ws = bundles(g, g.world(nrv=3), [BIG, 300] if big else [1, 2, 3, 5, 8, 15, 16, 17, 40])
    lim = [1, 2, 3, 4, 5, 6, 7, 8, 11, 16]
    if r.random() < .3:
        lim += [17, 24, 32, 33, 48, 64, 65, 100, 128, 200, BIG]
    ops = []
    for _ in range(4 if big else 9):
        o = rayop(g, ws) if r.random() < .85 else g.query(ws, analyses=.5)
        if r.random() < .04:
            o = g.construct(ws)
            if "nrandom" in o[2]:
                o[2]["nrandom"] = g.pick(13, 16, 24, 40, 100, 1000)
        if big and o[0] == "partTrace":
            o = g.surfop(ws)
        ops.append(dict(op=o, limit=r.choice(lim), np=r.random() < .15, mid=[r.randrange(400), r.choice(lim)] if r.random() < .25 else None,
                        grant=r.choice([0, 0, 1, 2, 3, 5]), strategy=r.choice(["random", "pct", "perm", "rr"]), keep=r.random() < .3))
    return dict(world=ws, ops=ops, sched=dict(seed=r.randrange(1 << 60), gap=r.choice([20, 200, 1000]), race=0), initial=g.pick("n5", "n0") if r.random() < .02 else None)


def initial(w, op):
    """In a fresh process: the limit found and what an operation asked for."""
    rt = Z.RT
    rt.config(seed=1, strategy=4, grant=0, cap=CAP)
    rt.reset_stats()
    c = O.canon_op(O.World(w), op)
    st = rt.stats()
    rt.serial()
    return Z.BATOID.global_vars._batoid_max_threads, st["max_requested"], st["max_granted"], st["regions"], W.digest(c)


def run(plan, rec, B, rt):
    sc = plan["sched"]
    ref, sim = O.World(plan["world"]), O.World(plan["world"])
    rec.sample = dict(ops=plan["ops"][:2])
    gv = B.global_vars
    if plan["initial"]:
        want = {"n5": 5, "n0": 1}[plan["initial"]]
        ws = [["s0", ["Paraboloid", 8.0]], ["rv0", ["rays", dict(n=BIG, seed=3)]]]
        o = ["surf", "reflect", "s0", "rv0"]
        rep = Z.call(Z.zyg(plan["initial"]), __name__, "initial", ws, o)
        if rep["status"] != 0:
            raise Violation(f"operation failed in a process started with OMP_NUM_THREADS for {want}: {rep['err'][-300:]}", "initial limit")
        got = rep["result"]
        rec.evals += 1
        rec.faults["fresh process with another OMP_NUM_THREADS"] += 1
        threads(1)
        e = W.digest(O.canon_op(O.World(ws), o))
        if got[0] != want or got[1] != want or got[2] > want or got[4] != e:
            raise Violation(f"process started for {want} threads: limit {got[0]}, asked for {got[1]}, given {got[2]}, same rays: {got[4] == e}", "initial limit")
    prev, hist = 1, []
    for k, p in enumerate(plan["ops"]):
        o, lim = p["op"], p["limit"]
        rt.serial()
        threads(1)
        e = O.canon_op(ref, o)
        if gv._batoid_max_threads != 1:
            raise Violation(f"{o} changed the limit from 1 to {gv._batoid_max_threads}", "limit changed")
        lim = prev if p["keep"] else lim
        threads(np.int64(lim) if p["np"] else lim)
        rt.reset_stats()
        rt.config(seed=mix(sc["seed"], k), strategy=c01.STRATS[p["strategy"]], grant=p["grant"], gap=sc["gap"], race=0, cap=CAP)
        ok = {lim}
        tr = None
        if p["mid"]:
            ok.add(p["mid"][1])
            tr = inject.Tracer(B, {p["mid"][0]: lambda: threads(p["mid"][1])})
        try:
            c = tr.run(O.canon_op, sim, o) if tr else O.canon_op(sim, o)
        finally:
            st = rt.stats()
            rt.serial()
        after = gv._batoid_max_threads
        fired = bool(tr and tr.fired)
        now = p["mid"][1] if fired else lim
        if not fired:
            ok = {lim}
        rec.evals += 1
        rec.ops[o[0]] += 1
        rec.steps += st["steps"]
        rec.faults["reduced grants"] += st["reduced_grants"]
        rec.faults["limit changed before the operation"] += lim != prev
        rec.faults["limit changed during the operation"] += fired
        rec.faults["switches"] += st["switches"]
        rec.stats["regions"] += st["regions"]
        rec.see(k, W.digest(c), st["sched_hash"], st["requested"], st["granted"])
        if after != now:
            raise Violation(f"{o} changed the limit from {now} to {after}", "limit changed")
        top = max(ok)
        if st["max_requested"] > top or (p["grant"] == 0 and st["max_granted"] > top):
            raise Violation(f"{o} with limit {sorted(ok)} asked for {st['max_requested']} and used {st['max_granted']} workers", "limit exceeded")
        if big_rays(plan, o) and not fired and st["regions"]:
            # enough rays for every worker: exactly the configured number is asked for in each region
            if st["requested"] != lim * st["regions"]:
                raise Violation(f"{o} with limit {lim} entered {st['regions']} regions asking for {st['requested']} workers altogether", "limit not used")
        d = O.diff_op(o, e, c)
        if d and o[0] not in O.APPROX:
            d = d if not approx_sum(o) else W.diff(e, c, rtol=1e-6, atol=1e-9)
        if d:
            raise Violation(f"{o} with limit {lim} differs from one worker: {d}", "result depends on the limit")
        hist.append((lim, now, st["granted"]))
        if st["regions"]:
            rec.case(o, lim, prev, st["sched_hash"])
            rec.state(hist[-3:], st["team_hash"], st["sched_hash"])
        prev = now


def approx_sum(o):
    return o[0] == "sumAmplitude"


def big_rays(plan, o):
    """Whether the op is one kernel acting on a bundle of at least BIG rays."""
    if o[0] not in ("surf", "propagate", "positionAtTime", "phase", "amplitude", "sumAmplitude", "toCoordSys", "ctRays", "obscure"):
        return False
    for n, s in plan["world"]:
        if n in O_rv(o) and s[0] == "rays":
            return s[1]["n"] >= BIG
    return False


def O_rv(o):
    return {x for x in o[1:] if isinstance(x, str) and x.startswith(("rv", "rl"))}


def simplify(plan):
    for o in range(len(plan["ops"])):
        p = plan["ops"][o]
        for ch in (dict(mid=None), dict(grant=0), dict(np=False), dict(strategy="perm")):
            if any(p[q] != v for q, v in ch.items()):
                yield dict(plan, ops=plan["ops"][:o] + [dict(p, **ch)] + plan["ops"][o + 1:])
