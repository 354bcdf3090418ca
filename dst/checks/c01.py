"""C01: per-ray operations under seeded worker schedules equal the single-worker result."""
from .. import world as W, ops as O
from ..harness import Violation, mix, threads
from ..simload import SERIAL, RANDOM, PCT, RR, PERM, SCRIPT

ID = "C01"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 4000, "thorough": 20000}
LIMITS = (60, 150)
SHRINK = ("ops",)
SCRIPTED = True
RULE = ("a case is one operation executed under one schedule and compared bit for bit with its single-worker execution on twin objects; "
        "non-trivial when a team of at least two workers ran and at least one preemption or reordering happened; "
        "distinct by (operation, schedule hash)")
MEASURE = "hashes of (region, worker switched to, access count at the switch) sequences, one per operation"
REAL = ["batoid Python package", "batoid C++ (compiled from the working tree, -fopenmp)", "numpy"]
STUB = ["OpenMP runtime (libgomp): simulated team, grants, worksharing, barriers, locks", "race detector (libtsan interface)"]
STRATS = {"random": RANDOM, "pct": PCT, "rr": RR, "perm": PERM, "script": SCRIPT}


def sched(r):
    return dict(seed=r.randrange(1 << 60), strategy=r.choice(["random", "random", "pct", "rr", "perm"]), grant=r.choice([0, 0, 1, 1, 2, 3, 4]),
                gap=r.choice([1, 3, 10, 40, 200, 1500]), race=int(r.random() < .5), limit=r.choice([2, 2, 3, 4, 4, 5, 7, 8, 16]) if r.random() < .93 else r.choice([17, 24, 33, 40, 48]))


def rayop(g, ws):
    r = g.r
    rv = g.rvname(ws)
    k = g.pick("trace", "trace", "part", "part", "split", "surf", "surf", "surf", "surf", "obscure", "obscure", "ctR", "ctA", "toCS", "prop", "pos", "phase", "amp", "lens", "path",
               "full", "stop", "eq", "any", "optic")
    if k == "trace":
        return ["trace", "tel", "rt0", r.random() < .1]
    if k == "optic":
        return ["partTrace", "lens", r.randrange(9), rv, g.pick("trace", "rSplit", "interact", "intersect", "reflect", "refract"), False]
    if k == "part":
        return ["partTrace", "tel", r.randrange(50), rv, g.pick("trace", "interact", "intersect", "rSplit", "refract", "reflect"), r.random() < .3]
    if k == "split":
        return ["traceSplit", "lens", "rl", g.pick(.2, .05)]
    if k == "surf":
        return g.surfop(ws)
    if k == "obscure":
        return [k, g.name(ws, "ob", "pg"), rv, g.pick("fn", "m")]
    if k == "ctA":
        return ["ctArrays", "cs0", "cs1", r.randint(1, 20), r.randrange(100), r.random() < .5]
    if k == "ctR":
        return ["ctRays", "cs0", "cs1", rv, r.random() < .5, g.pick("fn", "m")]
    if k == "toCS":
        return ["toCoordSys", rv, g.name(ws, "cs", "gcs")]
    if k == "prop":
        return ["propagate", rv, g.u(-3, 3)]
    if k == "pos":
        return ["positionAtTime", rv, g.u(-3, 3)]
    if k in ("phase", "amp"):
        return [{"phase": "phase", "amp": "amplitude"}[k], rv, g.v3(1.), g.u(-1, 1)]
    if k == "lens":
        return ["trace", "lens", "rl", False]
    if k == "path":
        return [g.pick("tracePath", "traceFullPath"), "lens", "rl", g.pick(["S0", "S1"], ["S0", "S1", "S0", "S1"])]
    if k == "full":
        return g.pick(["traceFull", "tel", "rt0"], ["traceFull", "lens", "rl"])
    if k == "stop":
        return ["fromStop", "tel", dict(g.field(), projection="postel"), r.randint(1, 20), r.randrange(1000)]
    if k == "eq":
        return ["rveq", rv, rv]
    o = g.query(ws, analyses=0, derive=.02)
    return o if o[0] != "sumAmplitude" else ["fields", rv]


def bundles(g, ws, sizes, large=False):
    """Replace the bundles of a world by ones of the given sizes."""
    for n, s in ws:
        if s[0] == "rays":
            s[1]["n"] = g.size(*sizes) if large else g.pick(*sizes)
            if g.r.random() < .25:
                s[1]["pvig"], s[1]["pfail"] = .5, .4
    return ws


def plan(seed, tier):
    g = O.OpGen(seed)
    big = g.r.random() < (.04 if tier == "thorough" else .02)
    ws = bundles(g, g.world(nrv=3), [1000, 1025, 2049] if big else [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 31, 64] + ([200] if tier == "thorough" else []))
    sc = sched(g.r)
    if big:
        sc.update(race=0, gap=max(sc["gap"], 200))
    return dict(world=ws, ops=[rayop(g, ws) for _ in range(3 if big else 8)], sched=sc, first=g.pick("sim", "ref"), script=None)


def configure(rt, sc, k, script=None, log=False):
    rt.config(seed=mix(sc["seed"], k), strategy=STRATS[sc["strategy"]], grant=sc["grant"], gap=sc["gap"], race=sc["race"], cap=8, log=log)
    if script is not None:
        rt.script([tuple(e) for e in script])


def race_text(rt):
    out = []
    for q in rt.races()[:3]:
        out.append(f"{'write' if q.w1 else 'read'} at {rt.where(q.pc1)} and {'write' if q.w2 else 'read'} at {rt.where(q.pc2)}")
    return "; ".join(out)


def run(plan, rec, B, rt):
    sc = plan["sched"]
    ws = plan["world"]
    ref, sim = O.World(ws), O.World(ws)
    rec.sample = dict(sched=sc, ops=plan["ops"][:3])

    def reference(o):
        rt.serial()
        threads(1)
        return O.canon_op(ref, o)

    def simulated(k, o):
        rt.reset_stats()
        record = bool(plan.get("record"))
        configure(rt, sc, k, [e[1:] for e in plan["script"] if e[0] == k] if plan.get("script") else None, log=record)
        threads(sc["limit"])
        try:
            c = O.canon_op(sim, o)
        finally:
            st = rt.stats()
            races = race_text(rt) if st["races"] else ""
            if record:
                rec.script += [[k] + list(e) for e in rt.log()]
            rt.serial()
        return c, st, races
    todo = list(enumerate(plan["ops"]))
    for k, o in todo:
        if plan["first"] == "sim":
            c, st, races = simulated(k, o)
            e = reference(o)
        else:
            e = reference(o)
            c, st, races = simulated(k, o)
        rec.evals += 1
        rec.ops[o[0] + (":" + o[1] if o[0] == "surf" else "")] += 1
        rec.steps += st["steps"]
        for f in ("reduced_grants", "switches", "stalls", "dyn_chunks"):
            rec.faults[f] += st[f]
        for f in ("regions", "parallel_regions", "barriers", "atomics", "locks"):
            rec.stats[f] += st[f]
        rec.see(k, W.digest(c), st["sched_hash"])
        if st["parallel_regions"] and st["switches"]:
            rec.case(o, st["sched_hash"])
            rec.state(st["sched_hash"])
        if races:
            raise Violation(f"operation {o}: workers race: {races}", f"race in {o[0]}")
        d = O.diff_op(o, e, c)
        if d:
            raise Violation(f"operation {o}: single worker vs {sc['limit']} requested ({sc['strategy']}): {d}", f"differs: {o[0]}")


def simplify(plan):
    sc = plan["sched"]
    for k, vs in (("limit", (2, 3)), ("grant", (0,)), ("strategy", ("perm", "rr")), ("gap", (1500, 200, 40)), ("race", (0, 1))):
        for v in vs:
            if sc[k] == v:
                break
            yield dict(plan, sched=dict(sc, **{k: v}))
    yield from drop_objects(plan)
    for i, (n, s) in enumerate(plan["world"]):
        if s[0] == "rays" and s[1]["n"] > 1:
            for m in {s[1]["n"] // 2, s[1]["n"] - 1}:
                w = [list(x) for x in plan["world"]]
                w[i] = [n, ["rays", dict(s[1], n=m)]]
                yield dict(plan, world=w)


def names_in(x, out):
    if isinstance(x, str):
        out.add(x)
    elif isinstance(x, list):
        for y in x:
            names_in(y, out)
    elif isinstance(x, dict):
        for y in x.values():
            names_in(y, out)
    return out


def drop_objects(plan):
    """Without the objects no operation mentions."""
    used = names_in([o for o in plan.get("ops") or []], set())
    for n, s in plan["world"]:
        if n in used and isinstance(s, list) and s[0] != "rays":
            names_in(s, used)
    w = [x for x in plan["world"] if x[0] in used]
    if len(w) < len(plan["world"]):
        yield dict(plan, world=w)
