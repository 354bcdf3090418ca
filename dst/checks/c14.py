"""C14: a query's answer does not depend on what ran before it, in which order, on what else, or how often."""
import copy, gc, random
import numpy as np
from .. import world as W, ops as O, zygote as Z
from ..harness import Violation, mix, threads
from . import c01

ID = "C14"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 3000, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("hist",)
RULE = ("a case is one query answered inside a history and compared with its answer in a fresh process that ran the same queries in another order without the disturbances, or ran it alone; "
        "non-trivial when at least one other operation or disturbance came before it; distinct by (query, what came before)")
MEASURE = "hashes of (query, multiset of queries before it in either execution)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy", "galsim"]
STUB = ["OpenMP runtime (simulated, one worker)"]
KEEP = {"fields", "latcoords", "lookup", "reprs", "derive", "cleared", "roundtrip", "deep", "parseOptic", "fromYaml", "eqhash", "rveq", "mesh", "xz", "csOp"}


def variant(g, n, s):
    """A spec that is easily confused with s: same names, sizes or equality, other content."""
    s = copy.deepcopy(s)
    k = s[0]
    if k == "yaml":
        return ["yamlvar", s[1], g.pick("shift", "coat", "attr", "perturb")]
    if k == "optic":
        if g.r.random() < .6:
            return ["opticvar", s, g.pick("shift", "coat", "attr", "perturb")]
        return g.telescope() if n == "tel" else g.lensOptic()
    if k == "rays":
        s[1]["seed"] += 1
        return s
    if k == "scatter":
        s[3] += 1
        return s
    if k in ("asPolar", "asGrid", "asSpokes"):
        s[2]["theta_x"] = -s[2]["theta_x"]
        return s
    if k == "ConstMedium":
        return [k, round(s[1] * 1.07, 6)]
    if k in ("Plane", "Paraboloid", "ObscCircle", "ObscAnnulus", "ObscRectangle") and len(s) > 1 and isinstance(s[1], float):
        s[1] = round(s[1] * .95, 9)
        return s
    if k == "TableMedium":
        return [k, s[1], [x + .01 for x in s[2]]]
    if k == "Zernike":
        return [k, [x * 1.5 for x in s[1]]] + s[2:]
    if k == "Bicubic":
        s[6] += 1
        return s
    if k in ("Quadric", "Asphere", "Sphere", "Paraboloid", "Tilted"):
        s[1] = round(s[1] * 1.01, 9)
        return s
    if k in ("ObscPolygon",):
        s[1] = [round(x * 1.1, 6) for x in s[1]]
        return s
    if k == "SimpleCoating":
        return [k, s[2], s[1]]
    if k == "CoordSys":
        return s if n == "gcs" else g.coordSys()
    return s


def changed(o, how):
    """A system like o in what a careless comparison would look at."""
    B = W.B
    if how == "shift":
        return o.withGlobalShift([1e-4, 0, 2e-4])
    if how == "perturb":
        leaf = [n for n, i in o.itemDict.items() if isinstance(i, (B.Mirror, B.RefractiveInterface))]
        return o.withPerturbedSurface(sorted(leaf)[0], B.Zernike([0, 0, 0, 0, 1e-6, 2e-6], R_outer=4.))
    if how == "coat":
        for n in sorted(o.itemDict):
            i = o.itemDict[n]
            if isinstance(i, B.RefractiveInterface):
                i.forwardCoating, i.reverseCoating = B.SimpleCoating(.25, .7), B.SimpleCoating(.3, .6)
        return o
    o.sphereRadius = getattr(o, "sphereRadius", 10.) * 1.1
    o.backDist = getattr(o, "backDist", 10.) * 1.05
    o.pupilSize = getattr(o, "pupilSize", 2.) * .9
    return o


W._BUILD["yamlvar"] = lambda n, how: changed(W.build(["yaml", n]), how)
W._BUILD["opticvar"] = lambda s, how: changed(W.build(s), how)


class Gen(O.OpGen):
    def q(self, ws):
        o = self.query(ws, analyses=.22, derive=.05)
        return o


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    a = g.world(small=True)
    b = [[n, variant(g, n, s) if r.random() < .8 else s] for n, s in a]
    base = [g.q(a) for _ in range(r.choice([4, 7, 10]))]
    qs = []
    for o in base:
        qs.append([r.randrange(2), o])
        if r.random() < .3:
            qs.append([qs[-1][0], g.near(o)])
        if r.random() < .4:
            qs.append([1 - qs[-1][0], o])
    hist = []
    for q in qs:
        hist.append(["q"] + q)
    for _ in range(r.randrange(4)):
        hist.insert(r.randrange(len(hist) + 1), ["q"] + r.choice(qs))
    r.shuffle(hist)
    if r.random() < .4:       # the same questions to both, in turn
        o = [g.q(a) if r.random() < .4 else g.plainrays() for _ in range(r.choice([1, 2, 3]))]
        at = r.randrange(len(hist) + 1)
        hist[at:at] = [["q", k % 2, x] for k in range(r.choice([2, 3, 4])) for x in o]
    for _ in range(r.randrange(5)):
        hist.insert(r.randrange(len(hist) + 1), ["noise", g.pick("gc", "rng", "pyrng", "hash", "build")])
    return dict(worlds=[a, b], hist=hist, scribble=r.random() < .6, life=g.pick(None, None, "drop", "gc"), order=r.randrange(1 << 30), alone=[r.randrange(len(hist)) for _ in range(1)] if r.random() < .3 else [])


def noise(kind, ws):
    if kind == "gc":
        gc.collect()
    elif kind == "rng":
        np.random.seed(77)
        np.random.normal(size=5)
    elif kind == "pyrng":
        random.seed(3)
    elif kind == "hash":
        for o in list(ws[0].o.values()):
            try:
                hash(o)
            except TypeError:
                pass
    elif kind == "build":
        O.World([x for x in ws[1].specs if not x[0].startswith(("r", "tel"))])



def scribble(out, mine, depth=0):
    """Overwrite everything mutable the caller got back, except objects that were his before."""
    if depth > 6 or id(out) in mine:
        return
    B = W.B
    if isinstance(out, np.ndarray):
        if out.flags.writeable and out.dtype.kind in "fcbi":
            out[...] = 1 if out.dtype.kind == "b" else 77
    elif isinstance(out, B.RayVector):
        mine.add(id(out))
        for f in ("x", "vy", "t", "flux", "failed"):
            scribble(getattr(out, f), mine, depth + 1)
    elif isinstance(out, B.Lattice):
        scribble(out.array, mine, depth + 1)
        scribble(out.coords, mine, depth + 1)
    elif isinstance(out, dict):
        for v in list(out.values()):
            scribble(v, mine, depth + 1)
        out.clear()
    elif isinstance(out, (list, tuple)):
        for v in list(out):
            scribble(v, mine, depth + 1)
        if isinstance(out, list):
            del out[:]


def answers(worlds, hist, scrib=False, life=None):
    """Canonical answers of the queries of a history, by position; with life, worlds die when the other one is asked."""
    ws = []
    for s in worlds:
        w = O.World(s)
        w.specs = s
        ws.append(w)
        if life:
            w.o.clear()
    mine = {id(o) for w in ws for o in w.o.values()}
    out = {}

    def turn(k):
        if not ws[k].o:
            ws[1 - k].o.clear()
            if life == "gc":
                gc.collect()
            for n, s in worlds[k]:
                ws[k].add(n, s)
            mine.clear()
            mine.update(id(o) for o in ws[k].o.values())
    with np.errstate(all="ignore"):
        for i, h in enumerate(hist):
            if h[0] == "noise":
                noise(h[1], ws)
                continue
            if life:
                turn(h[1])
            res = O.run_safe(ws[h[1]], h[2])
            out[i] = W.canon(res)
            if scrib and h[2][0] not in KEEP and not isinstance(res, Exception):
                scribble(res, set(mine))
    return out


def remote(worlds, hist):
    Z.RT.serial()
    threads(1)
    return answers(worlds, hist)


def run(plan, rec, B, rt):
    rt.serial()
    threads(1)
    hist = plan["hist"]
    rec.sample = dict(hist=hist[:5])
    got = answers(plan["worlds"], hist, plan["scribble"], plan.get("life"))

    def fresh(h):
        rep = Z.call(Z.zyg("host"), __name__, "remote", plan["worlds"], h)
        if rep["status"] != 0:
            raise RuntimeError(f"reference failed: {rep['status']} {rep['err']}")
        return rep["result"]
    key = lambda h: repr(h[1:])
    uniq = {}
    for i, h in enumerate(hist):
        if h[0] == "q":
            uniq.setdefault(key(h), []).append(i)
    order = sorted(uniq)
    random.Random(plan["order"]).shuffle(order)
    refs = [("in another order", [hist[uniq[k][0]] for k in order])]
    for i in plan["alone"]:
        if i < len(hist) and hist[i][0] == "q":
            refs.append(("alone in a fresh process", [hist[i]]))
    for what, h2 in refs:
        want = fresh(h2)
        for j, h in enumerate(h2):
            for i in uniq[key(h)]:
                rec.evals += 1
                rec.ops[h[2][0]] += 1
                rec.see(i, W.digest(got[i]) if h[2][0] not in O.APPROX else None)
                if i:
                    rec.case(h, sorted(repr(x) for x in hist[:i]))
                rec.state(h, sorted(repr(x) for x in hist[:i]), j)
                d = O.diff_op(h[2], want[j], got[i])
                if d:
                    raise Violation(f"step {i} {h[2]} on world {h[1]}: {what} vs in this history: {d}", f"answer changed: {h[2][0]}")
    rec.faults["disturbances"] += sum(h[0] == "noise" for h in hist)
    rec.faults["returned objects overwritten"] += len(got) if plan["scribble"] else 0
    if plan.get("life"):
        rec.faults["worlds dropped and rebuilt"] += sum(a[1] != b[1] for a, b in zip(*(lambda q: (q, q[1:]))([h for h in hist if h[0] == "q"])))
    rec.faults["repeated queries"] += sum(len(v) - 1 for v in uniq.values())
    rec.steps += len(hist)


def simplify(plan):
    if plan["scribble"]:
        yield dict(plan, scribble=False)
    if plan.get("life"):
        yield dict(plan, life=None)
    if plan["alone"]:
        yield dict(plan, alone=[])
    used = c01.names_in(plan["hist"], set())
    for k in range(2):
        for n, s in plan["worlds"][k]:
            if n in used and s[0] != "rays":
                c01.names_in(s, used)
    ws = [[x for x in w if x[0] in used] for w in plan["worlds"]]
    if sum(map(len, ws)) < sum(map(len, plan["worlds"])):
        yield dict(plan, worlds=ws)
