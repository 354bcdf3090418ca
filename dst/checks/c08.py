"""C08: results never depend on stale, foreign or uninitialised memory."""
import gc
import numpy as np
from .. import world as W, ops as O, hist as H, inject, zygote as Z
from ..harness import Violation, mix, threads
from ..simload import VIOL_KINDS
from . import c01

ID = "C08"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 3000, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("hist",)
RULE = ("a case is one observation of a history executed on hostile memory (garbage in fresh blocks, guard zones, poisoned and quarantined released blocks, collections at chosen instants, owners dropped) "
        "and compared with the same history on ordinary memory in another process, with every native access checked; non-trivial when memory was released or collected before it; distinct by (history prefix, memory behaviour)")
MEASURE = "hashes of (kind of step, fill, guard, quarantine, collections, worker schedule)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy", "galsim", "CPython garbage collector"]
STUB = ["allocators of numpy data and of batoid's C++ objects (simulated: contents, guards, quarantine)", "OpenMP runtime (simulated)"]

NEW = ("Sum", "Asphere", "Zernike", "Bicubic", "Polygon", "Union", "Intersection", "Negation", "TableMedium", "optic", "rays", "Lattice", "CoordTransform")


class Gen(H.HistGen):
    def extra(self, ws, rvs):
        r = self.r
        k = self.pick("view", "view", "peek", "peek", "keep", "keep", "use", "use", "fresh", "fresh", "fresh")
        v = self.pick("va", "vb")
        if k == "view":
            return ["view", v, r.choice(rvs + ["s0", "tm", "lat", "cs0", "s1", "pg"]), self.pick("x", "vy", "flux", "r", "v", "k", "vignetted", "coef", "args", "xs", "zs", "dzdxs", "coords", "array", "rot", "origin", "xp", "coefs", "vals", "wavelengths")]
        if k == "peek":
            return ["peek", v]
        if k == "keep":
            return ["keep", self.pick("ka", "kb"), self.pick("tel", "lens", "s0", "ob0", "s1"), r.randrange(50)]
        if k == "use":
            return ["use", self.pick("ka", "kb"), r.choice(rvs)]
        return ["fresh", self.spec(), r.choice(rvs)]

    def spec(self):
        """A composite whose ingredients nobody else keeps."""
        return self.pick(["Sum", self.surface(), self.surface(("Bicubic", "Zernike", "Asphere"))], self.surface(("Bicubic",)), self.surface(("Zernike",)), self.surface(("Asphere",)),
                         ["TableMedium", sorted(self.u(3e-7, 1.2e-6) for _ in range(self.r.randint(1, 5))), None], self.obsc(kinds=("ObscPolygon",) * 5), self.obsc(kinds=("ObscPolygon",) * 3 + ("ObscCircle", "ObscRay", "ObscUnion", "ObscIntersection", "ObscNegation")),
                         ["Sum", self.surface(), self.surface()])


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    big = r.random() < .3
    ws = c01.bundles(g, g.world(nrv=2, small=True), [1, 2, 3, 5, 8, 13], large=True)
    h, rvs = g.history(ws, r.choice([8, 16, 30]), objects=g.pick(.05, .2), inplace=.3, derived=.15, query=.6)
    for _ in range(r.choice([2, 5, 9])):
        h.insert(r.randrange(len(h) + 1), g.extra(ws, rvs))
    for _ in range(r.choice([0, 1, 3])):
        h.insert(r.randrange(len(h) + 1), ["gc"])
    for i in range(len(h)):
        if h[i][0] == "=" and h[i][1] in ("ra", "rb") and r.random() < .3:
            h.insert(i + 1, ["del", h[i][2][1]]) if isinstance(h[i][2][1], str) and h[i][2][1] in rvs else None
    return dict(world=ws, hist=h, rvs=rvs, mem=dict(seed=r.randrange(1 << 31), fill=g.pick(1, 1, 2, 3), guard=g.pick(0, 16, 64, 64, 1024), quarantine=g.pick(0, 0, 1 << 16, 1 << 23, 1 << 23), freepoison=g.pick(0, 1, 1, 1)),
                gcs=[[r.randrange(len(h)), round(r.random(), 6)] for _ in range(g.pick(0, 0, 2, 4))],
                sched=dict(seed=r.randrange(1 << 60), strategy=g.pick("serial", "serial", "random", "perm"), limit=g.pick(1, 1, 2, 3, 7), gap=g.pick(20, 300)))


def special(w, s):
    """Steps about lifetimes; returns (handled, observation)."""
    B = W.B
    k = s[0]
    if k == "view":
        w.o.pop(s[1], None)
        x = getattr(w.o.get(s[2]), s[3], None)
        if isinstance(x, np.ndarray):
            w.o[s[1]] = x
        return True, None
    if k == "peek":
        x = w.o.get(s[1])
        return True, W.canon(np.array(x)) if x is not None else None
    if k == "keep":
        o = w.o.get(s[2])
        w.o.pop(s[1], None)
        if isinstance(o, B.Optic):
            d = o.itemDict
            n = sorted(d)
            w.o[s[1]] = d[n[s[3] % len(n)]]
        elif isinstance(o, B.Sum):
            w.o[s[1]] = o.surfaces[s[3] % len(o.surfaces)]
        elif isinstance(o, (B.ObscUnion, B.ObscIntersection)):
            w.o[s[1]] = o.items[s[3] % len(o.items)]
        elif isinstance(o, B.ObscNegation):
            w.o[s[1]] = o.original
        elif isinstance(o, B.Surface):
            w.o[s[1]] = o + B.Plane()
        return True, None
    if k == "use":
        return True, exercise(B, w.o.get(s[1]), w.o.get(s[2]))
    if k == "fresh":
        sp = s[1]
        if sp[0] == "TableMedium" and sp[2] is None:
            sp = ["TableMedium", sp[1], [1.4 + .01 * i for i in range(len(sp[1]))]]
        o = W.build(sp)
        gc.collect()
        return True, exercise(B, o, w.o.get(s[2]))
    return False, None


def exercise(B, o, rv):
    x, y = np.linspace(-.9, .9, 11), np.linspace(.7, -.8, 11)
    if o is None:
        return None
    if isinstance(o, B.Surface):
        out = [o.sag(x, y), o.normal(x, y), o.sag(.1, .2)]
        if rv is not None:
            out.append(o.intersect(rv.copy()))
            out.append(o.reflect(rv.copy()))
        return W.canon(out)
    if isinstance(o, B.Obscuration):
        out = [o.contains(x, y), o.contains(.1, .2)]
        if rv is not None:
            out.append(o.obscure(rv.copy()))
        return W.canon(out)
    if isinstance(o, B.Medium):
        return W.canon([o.getN(np.array([3e-7, 5e-7, 1.2e-6, 7e-7])), o.getN(5.5e-7)])
    if isinstance(o, B.Optic) and rv is not None:
        try:
            return W.canon(o.trace(rv.copy()))
        except Exception as e:
            return W.canon(e)
    return None


def perform(plan, hostile=None):
    w = O.World()
    w.names = {n for n, _ in plan["world"]} | set(plan["rvs"])
    out = []
    for n, s in plan["world"]:
        w.add(n, s)
    with np.errstate(all="ignore"):
        for i, s in enumerate(plan["hist"]):
            def f():
                done, x = special(w, s)
                return x if done else H.step(w, s)
            out.append(hostile(i, s, f) if hostile else f())
    for n in plan["rvs"]:
        out.append(W.canon(w.o[n]) if n in w.o else None)
    return out


def remote(plan):
    Z.RT.serial()
    threads(1)
    gc.disable()
    return perform(plan)


def run(plan, rec, B, rt):
    sc, m = plan["sched"], plan["mem"]
    rec.sample = dict(hist=plan["hist"][:4], mem=m)
    threads(sc["limit"])
    rt.np_allocator()
    gc.disable()
    rt.config(seed=sc["seed"], strategy=dict(c01.STRATS, serial=0)[sc["strategy"]], grant=0, gap=sc["gap"], race=0, memchk=1, cap=8)
    rt.reset_stats()
    rt.mem(1, m["seed"], m["fill"], m["guard"], m["quarantine"], m["freepoison"])
    gcs = {}
    for i, f in plan["gcs"]:
        gcs.setdefault(i, []).append(f)
    marks = []
    cnt = dict(gc=0)

    def check(what):
        v = rt.viols()
        if v:
            raise Violation(f"{what}: " + "; ".join(f"{'write' if q.info else 'read'}: {VIOL_KINDS.get(q.kind, q.kind)} at {rt.where(q.pc)}" for q in v[:3]), f"memory {v[0].kind}")

    def hostile(i, s, f):
        if i in gcs and s[0] in "?!=":
            acts = {int(x * 400): gc.collect for x in gcs[i]}
            tr = inject.Tracer(B, acts)
            x = tr.run(f)
            cnt["gc"] += tr.fired
            rec.faults["garbage collection inside an operation"] += tr.fired
        else:
            x = f()
        if s[0] == "gc":
            cnt["gc"] += 1
            rec.faults["garbage collection"] += 1
        if s[0] in ("new", "del", "fresh"):
            rec.faults["owner dropped"] += 1
        check(f"step {i} {s}")
        marks.append((rt.stats()["new_calls"], cnt["gc"]))
        return x
    got = perform(plan, hostile)
    check("at the end")
    rt.mem(0)
    rt.serial()
    rep = Z.call(Z.zyg("host"), __name__, "remote", plan)
    if rep["status"] != 0:
        raise RuntimeError(f"reference failed: {rep['status']} {rep['err']}")
    want = rep["result"]
    st = rt.stats()
    rec.steps += st["steps"]
    rec.faults["fresh memory filled with garbage"] += st["new_calls"]
    steps = plan["hist"] + [["final", n] for n in plan["rvs"]]
    for i, (s, e, c) in enumerate(zip(steps, want, got)):
        rec.ops[s[0] + (":" + s[1][0] if s[0] in "!?" else "")] += 1
        if e is None and c is None:
            continue
        rec.evals += 1
        d = O.diff_op(s[1], e, c) if s[0] == "?" else W.diff(e, c)
        if d and s[0] == "?" and s[1][0] == "sumAmplitude":
            d = W.diff(e, c, rtol=1e-6, atol=1e-9)
        if d:
            raise Violation(f"step {i} {s}: ordinary vs hostile memory {m}: {d}", f"differs {s[0]} {s[1][0] if s[0] == '?' else ''}")
        rec.see(i, W.digest(c))
        rec.case(plan["hist"][:i + 1], m)
        rec.state(s[0], m["fill"], m["guard"], m["quarantine"], m["freepoison"], cnt["gc"], sc["strategy"], s[1][0] if s[0] == "?" else None)


def simplify(plan):
    if plan["gcs"]:
        yield dict(plan, gcs=[])
    if plan["sched"]["limit"] > 1:
        yield dict(plan, sched=dict(plan["sched"], limit=1))
    used = c01.names_in(plan["hist"], set()) | {"gcs"}
    w = [x for x in plan["world"] if x[0] in used | set(plan["rvs"])]
    if len(w) < len(plan["world"]):
        yield dict(plan, world=w)
