"""C16: repeated work leaves nothing behind."""
import dis, functools, gc, os, sys, threading, types
from collections import Counter
import numpy as np
from .. import world as W, ops as O, hist as H, inject
from ..harness import Violation, threads
from . import c07

ID = "C16"
ZYGOTES = {"host": dict(flavour="host"), "gpu": dict(flavour="gpu")}
SEEDS = {"quick": 2600, "thorough": 30000}
LIMITS = (150, 300)
SHRINK = ("hist", "chain")
RULE = ("a case is one history (objects built, used, changed in place, queried, saved, loaded, cut short; then all dropped), with objects that go on from one time to the next and are each time replaced by what is made from them, repeated with slightly other numbers until what the process holds was seen to be the same before and after a repetition; "
        "distinct by (history, fault)")
MEASURE = "hashes of (kind of step, fault kind, outcome)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy", "galsim", "CPython garbage collector"]
STUB = ["allocators (numpy's data allocator, C++ operator new) and the device's memory: counted, made to fail", "signal delivery (exception raised at a trace event)", "OpenMP runtime (simulated, one worker)"]
KINDS = [k for k in c07.KINDS if k != "ki-op"]
WARM, WATCH, LONG = 2, 3, 200     # at length: more often than a table of bounded size (128, the usual one) has entries
KEEP = {"pupilSize", "backDist", "eps", "sphereRadius", "lensRadius"}    # what galsim's bounded tables of polynomials are indexed by
HELD = ("blocks of array and native memory", "bytes of array and native memory", "blocks of device memory", "device mappings", "objects of batoid's", "open files", "threads", "objects its modules, classes and functions refer to")


class Gen(c07.Gen):
    def steps(self, ws, n):
        r = self.r
        h, rvs = self.history(ws, n, objects=.12, inplace=.3, derived=.2, query=.6)
        for _ in range(r.choice([1, 2, 4])):
            x = r.random()
            o = self.op(ws, [q for q, _ in ws if q.startswith("r")]) if x < .7 else ["c16.load", self.pick("AuxTel.yaml", "HSC.yaml", "silica_dispersion.txt", "nowhere.yaml", "nowhere.txt"), 0.0]
            h.insert(r.randrange(len(h) + 1), ["?", o])
        return h, rvs

    def chain(self, ws):
        """Operations that each replace an object by one made from it."""
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            x = r.random()
            if x < .45:
                o = self.derivation()
                while o[2] in ("withSurface", "withPerturbedSurface", "withInsertedOptic", "withRemovedOptic"):
                    o = self.derivation()
                out.append([o[1], o])
            elif x < .75:
                n = self.name(ws, "r")
                q = self.pick(["rvcopy", n], ["slice_", n, None, None, None], ["slice_", n, None, None, -1], ["roundtrip", n], ["deep", n], ["trace", "lens", n, False], ["trace", "tel", n, False], ["c16.move", n], ["c16.halves", n])
                out.append([n, q])
            else:
                n = r.choice([n for n, _ in ws if n[0] in "smcoptl"])
                out.append([n, [self.pick("roundtrip", "deep"), n]])
        return out


@O.op("c16.move")
def move(w, rv):
    return w.cp(rv).toCoordSys(W.B.CoordSys(W.arr([0, 0, .1])))


@O.op("c16.halves")
def halves(w, rv):
    n = len(w[rv]) // 2
    return W.B.concatenateRayVectors([w[rv][:n], w[rv][n:]])


@O.op("c16.load")
def load(w, n, c=0):
    if n.startswith("nowhere"):
        n = "%r%s" % (c, n)         # another one each time
    return W.B.Optic.fromYaml(n) if n.endswith("yaml") else W.B.TableMedium.fromTxt(n)


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    gpu = r.random() < .25
    ws = g.world(small=True)
    h, rvs = g.steps(ws, r.choice([3, 6, 12]))
    faults = [[r.randrange(len(h)), r.choice(KINDS), int(2 ** r.uniform(0, 9))] for _ in range(r.choice([0, 0, 1, 2]))]
    return dict(world=ws, hist=h, rvs=rvs, chain=g.chain(ws), faults=[] if gpu else faults, zygote="gpu" if gpu else "host", limit=1)


class Tracer(inject.Tracer):
    """Acts at event k or the first after it at which no exception is being handled: one that a trace function raises just there makes the interpreter itself (3.12) lose a reference, as a signal does not."""

    def hit(self, frame):
        todo = [k for k in self.actions if k <= self.n]
        if todo and (sys.exc_info()[1] is not None or frame.f_lasti in handlers(frame.f_code)):
            self.n += 1
            return
        if todo and self.n not in self.actions:
            self.actions[self.n] = self.actions[todo[0]]
        for k in todo:
            if k != self.n:
                del self.actions[k]
        super().hit(frame)
        self.actions.pop(self.n - 1, None)


@functools.lru_cache(None)
def handlers(code):
    return frozenset(e.target for e in dis.Bytecode(code).exception_entries)


def vary(x, c, inside=None):
    """The same with slightly other numbers, so that a cache of everything seen grows; what bounded tables are indexed by stays."""
    if isinstance(x, float):
        return x * (1 + 1e-9 * c) if x else 1e-12 * c
    if isinstance(x, list):
        if x and x[0] in ("Zernike", "TableMedium", "Bicubic", "yaml", "Lattice"):
            return x
        return [vary(q, c) for q in x]
    if isinstance(x, dict):
        return {k: v if k in KEEP else vary(v, c) for k, v in x.items()}
    return x


def cycle(plan, c, rt, rec, kept):
    w = O.World()
    w.names = {n for n, _ in plan["world"]} | set(plan["rvs"])
    for n, s in plan["world"]:
        w.add(n, vary(s, c))
    at = {i: (k, n) for i, k, n in plan["faults"]}
    outcome = []
    for i, s in enumerate(plan["hist"]):
        s = vary(s, c)
        kind, n = at.get(i, (None, 0))
        err = None
        try:
            if kind is None:
                H.step(w, s)
            elif kind in ("ki", "mem"):
                def boom():
                    raise (c07.NoMemory if kind == "mem" else c07.Interrupt)("injected")
                tr = Tracer(W.B, {n: boom})
                try:
                    tr.run(H.step, w, s)
                finally:
                    rec.faults["interrupt or MemoryError inside an operation"] += tr.fired
            elif kind == "np":
                rt.np_fail(n // 4)
                try:
                    H.step(w, s)
                finally:
                    rec.faults["failed array allocation"] += rt.lib.dst_np_failed() > 0
                    rt.np_fail(-1)
            else:
                f0 = rt.stats()["new_fail"]
                rt.new_fail(n // 32)
                try:
                    H.step(w, s)
                finally:
                    rt.new_fail(-1)
                    rec.faults["failed C++ allocation"] += rt.stats()["new_fail"] > f0
        except BaseException as e:
            err = type(e).__name__
        outcome.append(err)
    for n, o in plan.get("chain", ()):
        try:
            out = O.run(kept, vary(o, c))
        except O.EXC:
            continue
        out = [x for x in O.flatten(out if isinstance(out, (list, tuple)) else [out]) if type(x) is type(kept[n])]
        if out:
            kept.o[n] = out[0]
    return outcome


def rooted():
    """How many objects batoid's modules, classes and functions lead to (caches, registries, defaults, closures)."""
    todo = [m for n, m in sys.modules.items() if (n == "batoid" or n.startswith("batoid.")) and m is not None]
    mine = set(map(id, todo))
    seen = set(mine)
    while todo:
        for o in gc.get_referents(todo.pop()):
            if id(o) in seen or isinstance(o, types.ModuleType):
                continue
            if isinstance(o, (type, types.FunctionType)) and not str(getattr(o, "__module__", "")).startswith("batoid"):
                continue
            if isinstance(o, dict) and o.get("__name__") is not None and "__spec__" in o and not str(o["__name__"]).startswith("batoid"):
                continue        # another module's namespace, by way of a function's
            seen.add(id(o))
            todo.append(o)
    return len(seen)


def held(rt):
    gc.collect()
    gc.collect()
    blocks, size, dev, maps = rt.live()
    n = Counter()
    for o in gc.get_objects():
        t = type(o)
        if getattr(t, "__module__", "").startswith("batoid"):
            n[t.__name__] += 1
    return (blocks, size, dev, maps, sum(n.values()), len(os.listdir("/proc/self/fd")), threading.active_count(), rooted()), n


def run(plan, rec, B, rt):
    rt.serial()
    threads(plan.get("limit", 1))
    log = np.zeros((LONG, len(HELD)), dtype=np.int64)       # what is held, noted without holding more
    rt.np_allocator()
    rt.mem(1)
    gc.disable()
    rec.sample = dict(hist=plan["hist"][:4], faults=plan["faults"])
    rec.steps += len(plan["hist"])
    kinds = []
    kept = O.World()            # what is used on and on: each time replaced by what is made from it
    names = {x for l in plan.get("chain", ()) for x in O.flatten(l) if isinstance(x, str)}
    full = O.World(plan["world"] if names else ())
    kept.o = {n: x for n, x in full.o.items() if n in names}
    del full

    def once(c):
        with np.errstate(all="ignore"):
            out = cycle(plan, c, rt, rec, kept)
        if c >= WARM + WATCH and c % 5 and c != LONG - 1:
            log[c] = log[c - 1]
            return out
        x, n = held(rt)
        log[c] = x
        if c in (WARM, LONG - 1):
            kinds.append(n)
        rec.evals += 1
        return out
    out = None
    for c in range(WARM + WATCH):
        out = once(c)
        if c >= WARM and (log[c] <= log[c - 1]).all():
            break
    else:
        rec.stats["histories repeated at length"] += 1
        for c in range(WARM + WATCH, LONG):
            once(c)
            if c % 5 == 0 and not grows(log[:c + 1]):
                break
    g = grows(log) if c == LONG - 1 else ()
    for s, e in zip(plan["hist"], out):
        rec.ops[s[0] + (":" + s[1][0] if s[0] in "!?" else "")] += 1
        rec.state(s[0], s[1][0] if s[0] in "!?" else s[2][0] if s[0] == "=" else None, e, plan["zygote"])
    rec.case(plan["hist"], plan.get("chain"), plan["faults"], plan["zygote"])
    rec.see(out)
    if g:
        more = [k for k in kinds[-1] if kinds[-1][k] > kinds[0][k]]
        i = g[0]
        raise Violation(f"repeating the history {LONG} times: {HELD[i]} grew from {log[WARM, i]} to {log[-1, i]} (all: {', '.join(HELD[q] for q in g)}; {more})", f"grows {HELD[i]}")


def grows(log):
    """Which measures have kept growing: over each quarter of a long stretch, or over a short one at all."""
    n = len(log)
    out = []
    for i in range(len(HELD)):
        a = [int(x) for x in log[WARM:, i]]
        if n < LONG:
            if a[-1] > min(a):
                out.append(i)
        else:
            q = [min(a[j * len(a) // 4:(j + 1) * len(a) // 4]) for j in range(4)]
            if all(x < y for x, y in zip(q, q[1:])):
                out.append(i)
    return tuple(out)


def simplify(plan):
    for j in range(len(plan["faults"])):
        yield dict(plan, faults=plan["faults"][:j] + plan["faults"][j + 1:])
