"""C03: a ray's fate does not depend on the batch, the worker or the journey of its work item."""
import pickle, random
import numpy as np
from .. import world as W, ops as O, inject, zygote as Z
from ..harness import Violation, mix, threads
from . import c01

ID = "C03"
ZYGOTES = {"host": dict(flavour="host"), "w1": dict(flavour="host", env={"PYTHONHASHSEED": "1", "OMP_NUM_THREADS": "3"}),
           "w2": dict(flavour="host", env={"PYTHONHASHSEED": "4242", "OMP_NUM_THREADS": "1"})}
SEEDS = {"quick": 3000, "thorough": 20000}
LIMITS = (60, 150)
SHRINK = ("prog", "chunks", "faults")
RULE = ("a case is one work item (some of a bundle's rays, perhaps with foreign rays among them, and the model as bytes) executed by a worker process after a journey with faults, whose rays are compared bit for bit with those "
        "of the whole bundle traced at once in the master; distinct by (program, rays of the chunk, worker history); non-trivial when the chunk is not the whole bundle")
MEASURE = "hashes of (program, chunking, sequence of message events)"
REAL = ["batoid Python package in separate interpreter processes", "batoid C++ (instrumented build)", "pickle", "numpy"]
STUB = ["network and job queue between master and workers (simulated: loss, duplication, reordering, corruption, crash, retry)", "OpenMP runtime (simulated)"]


class Crash(BaseException):
    pass


class Gen(O.OpGen):
    def rayprog(self, ws):
        """In-place operations on the bundle B."""
        r = self.r
        k = self.pick("surf", "surf", "surf", "trace", "trace", "part", "obscure", "toCS", "ctR", "prop")
        if k == "surf":
            o = self.surfop(ws, self.pick("intersect", "reflect", "refract", "refract", "refractScreen", "rSplit"))
            o[3] = "B"
            return o
        if k == "trace":
            return ["trace", self.pick("tel", "lens"), "B", r.random() < .2]
        if k == "part":
            return ["partTrace", self.pick("tel", "lens"), r.randrange(50), "B", self.pick("interact", "intersect", "trace", "reflect", "refract"), r.random() < .2]
        if k == "obscure":
            return ["obscure", self.name(ws, "ob", "pg"), "B", self.pick("fn", "m")]
        if k == "toCS":
            return ["toCoordSys", "B", self.name(ws, "cs", "gcs")]
        if k == "ctR":
            return ["ctRays", "cs0", "cs1", "B", r.random() < .5, "m"]
        return ["propagate", "B", self.u(-3, 6)]

    def last(self, ws):
        r = self.r
        k = self.pick("traceFull", "traceSplit", "traceSplit", "pos", "phase", "amp", "rSplit", "acc", "none", "none", "path")
        if k == "none":
            return []
        if k == "traceFull":
            return [["traceFull", self.pick("tel", "lens"), "B", r.random() < .2]]
        if k == "traceSplit":
            return [["traceSplit", "lens", "B", self.pick(.3, .1, .03), r.random() < .2]]
        if k == "pos":
            return [["positionAtTime", "B", self.u(-3, 3)]]
        if k in ("phase", "amp"):
            return [[{"phase": "phase", "amp": "amplitude"}[k], "B", self.v3(1.), self.u(-1, 1)]]
        if k == "acc":
            return [["accessors", "B"]]
        if k == "path":
            return [[self.pick("tracePath", "traceFullPath"), "lens", "B", self.pick(["S0", "S1"], ["S0", "S1", "S0", "S1"])]]
        o = self.surfop(ws, "rSplit")
        o[3] = "B"
        return [o]


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    big = r.random() < .1
    ws = g.world(small=True)
    n = g.pick(*([64, 100, 257, 64, 100, 257, 1025, 3000] if big else [2, 3, 5, 8, 13, 24]))
    src = g.pick("rt", "rt", "rl", "rv", "rv")
    if src == "rt":
        B = ["telrand", n, r.randrange(1 << 30), [g.u(-.004, .004), g.u(-.004, .004)]] + ([g.style()] if r.random() < .3 else [])
        prog = [["trace", "tel", "B", False]] if r.random() < .6 else []
    elif src == "rl":
        B = g.raydict(n, cs=False, z=1.0, slope=.05)
        prog = [["trace", "lens", "B", False]] if r.random() < .4 else []
    else:
        B, prog = g.raydict(n), []
    if r.random() < .25 and B[0] == "rays":
        B[1]["pvig"], B[1]["pfail"] = .4, .3
    prog += [g.rayprog(ws) for _ in range(r.choice([0, 1, 2, 3]) if prog else r.choice([1, 2, 3]))] + g.last(ws)
    ws = [x for x in ws if not x[0].startswith("r")]
    how = g.pick("contiguous", "contiguous", "strided", "shuffled", "shuffled", "single", "overlap")
    idx = list(range(n))
    k = min(n, g.pick(2, 2, 3, 4, 6))
    if how in ("shuffled", "overlap"):
        r.shuffle(idx)
    if how == "single":
        chunks = [[i] for i in r.sample(idx, min(n, 6))]
        rest = [i for i in idx if [i] not in chunks]
        if rest:
            chunks.append(rest)
    elif how == "strided":
        chunks = [idx[i::k] for i in range(k)]
    else:
        cut = sorted(r.sample(range(1, n), k - 1)) if n > 1 else []
        chunks = [idx[a:b] for a, b in zip([0] + cut, cut + [n])]
    if how == "overlap":
        chunks = [c + r.sample(range(n), r.randint(0, min(3, n))) for c in chunks]
    if r.random() < .05:
        chunks.append([])
    chunks = [[c, [r.randrange(len(c) + 1) for _ in range(r.choice([0, 0, 1, 2, 5]))] if r.random() < .5 else []] for c in chunks]
    faults = []
    nf = g.pick(0, 1, 2, 3, 5)
    for _ in range(nf):
        faults.append([r.randrange(len(chunks)), r.randrange(2), g.pick("lost request", "lost reply", "duplicate", "crash", "crash", "interrupt", "torn request", "torn reply", "late reply"), round(r.random(), 6)])
    workers = [[g.pick("host", "w1", "w1", "w2"), g.pick(1, 1, 2, 3, 5), r.random() < .5] for _ in range(g.pick(1, 2, 3))]
    return dict(world=ws, B=B, prog=prog, chunks=chunks, faults=faults, workers=workers, order=r.randrange(1 << 30), proto=g.pick(2, 4, 5), foreign=r.randrange(1 << 30),
                take=g.pick("index", "mask", "slices", "arrays"), ship=g.pick("object", "object", "derived", "spec"), strategy=g.pick("serial", "random", "perm"), seedx=r.randrange(1 << 40))


def bundle(s, tel):
    """The whole bundle; telrand: scattered rays entering the telescope."""
    B = W.B
    if s[0] != "telrand":
        return W.build(s)
    if len(s) > 4:
        w = O.World()
        w.o["tel"] = tel
        return O.scatter(w, "tel", *s[1:])
    g = W.rs(s[2])
    n = s[1]
    p = getattr(tel, "pupilSize", 2.)
    rr, th = .5 * p * np.sqrt(g.uniform(.05, 1.05, n)), g.uniform(0, 2 * np.pi, n)
    rv = B.RayVector.fromStop(rr * np.cos(th), rr * np.sin(th), optic=tel, wavelength=6e-7, theta_x=s[3][0], theta_y=s[3][1])
    return B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, rv.t, g.choice([5e-7, 6.2e-7, 7.4e-7], n), g.uniform(.5, 2, n), g.random(n) < .05, g.random(n) < .03, rv.coordSys)


def execute(w, prog):
    """What a program returns for the bundle B of the world."""
    out = None
    w.inplace = True
    with np.errstate(all="ignore"):
        for o in prog:
            out = O.run_safe(w, o)
            if isinstance(out, Exception) and o[0] == "partTrace":
                out = None
            if isinstance(out, Exception):
                break
    return out


def pack(x):
    """Results as plain trees: ('rv', 11 arrays, coordSys, path), arrays, containers."""
    B = W.B
    if isinstance(x, B.RayVector):
        return ("rv", [np.array(getattr(x, f)) for f in W.RV_FIELDS], x.coordSys, getattr(x, "path", None))
    if isinstance(x, dict):
        return ("d", [(k, pack(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return ("l", [pack(v) for v in x])
    if isinstance(x, Exception):
        return ("exc", type(x).__name__)
    if isinstance(x, (np.ndarray, int, str)) or x is None:
        return ("a", x)
    return ("o", x)


def work(msgs, seed, limit, strategy):
    """One life of a worker process: the messages it got, in order.  Returns its replies."""
    rt, B = Z.RT, W.B
    rt.config(seed=seed, strategy=dict(c01.STRATS, serial=0)[strategy], grant=0, gap=100, cap=8)
    threads(limit)
    model = None
    out = []
    for kind, item, b, at in msgs:
        if kind == "model":
            model = b
            objs = pickle.loads(b)
            continue
        try:
            prog, fresh, sp, rb = pickle.loads(b)
            if sp is not None:
                objs = {n: W.build(s) for n, s in sp}
            elif fresh:
                objs = pickle.loads(model)
            w = O.World()
            w.o.update(objs)
            w.o["B"] = pickle.loads(rb)
        except Exception as e:
            if kind == "torn":
                out.append((item, None, "refused"))
                continue
            raise
        if kind == "torn":
            out.append((item, None, "accepted"))
            continue

        def boom():
            raise Crash
        try:
            if kind in ("crash", "interrupt"):
                tr = inject.Tracer(B, {int(at * 200): boom})
                x = tr.run(execute, w, prog)
            else:
                x = execute(w, prog)
        except Crash:
            if kind == "crash":
                return out
            out.append((item, None, "interrupted"))
            continue
        res = [x, w.o["B"]]
        paths = [getattr(v, "path", None) for v in O.flatten(res) if isinstance(v, B.RayVector)]
        out.append((item, pickle.dumps([res, paths], protocol=max(2, 5 - len(out) % 4)), "done"))
        if kind == "crash":
            return out[:-1]
    return out


def take(rv, idx, how):
    B = W.B
    if how == "arrays" or not len(idx):
        i = np.array(idx, dtype=int)
        return B.RayVector._directInit(*[np.array(getattr(rv, f)[i]) for f in W.RV_FIELDS], rv.coordSys) if len(idx) == 0 else \
            B.RayVector(*[getattr(rv, f)[i] for f in W.RV_FIELDS], rv.coordSys)
    if how == "slices":
        d = np.diff(idx)
        if len(idx) > 1 and (d == d[0]).all() and d[0]:
            stop = idx[-1] + (1 if d[0] > 0 else -1)
            return rv[slice(idx[0], None if stop < 0 else stop, int(d[0]))]
        return B.concatenateRayVectors([rv[i] for i in idx])
    if how == "mask" and list(idx) == sorted(set(idx)):
        m = np.zeros(len(rv), bool)
        m[list(idx)] = True
        return rv[m]
    return rv[np.array(idx)]


def foreign(rv, n, seed):
    """Rays of other bundles that happen to travel along: harmless ones and ones that fail everywhere."""
    B = W.B
    g = W.rs(seed)
    i = g.integers(0, len(rv), n)
    f = [np.array(getattr(rv, k)[i]) for k in W.RV_FIELDS]
    k = g.integers(5, size=n)
    for j in range(n):
        if k[j] == 0:
            f[0][j] += 1e3
        elif k[j] == 1:
            f[3][j] = np.nan
        elif k[j] == 2:
            f[5][j] *= -1
        elif k[j] == 3:
            f[9][j] = True
        else:
            f[10][j] = True
    return B.RayVector(*f, rv.coordSys)


def run(plan, rec, B, rt):
    rec.sample = dict(prog=plan["prog"], chunks=[c[0][:6] for c in plan["chunks"]], faults=plan["faults"])
    rt.serial()
    threads(1)
    specs = plan["world"]
    w = O.World(specs)
    if plan["ship"] == "derived":
        w.o["tel"] = w["tel"].withGlobalShift([1e-4, 0., 0.]).withLocalRotation(B.RotX(1e-5))
    models = dict(w.o)
    whole = bundle(plan["B"], w["tel"])
    n = len(whole)
    names = c01.names_in(plan["prog"], set()) & set(models)
    mb = pickle.dumps({k: models[k] for k in sorted(names)}, protocol=plan["proto"])
    sp = None
    if plan["ship"] == "spec":
        sp = [[k, s] for k, s in specs if k in names]
    # ---- work items
    items = []
    for c, (idx, gaps) in enumerate(plan["chunks"]):
        idx = [i for i in idx if i < n]
        rv = take(whole, idx, plan["take"])
        pos = list(range(len(idx)))
        if gaps and len(idx):
            f = foreign(whole, len(gaps), plan["foreign"] + c)
            order = [("m", j) for j in range(len(idx))]
            for j, at in enumerate(gaps):
                order.insert(min(at, len(order)), ("f", j))
            both = B.concatenateRayVectors([rv, f])
            sel = [j if k == "m" else len(idx) + j for k, j in order]
            rv = both[np.array(sel)]
            pos = [i for i, (k, j) in sorted(((i, x) for i, x in enumerate(order) if x[0] == "m"), key=lambda t: t[1][1])]
            rec.faults["foreign rays in the batch"] += len(gaps)
        d = W.diff(W.canon(take(whole, idx, "arrays")), W.canon(rv[np.array(pos, dtype=int)] if gaps and len(idx) else rv)) if len(idx) else None
        if d:
            raise Violation(f"taking rays {idx[:9]} out of the bundle ({plan['take']}): {d}", "chunking")
        items.append((idx, pos, pickle.dumps(rv, protocol=plan["proto"])))
    # ---- the journey: a discrete-event simulation of the queue, the network and the workers
    g = random.Random(plan["order"])
    pend = [[f[0], f[1], f[2], f[3]] for f in plan["faults"]]
    lives = [[wk] for wk in plan["workers"]]     # current life of each worker: [spec, messages...]
    done = []                                    # finished lives
    replies, lost, late = {}, set(), []
    events = []
    todo = [(c, 0) for c in range(len(items))]
    g.shuffle(todo)

    def send(k, kind, c, b, at=0.0):
        if len(lives[k]) == 1 and sp is None:
            lives[k].append(("model", None, mb, 0))
        lives[k].append((kind, c, b, at))
    msg = [pickle.dumps((plan["prog"], plan["workers"][0][2], sp, it[2]), protocol=plan["proto"]) for it in items]
    want = {c: set() for c in range(len(items))}
    while todo:
        c, att = todo.pop(0)
        k = g.randrange(len(lives))
        f = next((x for x in pend if x[0] == c and x[1] <= att), None)
        if f:
            pend.remove(f)
        kind = f[2] if f else "ok"
        events.append((c, att, k, kind))
        if f:
            rec.faults[kind] += 1
        if kind == "lost request":
            todo.insert(g.randrange(len(todo) + 1), (c, att + 1))
        elif kind == "duplicate":
            send(k, "item", c, msg[c])
            send(g.randrange(len(lives)), "item", c, msg[c])
        elif kind in ("crash", "interrupt"):
            send(k, kind, c, msg[c], f[3])
            if kind == "crash":
                done.append(lives[k])
                lives[k] = [plan["workers"][k]]
                rec.faults["worker restarted"] += 1
            todo.insert(g.randrange(len(todo) + 1), (c, att + 1))
        elif kind == "torn request":
            send(k, "torn", c, msg[c][:int(len(msg[c]) * f[3])])
            todo.insert(g.randrange(len(todo) + 1), (c, att + 1))
        elif kind in ("lost reply", "torn reply", "late reply"):
            send(k, "item", c, msg[c])
            todo.insert(g.randrange(len(todo) + 1), (c, att + 1))
        else:
            send(k, "item", c, msg[c])
    lives = done + [l for l in lives if len(l) > 1]
    allr = []
    for j, (wk, *msgs) in enumerate(lives):
        rep = Z.call(Z.zyg(wk[0]), __name__, "work", msgs, mix(plan["seedx"], j), wk[1], plan["strategy"])
        if rep["status"] != 0:
            raise Violation(f"worker {j} ({wk}) died handling {[m[:2] for m in msgs]}: {rep['status']} {rep['err'][-400:]}", "worker died")
        for x in rep["result"]:
            allr.append((x, wk, [m[:2] for m in msgs]))
        rec.faults["worker lives"] += 1
    g.shuffle(allr)         # replies arrive in any order
    # ---- the whole bundle at once
    ref = O.World()
    ref.o.update(models)
    ref.o["B"] = whole.copy()
    x = execute(ref, plan["prog"])
    whole_res = pack([x, ref.o["B"]])
    got = {c: 0 for c in range(len(items))}
    once = {}
    for (c, b, state), wk, hist in allr:
        rec.stats["reply " + state] += 1
        if state == "accepted":
            raise Violation(f"a torn request for item {c} was accepted", "torn accepted")
        if b is None:
            continue
        idx, pos, _ = items[c]
        res, paths = pickle.loads(b)
        rvs = [v for v in O.flatten(res) if isinstance(v, B.RayVector)]
        for v, p in zip(rvs, paths):
            if p is not None:
                v.path = p
        got[c] += 1
        part = once[c] = pack(res)
        rec.evals += 1
        if len(idx) < n or plan["chunks"][c][1]:
            rec.case(plan["prog"], idx, hist)
        nb = len(idx) + len(plan["chunks"][c][1] if len(idx) else [])
        d = match(whole_res, part, idx, pos, n, nb, bool(plan["chunks"][c][1]))
        if d:
            raise Violation(f"item {c} (rays {idx[:8]}{'...' if len(idx) > 8 else ''} of {n}{' with foreign rays' if plan['chunks'][c][1] else ''}) by worker {wk} after {hist}, program {plan['prog']}: whole vs item: {d}",
                            f"differs {plan['prog'][-1][0] if plan['prog'] else ''}")
        rec.see(c, W.digest(W.canon(rvs[-1])))
    missing = [c for c in got if not got[c]]
    if missing:
        raise Violation(f"items {missing} never completed although faults stopped", "no progress")
    # ---- the rays of a split trace, path by path, over all items
    whole_once = sorted(i for it in items for i in it[0]) == list(range(n)) and all(not c[1] for c in plan["chunks"])
    if whole_once and plan["prog"] and plan["prog"][-1][0] == "traceSplit" and split(whole_res[1][0]):
        tot = {}
        for c, part in once.items():
            if len(items[c][0]):
                for k, v in table(part[1][0]).items():
                    tot.setdefault(k, []).extend(v)
        ta = table(whole_res[1][0])
        rec.evals += 1
        if {k: sorted(v) for k, v in tot.items()} != ta:
            raise Violation(f"split trace of the whole: {({k[1]: len(v) for k, v in ta.items()})} rays, of the items together: {({k[1]: len(v) for k, v in tot.items()})} (or other values)", "split rays lost")
    # ---- reassembly through batoid itself
    if whole_once:
        parts = {}
        for (c, b, state), wk, hist in allr:
            if b is not None and len(items[c][0]):
                parts[c] = pickle.loads(b)[0][1]
        al = [(i, c, j) for c, it in enumerate(items) for j, i in enumerate(it[0])]
        if parts and len({i for i, _, _ in al}) == n:
            order = sorted(parts)
            cat = B.concatenateRayVectors([parts[c] for c in order])
            flat = [i for c in order for i in items[c][0]]
            inv = np.argsort(np.array(flat))
            d = W.diff(W.canon(ref.o["B"]), W.canon(cat[inv]))
            d = d if d and "path" not in d.split(":")[0] else None
            rec.evals += 1
            if d:
                raise Violation(f"reassembled bundle differs from the whole: {d}", "reassembly")
    rec.ops.update(o[0] for o in plan["prog"])
    rec.state(plan["prog"], plan["chunks"], events)
    rec.steps += len(events)


def rows(a):
    a = np.ascontiguousarray(a)
    if a.dtype.kind == "f":
        a = np.array(a)
        a[np.isnan(a)] = np.nan
    return a


def match(a, b, idx, pos, n, nb, foreign):
    """Compare the rays idx of result a (whole bundle of n) with the rays at pos of result b (batch of nb)."""
    if a[0] != b[0]:
        if len(idx) == 0:
            return None
        return f"{str(a)[:80]} vs {str(b)[:80]}"
    if a[0] == "exc":
        return None if a[1] == b[1] else f"{a[1]} vs {b[1]}"
    if a[0] == "rv":
        if a[2] != b[2]:
            return f"coordSys {a[2]} vs {b[2]}"
        if len(a[1][0]) == n and len(b[1][0]) == nb:
            for f, x, y in zip(W.RV_FIELDS, a[1], b[1]):
                d = arrays(x, y, idx, pos)
                if d:
                    return f"{f}{d}"
            return None
        return f"{len(b[1][0])} rays from a batch of {nb}"
    if a[0] == "d":
        if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
            return f"keys {[k for k, _ in a[1]]} vs {[k for k, _ in b[1]]}"
        for (k, x), (_, y) in zip(a[1], b[1]):
            d = match(x, y, idx, pos, n, nb, foreign)
            if d:
                return f"{k}: {d}"
        return None
    if a[0] == "l":
        if split(a) or split(b):
            return paths(a, b, idx, n, foreign)
        if len(a[1]) != len(b[1]):
            return f"{len(a[1])} vs {len(b[1])} results"
        for x, y in zip(a[1], b[1]):
            d = match(x, y, idx, pos, n, nb, foreign)
            if d:
                return d
        return None
    if isinstance(a[1], np.ndarray) and isinstance(b[1], np.ndarray) and a[1].ndim and len(a[1]) == n and len(b[1]) == nb:
        return arrays(a[1], b[1], idx, pos)
    if isinstance(a[1], int) and a[1] == n:
        return None if b[1] == nb else f"{b[1]} of {nb}"
    return None


def split(t):
    """The result of a traceSplit: lists of bundles with paths (possibly none left)."""
    return t[0] == "l" and len(t[1]) == 2 and all(x[0] == "l" and all(y[0] == "rv" and y[3] is not None for y in x[1]) for x in t[1])


def table(t, keep=None):
    """{(direction, path): sorted rows}"""
    out = {}
    for d, x in enumerate(t[1]):
        for y in x[1]:
            m = np.stack([np.asarray(v, dtype=float) for v in y[1]], axis=1)
            m[np.isnan(m)] = np.nan
            out.setdefault((d, tuple(y[3])), []).extend(r.tobytes() for r in m)
    return {k: sorted(v) for k, v in out.items() if v}


def paths(a, b, idx, n, foreign):
    """The rays of a batch are among those of the whole, path by path (the rest by counting the whole's)."""
    ta, tb = table(a), table(b)
    if foreign:
        return None
    for k, v in tb.items():
        w = list(ta.get(k, []))
        for r in v:
            if r in w:
                w.remove(r)
            elif len(set(idx)) == len(idx):
                return f"path {k[1]}: a ray that the whole bundle does not have"
            elif r not in ta.get(k, []):
                return f"path {k[1]}: a ray that the whole bundle does not have"
    if sorted(idx) == list(range(n)) and tb != ta:
        return "other rays than the whole bundle"
    return None


def arrays(x, y, idx, pos):
    x, y = rows(np.asarray(x)[np.array(idx, dtype=int)]), rows(np.asarray(y)[np.array(pos, dtype=int)])
    if x.dtype != y.dtype or x.shape != y.shape:
        return f": {x.dtype}{x.shape} vs {y.dtype}{y.shape}"
    if x.tobytes() != y.tobytes():
        w = np.argwhere(~((x == y) | ((x != x) & (y != y))))
        if len(w):
            i = tuple(w[0])
            return f"[ray {idx[i[0]]}]: {x[i]!r} vs {y[i]!r} ({len(w)} differ)"
        return ": signed zeros differ"
    return None


def simplify(plan):
    if plan["strategy"] != "serial":
        yield dict(plan, strategy="serial")
    for k, v in (("take", "arrays"), ("ship", "object")):
        if plan[k] != v:
            yield dict(plan, **{k: v})
    if len(plan["workers"]) > 1:
        yield dict(plan, workers=plan["workers"][:1])
    if any(c[1] for c in plan["chunks"]):
        yield dict(plan, chunks=[[c[0], []] for c in plan["chunks"]])
    used = c01.names_in(plan["prog"], set()) | {"tel"}
    ws = [x for x in plan["world"] if x[0] in used]
    if len(ws) < len(plan["world"]):
        yield dict(plan, world=ws)
