"""C13: random bundles are a function of their seed or generator and of nothing else; unseeded ones are fresh."""
import contextlib, gc, hashlib, os, random, secrets, time
import numpy as np
from .. import world as W, ops as O, inject, zygote as Z
from ..harness import Violation, mix, threads
from .c05 import Sched

ID = "C13"
ZYGOTES = {"host": dict(flavour="host"), "w1": dict(flavour="host", env={"PYTHONHASHSEED": "1", "OMP_NUM_THREADS": "3"}),
           "w2": dict(flavour="host", env={"PYTHONHASHSEED": "4242", "OMP_NUM_THREADS": "1"})}
SEEDS = {"quick": 2600, "thorough": 60000}
LIMITS = (60, 150)
SHRINK = ("users",)
SCRIPTED = True
RULE = ("a case is one randomly sampled bundle of a history: a seeded one was compared (with the state its generator was left in) with the bundle built by replaying that seed's or generator's operations alone in another process; an unseeded one was compared with "
        "every other sample of the history and of the other processes and with the region asked for; non-trivial when something else ran between the operations on its generator; distinct by (call, seed or generator kind, what came in between)")
MEASURE = "hashes of the merged order of operations (and of context switches when the users are threads)"
REAL = ["batoid Python package in separate interpreter processes", "numpy.random", "batoid C++ (instrumented build)", "CPython threads (real, released one at a time)"]
STUB = ["operating system entropy (seeded stream)", "clocks (stalled or stepping back)", "process ids (constant)", "thread scheduling (seeded scheduler)", "signal delivery (exception raised at a trace event)", "OpenMP runtime (simulated)"]

BG = ("PCG64", "PCG64", "MT19937", "Philox", "SFC64", "PCG64DXSM")
INTS = (0, 0, 1, 5, 5, 57721, 57721, 2**63, 2**70 + 3, 12345)


class Interrupt(KeyboardInterrupt):
    pass


# ------------------------------------------------------------------ plans
class Gen(O.OpGen):
    def call(self):
        """A sampling call: constructor, optic or None, keywords."""
        r = self.r
        k = dict(wavelength=self.pick(500e-9, 620e-9), nrandom=self.pick(1, 2, 5, 9, 17, 64))
        if r.random() < .5:
            k["theta_x"], k["theta_y"] = self.u(-.003, .003), self.u(-.003, .003)
        else:
            k["dirCos"] = [self.u(-.1, .1), self.u(-.1, .1), -1.0]
        opt = self.pick("tel", "tel", None, None)
        if r.random() < .3:
            k["flux"] = self.u(1, 3)
        if r.random() < .4:
            k["backDist"] = self.u(5, 20)
        if r.random() < .3:
            k["coordSys"] = ["CoordSys", [self.u(-1, 1), self.u(-1, 1), self.u(-1, 1)], [self.u(-.1, .1), self.u(-.1, .1), 0]]
        if r.random() < .3:
            k["stopSurface"] = ["optic", dict(type="Interface", surface=self.pick(["Plane"], ["Plane"], ["Paraboloid", 30.0]), name="stop", coordSys=["CoordSys", [self.u(-.2, .2), 0, self.u(-1, 1)]])]
        if r.random() < .5:
            if opt is None or r.random() < .4:
                k["outer"] = self.u(.5, 2)
            if r.random() < .5:
                k["inner"] = self.u(.1, .4)
            return ["asPolar", opt, k]
        if opt is None or r.random() < .4:
            k["lx"] = self.pick(self.u(.5, 3), [self.u(.5, 3), self.u(-.5, .5)])
            if r.random() < .5:
                k["ly"] = self.pick(self.u(.5, 3), [self.u(-.5, .5), self.u(.5, 3)])
        k["nx"] = self.pick(1, 2, 5)
        if r.random() < .3:
            k["ny"] = self.pick(1, 3)
        return ["asGrid", opt, k]

    def user(self, me, ws, calls, gens, both):
        """A program: ["s", call, rng, interrupt] samples, ["d", gen, how] draws, ["q", op] queries, ["b", n] many unseeded samples."""
        r = self.r
        out = []
        for _ in range(r.choice([1, 2, 4, 7])):
            x = r.random()
            c = r.choice(calls)
            if x < .62:
                y = r.random()
                if y < .35:
                    rng = ["int", r.choice(INTS)]
                elif y < .8 and gens:
                    rng = ["gen", r.choice(gens)]
                else:
                    rng = None
                out.append(["s", c, rng, round(r.random(), 6) if r.random() < .1 else None])
            elif x < .82 and gens + both:
                out.append(["d", r.choice(gens + both), self.pick("uniform", "normal", "integers", "random1", "shuffle", "reseed"), r.randrange(1, 9)])
            elif x < .9:
                out.append(["q", self.query(ws, analyses=.3, derive=.1)])
            elif x < .96:
                out.append(["gc"])
            else:
                out.append(["clock", self.pick(-3600., 0., 1e-9, 86400.)])
        return out


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    ws = [x for x in g.world(small=True) if x[0] in ("tel", "s0", "m0", "tm", "c0", "cs0", "gcs", "lat", "rv0", "rl", "lens", "scr", "m1", "s1", "cs1", "rv1", "ob0", "pg", "rt0")]
    mode = g.pick("merge", "merge", "threads")
    n = r.choice([1, 2, 2, 3])
    gens = {f"g{i}": [r.choice(BG), r.choice(INTS), r.randrange(3)] for i in range(r.choice([1, 2, 3]))}
    calls = [g.call() for _ in range(r.choice([1, 2, 3]))]
    users = []
    names = sorted(gens)
    for i in range(n):
        mine = names if mode == "merge" else [x for j, x in enumerate(names) if j % n == i]
        both = ["G", "P"] if mode == "merge" else ["G"] if i == 0 else ["P"] if i == 1 else []
        users.append(g.user(i, ws, calls, mine, both))
    big = None
    if r.random() < .12:
        big = g.call()
        big[2]["nrandom"] = 3000
        for k in ("coordSys", "stopSurface"):
            big[2].pop(k, None)
    order = r.randrange(1 << 40)
    return dict(world=ws, mode=mode, gens=gens, users=users, big=big, order=order, entropy=r.randrange(1 << 40), threads=r.choice([1, 1, 2, 4]),
                where=[g.pick("host", "w1", "w2") for _ in range(2)],
                sched=dict(kind=g.pick("random", "rr", "novel", "pct"), seed=r.randrange(1 << 40), p=g.pick(.02, .2, 1.0), quantum=g.pick(1, 3, 11), depth=g.pick(1, 3), horizon=600, opcodes=r.random() < .3))


# ------------------------------------------------------------------ the host the samplers run on
@contextlib.contextmanager
def host(seed):
    """Entropy, clock and process id under control."""
    st = [0]
    t = [1.7e9]

    def urandom(n):
        st[0] += 1
        return hashlib.shake_128(b"%d %d" % (seed, st[0])).digest(n)
    old = []

    def put(o, a, v):
        if hasattr(o, a):
            old.append((o, a, getattr(o, a)))
            setattr(o, a, v)
    put(os, "urandom", urandom)
    put(os, "getrandom", lambda n, flags=0: urandom(n))
    put(random, "_urandom", urandom)
    put(os, "getpid", lambda: 1)
    for a in ("time", "monotonic", "perf_counter", "process_time"):
        put(time, a, lambda: t[0])
        put(time, a + "_ns", lambda: int(t[0] * 1e9))
    try:
        yield t, st
    finally:
        for o, a, v in reversed(old):
            setattr(o, a, v)


def mkgen(spec):
    k, s, how = spec
    bg = getattr(np.random, k)
    if how == 2:
        s = np.random.SeedSequence(s).spawn(2)[1]
    g = np.random.Generator(bg(s))
    if how == 1:
        g.random(3)
    return g


def freeze(x):
    """A comparable picture of a generator's or global state."""
    if isinstance(x, dict):
        return {k: freeze(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return tuple(freeze(v) for v in x)
    if isinstance(x, np.ndarray):
        return (str(x.dtype), x.tobytes())
    return x


class Hosted:
    """The random number sources of one process."""

    def __init__(self, gens):
        self.g = {n: mkgen(s) for n, s in gens.items()}

    def state(self, n):
        if n == "G":
            return freeze(np.random.get_state(legacy=False))
        if n == "P":
            return freeze(random.getstate())
        return freeze(self.g[n].bit_generator.state)

    def draw(self, n, how, k):
        if n == "P":
            if how == "reseed":
                random.seed(k)
            return [random.random() for _ in range(k)] if how != "normal" else [random.gauss(0, 1) for _ in range(k)]
        if n == "G":
            m = np.random
            if how == "reseed":
                m.seed(k)
        else:
            m = self.g[n]
        if how == "normal":
            return m.normal(size=k)
        if how == "integers":
            return m.integers(0, 100, size=k) if n != "G" else m.randint(0, 100, size=k)
        if how == "shuffle":
            a = np.arange(k + 3)
            m.shuffle(a)
            return a
        if how == "random1":
            return m.random()
        return m.uniform(size=k)


def kwargs(call, w):
    k = dict(call[2])
    for a in ("coordSys", "stopSurface"):
        if a in k:
            k[a] = W.build(k[a])
    if isinstance(k.get("lx"), list):
        k["lx"] = np.array(k["lx"])
    if isinstance(k.get("ly"), list):
        k["ly"] = np.array(k["ly"])
    if "dirCos" in k:
        k["dirCos"] = np.array(k["dirCos"])
    if call[1]:
        k["optic"] = w.o[call[1]]
    return k


def sample(w, hs, call, rng, at=None):
    """Outcome of a sampling call: ("rays", stop coordinates, canonical bundle) or ("interrupted",) or ("error", ...)."""
    B = W.B
    k = kwargs(call, w)
    if rng is not None:
        k["rng"] = rng[1] if rng[0] == "int" else hs.g[rng[1]]
    f = getattr(B.RayVector, call[0])
    try:
        if at is not None:
            def boom():
                raise Interrupt("injected")
            rv = inject.Tracer(B, {int(at * 60): boom}).run(f, **k)
        else:
            rv = f(**k)
    except Interrupt:
        return ("interrupted",)
    except Exception as e:
        return ("error", type(e).__name__, str(e)[:200])
    return ("rays", points(rv, call, k, w), W.canon(rv))


def points(rv, call, k, w):
    """Where the rays cross the stop, or None where that is not simple."""
    B = W.B
    st = k.get("stopSurface")
    if st is None:
        st = getattr(w.o[call[1]], "stopSurface", None) if call[1] else None
        if st is None:
            st = B.Interface(B.Plane())
    r = B.RayVector(rv.x, rv.y, rv.z, rv.vx, rv.vy, rv.vz, coordSys=rv.coordSys).toCoordSys(st.coordSys)
    pos, v = np.array(r.r), np.array(r.v)
    if isinstance(st.surface, B.Plane):
        t = -pos[:, 2] / v[:, 2]
        return (pos + v * t[:, None])[:, :2]
    return None


def unit(call, pts, w):
    """Sampled points in the coordinates of the unit square that the region is the image of."""
    k = call[2]
    o = w.o[call[1]] if call[1] else None
    if call[0] == "asPolar":
        outer = k["outer"] if "outer" in k else o.pupilSize / 2
        inner = k["inner"] if "inner" in k else o.pupilSize * o.pupilObscuration / 2 if o is not None and hasattr(o, "pupilObscuration") else 0.0
        u = (np.sum(pts ** 2, axis=1) - inner ** 2) / (outer ** 2 - inner ** 2)
        return np.stack([u, np.arctan2(pts[:, 1], pts[:, 0]) / (2 * np.pi) % 1.0])
    lx = k["lx"] if "lx" in k else o.pupilSize
    if "ly" in k:
        ly = k["ly"]
    else:
        ly = lx if not isinstance(lx, list) else [-lx[1], lx[0]]
    lx = [lx, 0.0] if not isinstance(lx, list) else lx
    ly = [0.0, ly] if not isinstance(ly, list) else ly
    # x = lx . (u, v), y = ly . (u, v)
    return np.linalg.solve(np.array([lx, ly]), pts.T) + .5


def inside(u):
    return u.min() > -1e-7 and u.max() < 1 + 1e-7 and np.all(np.isfinite(u))


def uniform(u):
    """None, or how the points fail to look like independent uniform ones (each test has odds below 1e-12)."""
    n = u.shape[1]
    for i, c in enumerate("first second".split()):
        x = np.sort(u[i])
        d = max(np.max(np.arange(1, n + 1) / n - x), np.max(x - np.arange(n) / n)) * np.sqrt(n)
        if d > 4:
            return f"{c} coordinate is not uniform (KS {d:.2f})"
        a = u[i] - .5
        for lag in (1, 2, 3):
            c2 = np.mean(a[lag:] * a[:-lag]) * 12 * np.sqrt(n)
            if abs(c2) > 8:
                return f"{c} coordinates of neighbouring rays are correlated ({c2:.1f} sigma)"
    c2 = np.mean((u[0] - .5) * (u[1] - .5)) * 12 * np.sqrt(n)
    if abs(c2) > 8:
        return f"coordinates are correlated ({c2:.1f} sigma)"
    h = np.histogram2d(u[0], u[1], bins=5, range=[[0, 1], [0, 1]])[0]
    chi = float(np.sum((h - n / 25) ** 2) / (n / 25))
    if chi > 130:
        return f"uneven over the region (chi2 {chi:.0f} for 24)"
    return None


def remote(ws, gens, lines, fresh, entropy, disturb):
    """Elsewhere: every generator's operations alone, in turn; then unseeded samples."""
    Z.RT.serial()
    threads(1)
    random.seed(disturb)
    np.random.seed(disturb)
    w = O.World(ws)
    out, uns = {}, []
    with np.errstate(all="ignore"), host(entropy):
        for n, evs in lines:
            hs = Hosted(gens)
            res = []
            if n == "G":
                np.random.seed(4)
            if n == "P":
                random.seed(4)
            for e in evs:
                if e[0] == "set":
                    if n in hs.g:
                        hs.g[n].bit_generator.state = e[1]
                    continue
                if e[0] == "d":
                    res.append((W.canon(hs.draw(n, e[2], e[3])), hs.state(n)))
                else:
                    res.append((sample(w, hs, e[1], e[2]), hs.state(n) if n in hs.g else None))
            out[n] = res
        for c in fresh:
            uns.append(sample(w, None, c, None))
    return out, uns


# ------------------------------------------------------------------ run
def run(plan, rec, B, rt):
    threads(plan["threads"])
    if plan["threads"] == 1 or plan["mode"] == "threads":
        rt.serial()
    else:
        rt.config(seed=plan["order"], strategy=1, grant=0)
    gc.disable()
    users, mode = plan["users"], plan["mode"]
    rec.sample = dict(mode=mode, gens=plan["gens"], users=[u[:3] for u in users])
    w = O.World(plan["world"])
    hs = Hosted(plan["gens"])
    np.random.seed(4)
    random.seed(4)
    log = []            # (user, event, outcome, state of its generator afterwards), in order of completion
    bystander = []

    def do(me, e, t):
        """One event of a program; returns nothing, records what was seen."""
        k = e[0]
        if k == "s":
            own = e[2][1] if e[2] is not None and e[2][0] == "gen" else None
            before = {n: hs.state(n) for n in [*hs.g, "G", "P"] if n != own} if mode == "merge" else None
            was = hs.state(own) if own else None
            x = sample(w, hs, e[1], e[2], e[3])
            if before is not None:
                for n, s in before.items():
                    if hs.state(n) != s:
                        who = {"G": "numpy's global random state", "P": "Python's global random state"}.get(n, f"generator {n}")
                        raise Violation(f"{e[1][0]}(rng={e[2]}) {x[0]}: changed {who}", f"disturbs {n[0]}")
            raw = hs.g[own].bit_generator.state if own and x[0] != "rays" else None
            rec.stats["outcome " + x[0] + (" " + x[1] if x[0] == "error" else "")] += 1
            log.append((me, e, x, hs.state(own) if own else None, raw, was))
            if e[3] is not None and x[0] == "interrupted":
                rec.faults["interrupt during a sample"] += 1
        elif k == "d":
            log.append((me, e, W.canon(hs.draw(e[1], e[2], e[3])), hs.state(e[1]), None, None))
        elif k == "q":
            s = (hs.state("G"), hs.state("P")) if mode == "merge" else None
            with np.errstate(all="ignore"):
                O.run_safe(w, e[1])
            if s and s != (hs.state("G"), hs.state("P")):
                raise Violation(f"{e[1]} changed the global random state", "query disturbs")
        elif k == "gc":
            gc.collect()
            rec.faults["garbage collection"] += 1
        elif k == "clock":
            t[0] += e[1]
            rec.faults["clock jump"] += 1
    sw = ()
    with host(plan["entropy"]) as (t, st), np.errstate(all="ignore"):
        if mode == "merge":
            r = random.Random(plan["order"])
            todo = [list(u) for u in users]
            while any(todo):
                i = r.choice([j for j, u in enumerate(todo) if u])
                do(i, todo[i].pop(0), t)
        else:
            s = Sched(B, len(users), plan["sched"], {})
            if plan.get("script") is not None and plan["sched"].get("strategy") == "script":
                s.script = {e[0]: e[1] for e in plan["script"]}
            bad = []

            def body(i):
                def f():
                    with np.errstate(all="ignore"):
                        for e in users[i]:
                            try:
                                do(i, e[:3] + [None] if e[0] == "s" else e, t)
                            except BaseException as x:
                                bad.append(x)
                                return
                return f
            s.run([body(i) for i in range(len(users))])
            if bad:
                raise bad[0]
            sw = s.switches
            rec.stats["context switches"] += len(sw)
            rec.faults["context switch"] += len(sw)
            rec.steps += s.ev
            if plan.get("record"):
                rec.script += [[e, to, fr, list(pl), 0] for e, fr, to, pl in sw]
        big = sample(w, hs, plan["big"], None) if plan["big"] else None
        rec.faults["entropy reads"] += st[0]
        end = {n: hs.state(n) for n in ("G", "P")}
    rec.steps += len(log)
    order = [(me, e) for me, e, *_ in log]
    if order:
        rec.state(order, mix(*[(a, b, p) for _, a, b, p in sw]))
    # project the history on each source of randomness
    lines = {}
    for me, e, x, s, raw, was in log:
        if e[0] == "d":
            lines.setdefault(e[1], []).append((e, x, s))
        elif e[2] is not None:
            if e[2][0] == "int":
                lines.setdefault(repr(e[1:3]), []).append((e, x, s))
            else:
                lines.setdefault(e[2][1], []).append((e, x, s) if x[0] == "rays" else (["set", raw], None, None))
    for n in ("G", "P"):
        last = lines[n][-1][2] if n in lines else None
        if last is None:
            h = random.Random(4) if n == "P" else np.random.RandomState(4)
            last = freeze(h.getstate() if n == "P" else h.get_state(legacy=False))
        if end[n] != last:
            raise Violation(f"global random state {n} ended in a state that its own draws do not explain", f"disturbs {n}")
    keys = sorted(lines)
    random.Random(plan["order"]).shuffle(keys)
    fresh = [e[1] for me, e, *_ in log if e[0] == "s" and e[2] is None]
    un = [(f"unseeded sample {i} here", e[1], x) for i, (me, e, x, *_) in enumerate(log) if e[0] == "s" and e[2] is None and x[0] == "rays"]
    if big and big[0] == "rays":
        un.append(("large unseeded sample", plan["big"], big))
    half = len(keys) // 2
    for wi, (where, ks) in enumerate(zip(plan["where"], (keys[:half], keys[half:]))):
        if not ks and not fresh:
            continue
        # an int seed's line asks the same thing again and again: once is enough elsewhere
        ask = [(k, [lines[k][0][0]] if k[0] == "[" else [e for e, _, _ in lines[k]]) for k in ks]
        rep = Z.call(Z.zyg(where), __name__, "remote", plan["world"], plan["gens"], ask, fresh if wi == 0 else fresh[:1], mix(plan["entropy"], wi), mix(plan["order"], wi) % 2**32)
        if rep["status"] != 0:
            raise RuntimeError(f"reference failed: {rep['status']} {rep['err']}")
        want, uns = rep["result"]
        rec.faults["other processes"] += 1
        for k in ks:
            evs = [x for x in lines[k] if x[0][0] != "set"]
            got = want[k] if k[0] != "[" else want[k] * len(evs)
            for j, ((e, x, s), (wx, wstate)) in enumerate(zip(evs, got)):
                if e[0] == "s":
                    if x[0] == "interrupted":
                        continue
                    rec.evals += 1
                    rec.ops[e[1][0] + " " + (e[2][0] if e[2] else "None")] += 1
                    if len(log) > 1:
                        rec.case(e, plan["gens"].get(k), order[:6])
                    # asGrid's points come out of a BLAS product: to rounding
                    tol = dict(rtol=1e-12, atol=1e-12) if e[1][0] == "asGrid" else {}
                    d = W.diff(wx[0], x[0]) or W.diff(wx[2], x[2], **tol) if x[0] == "rays" else W.diff(wx[:2], x[:2])
                    if d and x[0] == "rays" == wx[0]:
                        raise Violation(f"{e[1]} with rng={e[2]}: sample {j} of that {e[2][0]} differs from the same operations run alone in another process: {d}", f"sample differs: {e[1][0]} {e[2][0]}")
                    if d:
                        raise Violation(f"{e[1]} with rng={e[2]}: {x[:3]} here, {wx[:3]} alone in another process", f"outcome differs: {e[1][0]}")
                else:
                    rec.evals += 1
                    d = W.diff(wx, x)
                    if d:
                        raise Violation(f"draw {e} differs from the same operations on that source alone: {d}", f"draw differs: {k[0]}")
                if wstate is not None and s is not None and wstate != s:
                    raise Violation(f"{e[:3]} left generator {k} in another state than the same operations run alone", f"state differs: {e[0]}")
        for i, (c, x) in enumerate(zip(fresh, uns)):
            if x[0] == "rays":
                un.append((f"unseeded sample {i} in process {wi + 1}", c, x))
    # a generator moves on
    seen = {}
    for me, e, x, s, raw, was in log:
        if e[0] == "s" and x[0] == "rays":
            own = e[2][1] if e[2] is not None and e[2][0] == "gen" else None
            if own and s == was:
                raise Violation(f"{e[1][0]} drew nothing from its generator {own}", "draws nothing")
            if own and x[1] is not None:
                for p in unit(e[1], x[1], w).T:
                    k = (own, round(p[0], 9), round(p[1], 9))
                    seen[k] = seen.get(k, 0) + 1
    # odds of two points agreeing to 1e-9 in both coordinates are below 1e-10 for a whole run
    if any(v > 1 for v in seen.values()):
        raise Violation("two samples drawn one after the other from one generator share a ray", "generator repeats")
    # unseeded: inside the region, fresh
    pts, coords = {}, []
    for what, c, x in un:
        rec.evals += 1
        rec.ops[c[0] + " unseeded"] += 1
        if x[1] is None:
            continue
        u = unit(c, x[1], w)
        rec.stats["unseeded samples placed"] += 1
        rec.case(c, what, len(un), order[:6])
        if len(x[1]) != c[2]["nrandom"] or not inside(u):
            raise Violation(f"{what}: {c} has {len(x[1])} rays, unit coordinates between {u.min(axis=1)} and {u.max(axis=1)}", f"outside region: {c[0]}")
        for p in u.T:
            k = tuple(np.round(p, 9))
            if k in pts:
                raise Violation(f"{what} and {pts[k]} share a ray", "not independent")
            pts[k] = what
        coords += [round(v, 11) for v in u.ravel()]
        if len(x[1]) >= 2000:
            d = uniform(u)
            if d:
                raise Violation(f"{what} {c}: {d}", f"not uniform: {c[0]}")
    if len(coords) - len(set(coords)) > 2:
        raise Violation("unseeded samples share coordinates", "not independent")
    for me, e, x, *_ in log:
        if e[0] == "s" and e[2] is not None and x[0] == "rays" and x[1] is not None:
            u = unit(e[1], x[1], w)
            if len(x[1]) != e[1][2]["nrandom"] or not inside(u):
                raise Violation(f"{e[1]} rng={e[2]} leaves the region: {u.min(axis=1)} to {u.max(axis=1)}", f"outside region: {e[1][0]}")
            if e[2][0] == "gen":
                continue
            for p in u.T:
                k = tuple(np.round(p, 9))
                if k in pts:
                    raise Violation(f"a sample with seed {e[2][1]} and {pts[k]} share a ray", "not independent")
    rec.see([(e, W.digest(x[2]) if len(x) > 2 and x[0] == "rays" else None) for _, e, x, *_ in log if e[0] == "s"], len(log))
    gc.enable()


def simplify(plan):
    if plan["big"]:
        yield dict(plan, big=None)
    for i, u in enumerate(plan["users"]):
        for j in range(len(u)):
            yield dict(plan, users=plan["users"][:i] + [u[:j] + u[j + 1:]] + plan["users"][i + 1:])
    if plan["threads"] > 1:
        yield dict(plan, threads=1)
