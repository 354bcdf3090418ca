"""C09: saved models and rays survive a restart unchanged and independent of the original and of the store."""
import copy, io, pickle
import numpy as np
from .. import world as W, ops as O, hist as H, inject, zygote as Z
from ..harness import Violation, mix, threads
from . import c01

ID = "C09"
ZYGOTES = {"host": dict(flavour="host"), "w1": dict(flavour="host", env={"PYTHONHASHSEED": "1", "OMP_NUM_THREADS": "3"}),
           "w2": dict(flavour="host", env={"PYTHONHASHSEED": "4242", "OMP_NUM_THREADS": "1"})}
SEEDS = {"quick": 2400, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("events", "pre")
RULE = ("a case is one restore, copy or migration of saved objects: the restored objects were compared with the originals by ==, hash, every public attribute and the answers of probing operations (and, in the other process, with objects "
        "built there from the same description); or one write to a live bundle or to the store's bytes after which every other live object was compared; or one failed save or restore; distinct by (objects, how saved, history before)")
MEASURE = "hashes of (objects, how saved and restored, kinds of the events before)"
REAL = ["batoid Python package in separate interpreter processes", "batoid C++ (instrumented build)", "pickle, copy", "numpy"]
STUB = ["the byte store and its buffers (simulated: torn streams, short and failing reads and writes, buffers reused after loading)", "process restart (a process forked from another interpreter start)",
        "signal delivery (exception raised at a trace event)", "allocators (numpy's data allocator, C++ operator new)", "OpenMP runtime (simulated, one worker)"]

W._BUILD.setdefault("CoordTransform", lambda a, b: W.B.CoordTransform(W.build(a), W.build(b)))


class Interrupt(KeyboardInterrupt):
    pass


class Gen(H.HistGen):
    HOW = ("pickle", "pickle", "pickle", "oob", "oob", "file")

    def pre_step(self, ws, names):
        """Something done to the objects before they are saved."""
        r = self.r
        rvs = [n for n in names if n.startswith("r")]
        k = self.pick("derive", "derive", "derive", "part", "attr", "attr", "inplace", "bundle", "bundle", "use", "use", "hash", "clear")
        tels = [n for n in names if n.startswith(("tel", "dt"))]
        if k == "derive":
            new = f"dt{r.randrange(3)}"
            return ["=", new, self.derivation(r.choice(tels), s=self.pick(1e-4, 1e-2))], new
        if k == "part":
            new = f"p{r.randrange(3)}"
            return ["part", new, r.choice(tels + ["lens"]), r.randrange(100)], new
        if k == "attr":
            a = self.pick("skip", "fwd", "rev", "name", "note", "pupilSize")
            return ["attr", r.choice(tels + ["lens", "lens"]), r.randrange(100), a, self.coating() if a in ("fwd", "rev") else r.random() < .5 if a == "skip" else self.u(1, 3) if a == "pupilSize" else f"x{r.randrange(9)}"], None
        if k == "inplace":
            return ["!", self.inplace(ws, rvs)], None
        if k == "bundle":
            new = f"r{self.pick('a', 'b', 'c')}"
            return ["=", new, ["slice_", r.choice(rvs), 0, 0, None] if r.random() < .12 else self.derived(ws, rvs), r.randrange(4)], new
        if k == "hash":
            return ["hash", r.choice(names)], None
        if k == "clear":
            return ["clear", r.choice(tels)], None
        return ["?", self.query(ws, derive=.05)], None

    def group(self, names):
        r = self.r
        g = [r.choice(names)]
        while r.random() < .35 and len(g) < 4:
            g.append(r.choice(names))
        if r.random() < .3:
            g.append(r.choice([n for n in names if n.startswith("r")]))
        return sorted(set(g))

    def probes(self, ws, group, n):
        """Operations that involve the saved objects."""
        out = []
        for _ in range(200):
            if len(out) >= n:
                break
            o = self.query(ws, analyses=.1)
            if o[0] in ("parseOptic",):
                continue
            fl = set(map(str, O.flatten(o)))
            hit = fl & set(group)
            if not hit:
                alias = [x for x in fl if x in ("tel", "lens")] and [q for q in group if q.startswith(("dt",))]
                if not alias:
                    continue
                o = _sub(o, {"tel": alias[0]})
            out.append(o)
        return out


def _sub(o, m):
    return [_sub(x, m) for x in o] if isinstance(o, list) else m.get(o, o) if isinstance(o, str) else o


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    ws = g.world(small=True)
    ws.append(("ct", ["CoordTransform", g.coordSys(), g.coordSys()]))
    if r.random() < .15:
        ws.append(("latw", g.pick(["wavefront", "tel", dict(g.field(), nx=6)], ["fftPSF", "tel", dict(g.field(), nx=6)], ["huygensPSF", "tel", dict(g.field(), nx=4, nxOut=3)])))
    names = [n for n, _ in ws]
    pre = []
    for _ in range(r.choice([0, 2, 4, 7])):
        s, new = g.pre_step(ws, names)
        pre.append(s)
        if new and new not in names:
            names.append(new)
    ev = []
    for i in range(r.choice([3, 5, 8])):
        k = g.pick("save", "save", "load", "load", "copy", "copy", "write", "write", "scribble", "remote", "remote", "torn", "fault", "fault", "use", "rebuf")
        gr = g.group(names)
        if k in ("save", "remote", "torn", "fault", "load", "copy"):
            e = [k, gr, dict(how=g.pick(*Gen.HOW), proto=g.pick(0, 1, 2, 3, 4, 5, 5), seed=r.randrange(1 << 30), n=g.pick(1, 1, 2, 4), frac=round(r.random(), 6), frac2=round(r.random(), 6),
                             where=g.pick("w1", "w2", "host"), old=r.random() < .5, buf=g.pick("bytes", "bytearray", "bytearray", "view"),
                             kind=g.pick("ki", "ki", "mem", "np", "new", "read", "shortread", "write", "nobuf", "tornbuf"), phase=g.pick("save", "load", "load", "copy"),
                             copy=g.pick("copy", "deepcopy", "deepcopy", "method", "slice"))]
            e[2]["probes"] = g.probes(ws, gr, r.choice([1, 2, 3])) if k in ("remote", "load", "copy") else []
            if e[2]["how"] == "oob":
                e[2]["proto"] = 5
        elif k == "write":
            e = [k, r.randrange(1000), g.pick("field", "field", "field", "op", "op"), g.pick("x", "y", "t", "flux", "vignetted", "failed", "vx"), r.randrange(100), g.u(.1, .4), g.inplace(ws, ["rv0"])]
        elif k == "use":
            e = [k, g.query(ws)]
        else:
            e = [k, r.randrange(1000), r.randrange(4)]
        ev.append(e)
    return dict(world=ws, pre=pre, events=ev)


# ------------------------------------------------------------------ building the world, in this process or another
def prepare(specs, pre):
    w = O.World(specs)
    w.names = {n for n, _ in specs} | {s[1] for s in pre if s[0] in ("=", "part")}
    B = W.B
    with np.errstate(all="ignore"):
        for s in pre:
            if any(isinstance(x, str) and x in w.names and x not in w.o for x in O.flatten(s[2:])):
                continue
            if s[0] == "=" and s[1].startswith("dt"):
                d = O.run_safe(w, s[2])
                if isinstance(d, B.Optic):
                    w.o[s[1]] = d
            elif s[0] == "part":
                d = w[s[2]].itemDict
                w.o[s[1]] = d[sorted(d)[s[3] % len(d)]]
            elif s[0] == "attr":
                if s[1] not in w.o:
                    continue
                d = w[s[1]].itemDict
                it = d[sorted(d)[s[2] % len(d)]]
                if s[3] == "skip":
                    it.skip = s[4]
                elif s[3] in ("fwd", "rev"):
                    if isinstance(it, B.optic.Interface):
                        setattr(it, {"fwd": "forwardCoating", "rev": "reverseCoating"}[s[3]], W.build(s[4]))
                elif s[3] == "note":
                    it.note = s[4]
                elif s[3] == "pupilSize":
                    w[s[1]].pupilSize = s[4]
                else:
                    w[s[1]].label = s[4]
            elif s[0] == "clear":
                if s[1] in w.o:
                    w[s[1]].clearObscuration()
            elif s[0] == "hash":
                if s[1] in w.o and not isinstance(w[s[1]], B.RayVector):
                    hash(w[s[1]])
            else:
                H.step(w, s)
    return w


def can(o):
    """Canonical content, without the ad-hoc path a split trace leaves on a bundle."""
    c = W.canon(o)
    return c[:-1] if c[0] == "rv" else c


def own(o):
    """An independent bundle with the same content, made from its public fields only."""
    B = W.B
    n = len(o)
    f = [np.array(getattr(o, k)) for k in W.RV_FIELDS]
    cs = B.CoordSys(np.array(o.coordSys.origin), np.array(o.coordSys.rot))
    if n == 0:
        return B.RayVector._directInit(*f, cs)
    return B.RayVector(*f, cs)


class Slow(io.RawIOBase):
    """A file whose reads return less than asked, or fail."""

    def __init__(self, b, at=None, short=False):
        self.b, self.p, self.n, self.at, self.short = b, 0, 0, at, short

    def _get(self, n):
        self.n += 1
        if self.at is not None and self.n > self.at:
            if not self.short:
                raise OSError(5, "Input/output error")
            n //= 2
        out = self.b[self.p:self.p + n]
        self.p += len(out)
        return out

    def read(self, n=-1):
        return self._get(len(self.b) - self.p if n < 0 else n)

    def readline(self, n=-1):
        e = self.b.find(b"\n", self.p)
        return self._get((len(self.b) if e < 0 else e + 1) - self.p)

    def readinto(self, m):
        d = self._get(len(m))
        m[:len(d)] = d
        return len(d)


class Full(io.RawIOBase):
    """A file on a disk that fills up."""

    def __init__(self, left):
        self.left, self.b = left, bytearray()

    def write(self, d):
        d = bytes(d)
        if len(d) > self.left:
            self.b += d[:self.left]
            self.left = 0
            raise OSError(28, "No space left on device")
        self.left -= len(d)
        self.b += d
        return len(d)


def dump(o, a, f=None):
    """(stream, out-of-band buffers)"""
    if a["how"] == "oob":
        bufs = []
        s = pickle.dumps(o, protocol=5, buffer_callback=bufs.append)
        return s, [bytes(b.raw()) for b in bufs]
    if a["how"] == "file":
        f = f or io.BytesIO()
        pickle.dump(o, f, protocol=a["proto"])
        return f.getvalue(), None
    return pickle.dumps(o, protocol=a["proto"]), None


def load(s, bufs, a, used=None):
    if bufs is not None:
        if a["buf"] == "bytes":
            bb = bufs
        else:
            bb = [bytearray(b) for b in bufs]
            if used is not None:
                used += bb
            if a["buf"] == "view":
                bb = [memoryview(b) for b in bb]
        return pickle.loads(s, buffers=bb)
    if a["how"] == "file":
        return pickle.load(io.BytesIO(s))
    if a["buf"] != "bytes":
        b = bytearray(s)
        if used is not None:
            used.append(b)
        return pickle.loads(b)
    return pickle.loads(s)


def alike(a, b, name, what, eq=True):
    """b must be indistinguishable from a."""
    B = W.B
    if type(a) is not type(b):
        raise Violation(f"{name} {what}: {type(b).__name__} instead of {type(a).__name__}", "other type")
    d = W.diff(can(a), can(b))
    if d:
        raise Violation(f"{name} {what}: differs: {d}", f"content {type(a).__name__}")
    self_eq = a == a
    if (a == b) != self_eq or (b == a) != self_eq or (a != b) == self_eq:
        raise Violation(f"{name} {what}: == {a == b}, {b == a}; != {a != b}; the original equals itself: {self_eq}", f"unequal {type(a).__name__}")
    if isinstance(a, B.RayVector):
        if a._hash() != b._hash() and not any(np.isnan(getattr(a, f)).any() for f in W.RV_FIELDS[:9]):
            raise Violation(f"{name} {what}: other content hash", "hash RayVector")
        return
    if not self_eq:     # holds NaNs
        return
    if hash(a) != hash(b):
        raise Violation(f"{name} {what}: hashes differ", f"hash {type(a).__name__}")
    if {a: 1}.get(b) != 1:
        raise Violation(f"{name} {what}: not found in a dictionary keyed by the original", f"lookup {type(a).__name__}")


def probe(w, ps):
    with np.errstate(all="ignore"):
        return [O.canon_op(w, p) for p in ps]


def away(specs, pre, names, a, s, bufs, chain, rays):
    """In a restarted process: restore, compare with what is built here, use, save again."""
    Z.RT.serial()
    threads(1)
    for _ in range(chain):
        objs = load(s, bufs, a)
        s, bufs = dump(objs, a)
    w = prepare(specs, pre)
    bad = None
    for n in names:
        if n in w.o and not isinstance(w.o[n], W.B.RayVector) and n != "latw":
            try:
                alike(w.o[n], objs[n], n, "restored in another process, compared with one built there")
            except Violation as v:
                bad = (v.what, v.sig)
                break
    c = {n: can(objs[n]) for n in names}
    reps = {n: repr(objs[n]) for n in names}
    for n, (f, cs) in rays.items():
        w.o[n] = W.B.RayVector._directInit(*f, W.B.CoordSys(*cs))
    w.o.update(objs)
    p = probe(w, a["probes"])
    s, bufs = dump(objs, a)
    return bad, c, reps, p, s, bufs


class Life:
    """The live objects of this process with what each must contain."""

    def __init__(self, w):
        self.w = w
        self.extra = {}
        self.want = {}
        for n, o in w.o.items():
            self.want[n] = can(o)

    def add(self, key, o):
        self.extra[key] = o
        self.want[key] = can(o)
        while len(self.extra) > 14:
            k = next(iter(self.extra))
            del self.extra[k], self.want[k]

    def get(self, k):
        return self.extra[k] if k in self.extra else self.w.o[k]

    def check(self, what, but=()):
        for k, c in self.want.items():
            if k in but:
                continue
            d = W.diff(c, can(self.get(k)))
            if d:
                raise Violation(f"{what}: {k} changed: {d}", f"changed by {what.split()[0]}")

    def bundles(self):
        return sorted([k for k in self.want if isinstance(self.get(k), (W.B.RayVector,))], key=str)


def run(plan, rec, B, rt):
    rt.serial()
    threads(1)
    rt.np_allocator()
    specs, pre = plan["world"], plan["pre"]
    rec.sample = dict(pre=pre[:4], events=[e[:2] for e in plan["events"]])
    w = prepare(specs, pre)
    L = Life(w)
    slots = []          # (names, args, stream, buffers, canon by name, reference objects by name)
    used = []
    done = []
    with np.errstate(all="ignore"):
        for i, e in enumerate(plan["events"]):
            k = e[0]
            rec.steps += 1
            if k in ("save", "load", "remote", "torn", "fault", "copy"):
                names = [n for n in e[1] if n in w.o]
                a = e[2]
                if not names:
                    continue
            if k == "save":
                slots.append(save(w, names, a))
                rec.faults["saved " + a["how"]] += 1
            elif k in ("load", "remote", "torn") and a["old"] and slots:
                names, a0, s, bufs, cs, ref = slots[a["seed"] % len(slots)]
                a = dict(a, how=a0["how"], proto=a0["proto"], probes=[])
            elif k in ("load", "remote", "torn"):
                names, a, s, bufs, cs, ref = save(w, names, a)
            if k == "load":
                for j in range(a["n"]):
                    objs = load(s, bufs, a, used)
                    for n in names:
                        same(cs, ref, objs, n, f"restored ({a['how']}, protocol {a['proto']}, round {j})")
                        L.add((i, j, n), objs[n])
                    rec.evals += 1
                    s, bufs = dump(objs, a)
                probes(w, ref, objs, a, i, rec)
                rec.case(names, a["how"], a["proto"], a["n"], done)
            elif k == "remote":
                rep = Z.call(Z.zyg(a["where"]), __name__, "away", specs, pre, names, a, s, bufs, a["n"],
                             {n: ([np.array(getattr(o, f)) for f in W.RV_FIELDS], (o.coordSys.origin, o.coordSys.rot)) for n, o in w.o.items() if isinstance(o, B.RayVector)})
                if rep["status"] != 0:
                    raise Violation(f"event {i}: {names} could not be restored in another process: {rep['status']} {rep['err'][-500:]}", "restore elsewhere failed")
                bad, c, reps, p, s, bufs = rep["result"]
                if bad:
                    raise Violation(f"event {i}: {bad[0]}", bad[1])
                rec.faults["migrations to another process"] += 1
                rec.evals += 1
                for n in names:
                    d = W.diff(cs[n], c[n])
                    if d:
                        raise Violation(f"event {i}: {n} in another process differs: {d}", f"elsewhere {type(ref[n]).__name__}")
                    if repr(ref[n]) != reps[n]:
                        raise Violation(f"event {i}: {n} in another process prints as {reps[n][:200]} not {repr(ref[n])[:200]}", f"elsewhere repr {type(ref[n]).__name__}")
                w2 = O.World()
                w2.o.update(w.o)
                w2.o.update(ref)
                for o, x, y in zip(a["probes"], probe(w2, a["probes"]), p):
                    rec.evals += 1
                    d = O.diff_op(o, x, y)
                    if d:
                        raise Violation(f"event {i}: {o} with {names} restored in another process: {d}", f"elsewhere {o[0]}")
                objs = load(s, bufs, a, used)
                for n in names:
                    same(cs, ref, objs, n, f"after a journey through another process ({a['how']}, protocol {a['proto']}, {a['n']} rounds)")
                    L.add((i, 0, n), objs[n])
                slots.append((names, a, s, bufs, cs, ref))
                rec.case(names, a["how"], a["proto"], a["where"], done)
            elif k == "copy":
                src = {n: w.o[n] for n in names}
                for n, o in src.items():
                    h = a["copy"]
                    if h == "method":
                        c = o.copy() if isinstance(o, (B.RayVector, B.CoordSys)) else copy.deepcopy(o)
                    elif h == "slice" and isinstance(o, B.RayVector):
                        c = o[:]
                    elif h == "copy" and isinstance(o, B.Lattice):
                        c = copy.deepcopy(o)
                    else:
                        c = getattr(copy, "copy" if h == "copy" else "deepcopy")(o)
                    alike(o, c, n, f"copied by {h}")
                    L.add((i, 0, n), c)
                    rec.evals += 1
                if a["copy"] == "deepcopy":
                    d = copy.deepcopy(src)
                    for n in src:
                        alike(src[n], d[n], n, "deep-copied with others")
                probes(w, src, {n: L.get((i, 0, n)) for n in names if (i, 0, n) in L.extra}, a, i, rec)
                rec.faults["copied by " + a["copy"]] += 1
                rec.case(names, a["copy"], done)
            elif k == "torn":
                cut = max(0, min(len(s) - 1, int(a["frac"] * len(s))))
                refuse(lambda: load(s[:cut], bufs, a, used), f"event {i}: {names} saved ({a['how']}, protocol {a['proto']}) as {len(s)} bytes cut to {cut}", "torn stream")
                rec.faults["torn stream"] += 1
                rec.evals += 1
                if bufs:
                    j = a["seed"] % len(bufs)
                    if len(bufs[j]):
                        b2 = list(bufs)
                        b2[j] = b2[j][:int(a["frac2"] * len(b2[j]))]
                        refuse(lambda: load(s, b2, a, used), f"event {i}: {names} with out-of-band buffer {j} cut short", "torn buffer")
                        rec.faults["torn buffer"] += 1
                    refuse(lambda: load(s, bufs[:j], a, used), f"event {i}: {names} with out-of-band buffers from {j} on missing", "missing buffer")
                    rec.faults["missing buffer"] += 1
                objs = load(s, bufs, a, used)
                for n in names:
                    same(cs, ref, objs, n, "restored after a refused restore")
                rec.case(names, "torn", a["how"], a["proto"], cut, done)
            elif k == "fault":
                fault(rt, w, names, a, i, rec, B)
                rec.case(names, "fault", a["kind"], a["phase"], done)
            elif k == "write":
                bs = L.bundles()
                fresh = [b for b in bs if isinstance(b, tuple)]
                key = (fresh or bs)[e[1] % len(fresh or bs)] if e[1] % 3 else bs[e[1] % len(bs)]
                o = L.get(key)
                if not len(o):
                    continue
                twin = own(o)
                for x in (o, twin):
                    if e[2] == "field":
                        arr = getattr(x, e[3])
                        j = e[4] % len(x)
                        arr[j] = (not arr[j]) if arr.dtype == bool else e[5]
                    else:
                        v = O.World()
                        v.o.update(w.o)
                        v.o["rv0"] = x
                        v.inplace = True
                        O.run_safe(v, e[6])
                d = W.diff(can(twin), can(o))
                if d:
                    raise Violation(f"event {i}: {e[2:4] if e[2] == 'field' else e[6]} on {key} acts otherwise than on an equal bundle: {d}", "restored bundle acts otherwise")
                L.want[key] = can(o)
                L.check(f"write {e[2:4] if e[2] == 'field' else e[6]} to {key} at event {i}")
                rec.faults["writes to live bundles"] += 1
                rec.evals += 1
                rec.case("write", str(key), e[2], done)
            elif k in ("scribble", "rebuf"):
                if used:
                    for b in used:
                        b[:] = bytes([e[2] * 85]) * len(b) if k == "scribble" else np.random.Generator(np.random.PCG64(e[1])).bytes(len(b))
                    L.check(f"scribble over the store's buffers at event {i}", [q for q in L.want if isinstance(L.get(q), B.Lattice)])
                    for q in [q for q in L.extra if isinstance(L.get(q), B.Lattice)]:
                        del L.extra[q], L.want[q]
                    rec.faults["store buffers overwritten"] += len(used)
                    rec.evals += 1
                    rec.case("scribble", len(used), done)
                    used.clear()
            elif k == "use":
                O.canon_op(w, e[1])
            L.check(f"{k} at event {i} {e[1]}")
            rec.ops[k] += 1
            done.append(k)
            rec.state(e[1], done)
            rec.see(i, k, sorted((str(q), W.digest(c)) for q, c in list(L.want.items())[-3:]))


def save(w, names, a):
    objs = {n: w.o[n] for n in names}
    s, bufs = dump(objs, a)
    cs = {n: can(o) for n, o in objs.items()}
    ref = {n: own(o) if isinstance(o, W.B.RayVector) else o for n, o in objs.items()}
    return names, a, s, bufs, cs, ref


def same(cs, ref, objs, n, what):
    if n not in objs:
        raise Violation(f"{n} missing {what}", "missing")
    d = W.diff(cs[n], can(objs[n]))
    if d:
        raise Violation(f"{n} {what}: {d}", f"content {type(ref[n]).__name__}")
    alike(ref[n], objs[n], n, what)
    if repr(ref[n]) != repr(objs[n]):
        raise Violation(f"{n} {what}: prints as {repr(objs[n])[:200]} not {repr(ref[n])[:200]}", f"repr {type(ref[n]).__name__}")


def probes(w, ref, objs, a, i, rec):
    v1, v2 = O.World(), O.World()
    v1.o.update(w.o)
    v2.o.update(w.o)
    v1.o.update(ref)
    v2.o.update(objs)
    for o, x, y in zip(a["probes"], probe(v1, a["probes"]), probe(v2, a["probes"])):
        rec.evals += 1
        d = O.diff_op(o, x, y)
        if d:
            raise Violation(f"event {i}: {o} with {sorted(objs)} restored or copied: {d}", f"probe {o[0]}")


def refuse(f, what, sig):
    try:
        f()
    except Exception:
        return
    raise Violation(f"{what} was accepted", sig)


def fault(rt, w, names, a, i, rec, B):
    """A save, restore or copy that is cut short: it raises or does the right thing, and works the next time."""
    objs = {n: w.o[n] for n in names}
    kind, phase = a["kind"], a["phase"]
    if kind in ("read", "shortread", "nobuf", "tornbuf"):
        phase, a = "load", dict(a, how="oob" if kind in ("nobuf", "tornbuf") else "file", proto=5 if kind in ("nobuf", "tornbuf") else a["proto"])
    if kind == "write":
        phase, a = "save", dict(a, how="file")
    s, bufs = dump(objs, a)
    if kind == "read" or kind == "shortread":
        f = Slow(s)
        pickle.load(f)
        at = int(a["frac"] * f.n)
        refuse(lambda: pickle.load(Slow(s, at, kind == "shortread")), f"event {i}: restoring {names} with {'a failing' if kind == 'read' else 'short'} read after {at} reads", kind) if kind == "read" else short(s, at, objs, i)
        hit = True
    elif kind in ("nobuf", "tornbuf"):
        hit = bool(bufs)
        if hit:
            refuse(lambda: pickle.loads(s, buffers=[b"" for _ in bufs] if kind == "tornbuf" and any(bufs) else []), f"event {i}: restoring {names} without its buffers", kind)
    elif kind == "write":
        f = Full(int(a["frac"] * len(s)))
        refuse(lambda: pickle.dump(objs, f, protocol=a["proto"]), f"event {i}: saving {names} on a full disk", kind)
        refuse(lambda: pickle.loads(bytes(f.b)), f"event {i}: restoring what a full disk kept of {names}", "torn stream")
        hit = True
    else:
        f = {"save": lambda: dump(objs, a), "load": lambda: load(s, bufs, a), "copy": lambda: copy.deepcopy(objs)}[phase]
        hit = cut(rt, f, kind, a["frac"], B)
        if isinstance(hit, tuple):
            out = hit[1]
            hit = True
            if phase == "save":
                out = pickle.loads(out[0], buffers=out[1] or ())
            for n in names:
                alike(objs[n], out[n], n, f"after a {phase} that survived {kind}")
    if hit:
        rec.faults[f"{kind} during {phase}"] += 1
    rec.evals += 1
    # once faults stop
    s2, b2 = dump(objs, a)
    if (s2, b2) != (s, bufs):
        o2 = load(s2, b2, a)
        for n in names:
            alike(objs[n], o2[n], n, f"saved after a failed {phase} ({kind})")
    o2 = load(s, bufs, a)
    for n in names:
        alike(objs[n], o2[n], n, f"restored after a failed {phase} ({kind})")


def short(s, at, objs, i):
    try:
        out = pickle.load(Slow(s, at, True))
    except Exception:
        return
    for n in objs:
        alike(objs[n], out[n], n, f"restored with short reads at event {i}")


def cut(rt, f, kind, frac, B):
    """Run f with one fault somewhere inside; (True,) when it raised, ('ok', result) when it came through, False when there was nowhere to strike."""
    tr = inject.Tracer(B, {})
    if kind in ("ki", "mem"):
        tr.run(f)
        if not tr.n:
            return False

        def boom():
            raise (Interrupt if kind == "ki" else MemoryError)("injected")
        tr = inject.Tracer(B, {int(frac * tr.n): boom})
        try:
            return ("ok", tr.run(f))
        except (Interrupt, MemoryError):
            return True
    n0, m0 = rt.lib.dst_np_count(), rt.new_count()
    f()
    n = rt.lib.dst_np_count() - n0 if kind == "np" else rt.new_count() - m0
    if n <= 0:
        return False
    arm = rt.np_fail if kind == "np" else rt.new_fail
    arm(int(frac * n))
    try:
        try:
            out = f()
        finally:
            arm(-1)
        return ("ok", out)
    except Exception as e:
        if isinstance(e, MemoryError) or "incompatible" in str(e) or "memory" in str(e).lower():
            return True
        raise Violation(f"a failed allocation ({kind}) surfaced as {e!r}", f"surfaced as {type(e).__name__}")


def simplify(plan):
    for i, e in enumerate(plan["events"]):
        if len(e) > 2 and isinstance(e[2], dict):
            if e[2].get("probes"):
                for p in e[2]["probes"]:
                    if len(e[2]["probes"]) > 1:
                        yield dict(plan, events=plan["events"][:i] + [[e[0], e[1], dict(e[2], probes=[p])]] + plan["events"][i + 1:])
                yield dict(plan, events=plan["events"][:i] + [[e[0], e[1], dict(e[2], probes=[])]] + plan["events"][i + 1:])
            if len(e[1]) > 1:
                for n in e[1]:
                    yield dict(plan, events=plan["events"][:i] + [[e[0], [n], e[2]]] + plan["events"][i + 1:])
