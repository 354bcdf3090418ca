"""The catalogue of operations.  An op is JSON: [name, args...]; string args name objects of the World.

QUERY ops leave every object of the world as it is and return a result.
"""
import copy, pickle
import numpy as np
from . import world as W


class World:
    def __init__(self, specs=()):
        self.o = {}
        for name, spec in specs:
            self.add(name, spec)

    names = ()

    def add(self, name, spec):
        self.o[name] = self.make(spec)

    def make(self, spec):
        if spec[0] in ("asPolar", "asGrid", "asSpokes", "asFan", "fromStop", "fromFieldAngles", "scatter", "wavefront", "fftPSF", "huygensPSF"):
            return OPS[spec[0]](self, *spec[1:])
        return W.build(spec)

    inplace = False

    def cp(self, n):
        """The bundle an operation modifies: a private copy unless the world is in in-place mode."""
        return self[n] if self.inplace else self[n].copy()

    def __getitem__(self, n):
        if n is None or not isinstance(n, str):
            return n
        return self.o[n]


OPS = {}
APPROX = set()      # results computed through BLAS/FFT/lstsq: compared to rounding


def op(name=None, approx=False):
    def d(f):
        n = name or f.__name__
        assert n not in OPS or OPS[n].__module__ == f.__module__, n     # one name, one operation
        OPS[n] = f
        if approx:
            APPROX.add(n)
        return f
    return d


def run(w, o):
    return OPS[o[0]](w, *o[1:])


def kw(w, d):
    """Keyword arguments with '@name' references."""
    out = {}
    for k, v in d.items():
        if isinstance(v, str) and v.startswith("@"):
            v = w[v[1:]]
        elif k in ("source", "dirCos") and isinstance(v, list):
            v = W.arr(v)
        out[k] = v
    return out


# ---------------------------------------------------------------- tracing optics
@op()
def trace(w, o, rv, reverse=False):
    r = w.cp(rv)
    out = w[o].trace(r, reverse=reverse)
    return out


def leaves(o):
    return [x for it in o.items for x in leaves(it)] if isinstance(o, W.B.CompoundOptic) else [o.name]


def stops(w, o, path):
    """A path whose numbers stand for parts in the order light meets them."""
    ns = leaves(w[o])
    return [ns[min(p, len(ns) - 1)] if isinstance(p, int) else p for p in path]


@op()
def tracePath(w, o, rv, path):
    return w[o].trace(w.cp(rv), path=stops(w, o, path))


@op()
def traceFull(w, o, rv, reverse=False):
    return w[o].traceFull(w[rv], reverse=reverse)


@op()
def traceFullPath(w, o, rv, path):
    return w[o].traceFull(w[rv], path=stops(w, o, path))


@op()
def traceSplit(w, o, rv, minFlux=0.01, reverse=False):
    r = w.cp(rv)
    return w[o].traceSplit(r, minFlux=minFlux, reverse=reverse)


@op()
def partTrace(w, o, idx, rv, meth="trace", reverse=False):
    """A named part of an optic acting on a bundle."""
    names = sorted(w[o].itemDict)
    part = w[o][names[idx % len(names)]]
    r = w.cp(rv)
    f = getattr(part, meth, None)
    if f is None:
        return "no such method"
    return f(r, reverse=reverse)


@op()
def globalRays(w, o, rv, a=None, b=None, cs=None):
    tf = w[o].traceFull(w[rv])
    names = list(tf)
    kw = {} if cs is None else dict(globalSys=w[cs])
    return W.B.optic.getGlobalRays(tf, start=None if a is None else names[a % len(names)], end=None if b is None else names[b % len(names)], **kw)


class Recorder:
    """An axis that remembers what was drawn on it."""

    def __init__(self):
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def f(*a, **k):
            self.calls.append([name, [np.array(x) if isinstance(x, np.ndarray) else x for x in a],
                               sorted((n, np.array(v) if isinstance(v, np.ndarray) else str(v)) for n, v in k.items())])
        return f


@op()
def draw(w, o, kind, rv=None):
    import contextlib, io
    ax, B = Recorder(), W.B
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == "2d":
            w[o].draw2d(ax, c="k")
        elif kind == "lens":
            w[o].draw2d(ax, only=B.Lens, fc="c", labelpos=.1)
        elif kind == "mirror":
            w[o].draw2d(ax, only=B.Mirror, c="b")
        elif kind == "3d":
            w[o].draw3d(ax, c="k")
        elif kind == "plotly":
            w[o].draw3d(ax, plotly=True)
        elif kind == "trace2d":
            B.drawTrace2d(ax, w[o].traceFull(w[rv]), c="k")
        else:
            B.drawTrace3d(ax, w[o].traceFull(w[rv]), plotly=kind == "traceplotly")
    return ax.calls


@op()
def partOwn(w, o, idx, kind, v=None, spec=None):
    """Methods of a single part: comparison, its own derivations and history."""
    d = w[o].itemDict
    names = sorted(n for n in d if isinstance(d[n], W.B.Interface))
    p = d[names[idx % len(names)]]
    if kind == "eq":
        q = copy.copy(p)
        return [p == q, p != q, p == w[o], hash(p) == hash(q), repr(p)]
    if kind in ("withGlobalShift", "withLocalShift"):
        return getattr(p, kind)(v)
    if kind in ("withGlobalRotation", "withLocalRotation"):
        return getattr(p, kind)(W.rotm(v[:3])) if len(v) == 3 else getattr(p, kind)(W.rotm(v[:3]), v[3:6], W.B.CoordSys(W.arr(v[6:9]), W.rotm(v[9:12])))
    if kind in ("withSurface", "withPerturbedSurface"):
        return getattr(p, kind)(W.build(spec))
    if kind in ("traceFull", "traceSplit"):
        return getattr(p, kind)(w.cp(v))
    raise KeyError(kind)


@op()
def ctSelf(w, a, b, n, seed, rev=False):
    B = W.B
    ct = B.CoordTransform(w[a], w[b])
    x, y, z = (grid(n, 0, 1.0, seed + i) for i in range(3))
    (B.trace.applyReverseTransformArrays if rev else B.trace.applyForwardTransformArrays)(ct, x, y, z)
    return [x, y, z, ct == B.CoordTransform(w[a], w[b]), ct != B.CoordTransform(w[b], w[a]), hash(ct) == hash(pickle.loads(pickle.dumps(ct))), repr(ct)]


@op()
def take(w, rv, kind, seed):
    """Fancy indexing, iteration and friends."""
    r = w[rv]
    g, n = W.rs(seed), len(w[rv])
    if kind == "ints":
        return r[g.integers(-n, n, 5)] if n else r[:0]
    if kind == "list":
        return r[[int(i) for i in g.integers(0, n, 3)]] if n else r[[]]
    if kind == "bool":
        return r[g.random(n) < .5]
    if kind == "neg":
        return r[-1] if n else None
    if kind == "npint":
        return r[np.int64(g.integers(0, n))] if n else None
    if kind == "iter":
        return [x for x in r]
    raise KeyError(kind)


@op(approx=True)
def plain(w, kind, d):
    """Rays launched without an optic."""
    d = kw(w, d)
    if "stop" in d:
        d["stopSurface"] = W.build(d.pop("stop"))
    if "rings" in d and isinstance(d["rings"], list):
        d["rings"], d["spokes"] = W.arr(d["rings"]), W.arr(d["spokes"])
    if kind == "fromStop":
        return W.B.RayVector.fromStop(W.arr(d.pop("x")), W.arr(d.pop("y")), **d)
    if kind == "fromFieldAngles":
        return W.B.RayVector.fromFieldAngles(W.arr(d.pop("tx")), W.arr(d.pop("ty")), **d)
    return getattr(W.B.RayVector, kind)(**d)


@op()
def utility(w, kind, n, seed):
    u, g = W.B.utils, W.rs(seed)
    if kind == "hexapolar":
        return [u.hexapolar(outer=1. + n, inner=.1 * n, nrad=2 + n, naz=6 * (n + 1), kfold=4 + n % 3, rth=bool(n % 2))]
    if kind == "zero":
        return [[u.fieldToDirCos(a, a, projection=p), u.dirCosToField(*u.fieldToDirCos(np.zeros(3) + a, np.array([0., .1, 0.]), projection=p), projection=p)]
                for p in OpGen.PROJ for a in (0., .2)]
    if kind == "normalized":
        return u.normalized(g.normal(size=3))
    return W.B.analysis._closestApproach(*(g.normal(size=3) for _ in range(4))) if kind == "closest" else u.bilinear_fit(*(g.normal(size=6 + n) for _ in range(4)))


APPROX.add("utility")


def _mistakes():
    """Calls that are wrong in themselves."""
    B, a = W.B, W.arr
    R = B.RayVector
    return {
        "no such part": lambda w, rv: w["tel"]["no such part"], "shift what": lambda w, rv: w["tel"].withGloballyShiftedOptic("nothing", [0., 0., 1.]),
        "shift how": lambda w, rv: w["tel"].withGloballyShiftedOptic(part(w, "tel", 1), [0., 1.]),
        "rotate what": lambda w, rv: w["tel"].withLocallyRotatedOptic("nothing", np.eye(3)), "rotate how": lambda w, rv: w["tel"].withLocallyRotatedOptic(part(w, "tel", 2), a([1., 2.])),
        "surface of what": lambda w, rv: w["tel"].withSurface("nothing", B.Plane()), "perturb what": lambda w, rv: w["tel"].withPerturbedSurface("nothing", B.Plane()),
        "perturb how": lambda w, rv: w["tel"].withPerturbedSurface(part(w, "tel", 3, True), None), "insert where": lambda w, rv: w["tel"].withInsertedOptic("nothing", B.Baffle(B.Plane(), name="q")),
        "remove what": lambda w, rv: w["tel"].withRemovedOptic("nothing"), "global rays of what": lambda w, rv: B.optic.getGlobalRays(w["lens"].traceFull(w[rv]), start="nothing"),
        "global rays to what": lambda w, rv: B.optic.getGlobalRays(w["lens"].traceFull(w[rv]), end="nothing"),
        "global rays backwards": lambda w, rv: B.optic.getGlobalRays(w["lens"].traceFull(w[rv]), start="S1", end="S0"),
        "path": lambda w, rv: w["lens"].trace(w.cp(rv), path=["S0", "nothing"]), "full path": lambda w, rv: w["lens"].traceFull(w[rv], path=["S1", "nothing"]),
        "index": lambda w, rv: w[rv][len(w[rv])], "negative index": lambda w, rv: w[rv][-len(w[rv]) - 1], "text index": lambda w, rv: w[rv]["x"],
        "no wavelength": lambda w, rv: R.asGrid(optic=w["tel"], theta_x=0., theta_y=0., nx=3), "too much": lambda w, rv: R.asGrid(optic=w["tel"], wavelength=5e-7, theta_x=0., theta_y=0., nx=3, dx=.1, lx=1.),
        "no wavelength 2": lambda w, rv: R.asPolar(optic=w["tel"], theta_x=0., theta_y=0., nrad=2, naz=6), "no wavelength 3": lambda w, rv: R.asSpokes(optic=w["tel"], theta_x=0., theta_y=0., rings=2, spokes=3),
        "no wavelength 4": lambda w, rv: R.fromStop(0., 0., theta_x=0., theta_y=0.), "no wavelength 5": lambda w, rv: R.fromFieldAngles(0., 0.),
        "projection": lambda w, rv: B.utils.fieldToDirCos(.1, .1, projection="nothing"), "projection back": lambda w, rv: B.utils.dirCosToField(.1, .1, -1., projection="nothing"),
        "rays projection": lambda w, rv: R.asPolar(optic=w["tel"], wavelength=5e-7, theta_x=.1, theta_y=0., nrad=2, naz=6, projection="nothing"),
        "lengths": lambda w, rv: R(a([1., 2.]), a([1., 2., 3.]), 0., 0., 0., -1., wavelength=5e-7), "table": lambda w, rv: B.TableMedium(a([1e-7, 2e-7]), a([1.])),
        "lattice": lambda w, rv: B.Lattice(np.zeros((2, 2)), [[1., 2., 3.]]), "lattice 2": lambda w, rv: B.Lattice(np.zeros((2, 2, 2)), [[1., 0.], [0., 1.]]),
        "sellmeier": lambda w, rv: B.SellmeierMedium(1., 2.), "sumita": lambda w, rv: B.SumitaMedium(1., 2.), "polygon": lambda w, rv: B.ObscPolygon(a([0., 1.]), a([0., 1., 2.])),
        "union": lambda w, rv: B.ObscUnion(), "intersection of nothing": lambda w, rv: B.ObscIntersection(3), "quadric": lambda w, rv: B.Quadric("x", 1.), "bicubic": lambda w, rv: B.Bicubic(a([0., 1., 2.]), a([0., 1., 3.]), np.zeros((3, 3))),
        "uneven bicubic": lambda w, rv: B.Bicubic(a([0., 1., 3.]), a([0., 1., 2.]), np.zeros((3, 3))), "nan policy": lambda w, rv: B.Bicubic(a([0., 1., 2.]), a([0., 1., 2.]), np.zeros((3, 3)), nanpolicy="x"),
        "phase where": lambda w, rv: w[rv].phase([1., 2.], 0.), "sum when": lambda w, rv: w[rv].sumAmplitude(a([0., 0., 0.]), "x"), "propagate": lambda w, rv: w.cp(rv).propagate("x"),
        "coordinates": lambda w, rv: w.cp(rv).toCoordSys(None), "refract without": lambda w, rv: w["s0"].refract(w.cp(rv), w["m0"], None), "reflect where": lambda w, rv: w["s0"].reflect(w.cp(rv), coordSys=3),
        "reflect with": lambda w, rv: w["s0"].reflect(w.cp(rv), coating=3), "obscure what": lambda w, rv: B.obscure(w["ob0"], None), "split without": lambda w, rv: B.rSplit(w["s0"], w.cp(rv), w["m0"], w["m1"], None),
        "screen": lambda w, rv: B.trace.refractScreen(w["s0"], w.cp(rv), None), "trace what": lambda w, rv: w["tel"].trace(None), "split what": lambda w, rv: w["lens"].traceSplit(None),
        "psf reference": lambda w, rv: B.huygensPSF(w["tel"], 0., 0., 5e-7, nx=4, reference="nothing"), "wavefront reference": lambda w, rv: B.wavefront(w["tel"], 0., 0., 5e-7, nx=4, reference="nothing"),
        "zernike": lambda w, rv: B.zernike(w["tel"], 0., 0., 5e-7, nx=6, jmax=-1), "analysis keyword": lambda w, rv: B.zernikeGQ(w["tel"], 0., 0., 5e-7, nothing=1), "empty concatenation": lambda w, rv: B.concatenateRayVectors([]),
        "concatenate what": lambda w, rv: B.concatenateRayVectors([w[rv], 3]), "shift by": lambda w, rv: w["cs0"].shiftGlobal([1., 2.]), "rotate by": lambda w, rv: w["cs0"].rotateLocal(a([1., 2.])),
        "missing file": lambda w, rv: B.Optic.fromYaml("no such file.yaml"), "missing table": lambda w, rv: B.TableMedium.fromTxt("no such table.txt"), "config": lambda w, rv: B.parse.parse_optic({"type": "Nothing", "name": "q"}),
        "config 2": lambda w, rv: B.parse.parse_optic({"type": "Mirror", "name": "q", "surface": {"type": "Nothing"}}), "unhashable": lambda w, rv: hash(w[rv]), "compare": lambda w, rv: [w["tel"] == 3, w["s0"] == None, w["m0"] == "x", w["cs0"] == 1.],  # noqa: E711
        "sag where": lambda w, rv: w["s0"].sag(a([1., 2.]), a([1., 2., 3.])), "normal where": lambda w, rv: w["s0"].normal("x", 1.), "index where": lambda w, rv: w["m0"].getN("x"), "contains where": lambda w, rv: w["ob0"].contains("x", 1.),
        "grid": lambda w, rv: w["pg"].containsGrid(a([[1.]]), a([1.])),
    }


MISTAKES = 71


@op()
def mistake(w, i, rv):
    d = _mistakes()
    k = sorted(d)
    return d[k[i % len(k)]](w, rv)



# ---------------------------------------------------------------- surfaces
@op()
def surf(w, kind, s, rv, cs=None, coating=None, m1=None, m2=None, screen=None, via="fn"):
    S, r = w[s], w.cp(rv)
    cs, coating = w[cs], w[coating]
    if kind in ("intersect", "reflect"):
        if via == "fn":
            return getattr(W.B, kind)(S, r, cs, coating)
        return getattr(S, kind)(r, coordSys=cs, coating=coating)
    if kind == "refract":
        if via == "fn":
            return W.B.refract(S, r, w[m1], w[m2], cs, coating)
        return S.refract(r, w[m1], w[m2], coordSys=cs, coating=coating)
    if kind == "rSplit":
        if via == "fn":
            return W.B.rSplit(S, r, w[m1], w[m2], coating, cs)
        return S.rSplit(r, w[m1], w[m2], coating, coordSys=cs)
    if kind == "refractScreen":
        if via == "fn":
            return W.B.trace.refractScreen(S, r, w[screen], cs)
        return S.refractScreen(r, w[screen], coordSys=cs)
    raise KeyError(kind)


def grid(n, ny, rad, seed):
    g = W.rs(seed)
    return g.uniform(-rad, rad, (ny, n)) if ny else g.uniform(-rad, rad, n)


@op()
def sag(w, s, n, ny, rad, seed):
    if n == 0:
        return w[s].sag(rad * .3, rad * .1)
    return w[s].sag(grid(n, ny, rad, seed), grid(n, ny, rad, seed + 1))


@op()
def normal(w, s, n, ny, rad, seed):
    if n == 0:
        return w[s].normal(W.arr([rad * .3]), W.arr([rad * .1]))
    return w[s].normal(grid(n, ny, rad, seed), grid(n, ny, rad, seed + 1))


@op()
def getN(w, m, wl):
    return w[m].getN(W.arr(wl) if isinstance(wl, list) else wl)


@op()
def coefs(w, c, wl, ct):
    c = w[c]
    return [c.getCoefs(wl, ct), c.getReflect(wl, ct), c.getTransmit(wl, ct)]


@op()
def contains(w, ob, n, ny, rad, seed):
    if n == 0:
        return w[ob].contains(rad * .3, rad * .1)
    return w[ob].contains(grid(n, ny, rad, seed), grid(n, ny, rad, seed + 1))


@op()
def containsGrid(w, ob, nx, ny, rad):
    return w[ob].containsGrid(np.linspace(-rad, rad, nx), np.linspace(-.9 * rad, .9 * rad, ny))


@op()
def obscure(w, ob, rv, via="fn"):
    r = w.cp(rv)
    if via == "fn":
        return W.B.obscure(w[ob], r)
    w[ob].obscure(r)
    return r


# ---------------------------------------------------------------- coordinate systems
@op()
def csOp(w, cs, kind, v, other=None):
    c = w[cs]
    if kind in ("shiftGlobal", "shiftLocal", "toGlobal", "toLocal"):
        return getattr(c, kind)(v)
    if kind in ("rotateGlobal", "rotateLocal"):
        return getattr(c, kind)(W.rotm(v)) if other is None else getattr(c, kind)(W.rotm(v), (0.1, 0.2, 0.3), w[other])
    if kind == "copy":
        return c.copy()
    return [getattr(c, kind)]


@op()
def ctArrays(w, a, b, n, seed, rev=False):
    ct = W.B.CoordTransform(w[a], w[b])
    x, y, z = (grid(n, 0, 1.0, seed + i) for i in range(3))
    return (ct.applyReverseArray if rev else ct.applyForwardArray)(x, y, z)


@op()
def ctRays(w, a, b, rv, rev=False, via="fn"):
    ct = W.B.CoordTransform(w[a], w[b])
    r = w.cp(rv)
    if via == "fn":
        return (W.B.applyReverseTransform if rev else W.B.applyForwardTransform)(ct, r)
    return (ct.applyReverse if rev else ct.applyForward)(r)


@op()
def toCoordSys(w, rv, cs):
    return w.cp(rv).toCoordSys(w[cs])


# ---------------------------------------------------------------- rays
@op()
def propagate(w, rv, t):
    return w.cp(rv).propagate(t)


@op()
def positionAtTime(w, rv, t):
    return w[rv].positionAtTime(t)


@op()
def phase(w, rv, r, t):
    return w[rv].phase(W.arr(r), t)


@op()
def amplitude(w, rv, r, t):
    return w[rv].amplitude(W.arr(r), t)


@op()
def sumAmplitude(w, rv, r, t, ign=True):
    return w[rv].sumAmplitude(W.arr(r), t, ignoreVignetted=ign)


@op(approx=True)
def accessors(w, rv):
    r = w[rv]
    return [r.r, r.v, r.k, r.kx, r.ky, r.kz, r.omega, len(r)]


@op()
def fields(w, rv):
    r = w[rv]
    return [getattr(r, f) for f in W.RV_FIELDS]


@op()
def slice_(w, rv, a, b, step=None):
    return w[rv][slice(a, b, step)]


@op()
def index(w, rv, i):
    return w[rv][i % max(1, len(w[rv]))]


@op()
def mask(w, rv):
    r = w[rv]
    return r[~r.vignetted]


@op()
def concat(w, *rvs):
    rs = [w[r] for r in rvs]
    rs = [r.copy().toCoordSys(rs[0].coordSys) if r.coordSys != rs[0].coordSys else r for r in rs]
    return W.B.concatenateRayVectors(rs)


@op()
def rvcopy(w, rv):
    return w[rv].copy()


@op()
def rveq(w, a, b):
    return [w[a] == w[b], w[a] != w[b], w[a] == w[a].copy()]


@op()
def reprs(w, o):
    return repr(w[o])


@op()
def eqhash(w, o):
    a = w[o]
    h1 = h2 = 0
    if not isinstance(a, W.B.CompoundOptic):
        pass
    h1, h2 = hash(a), hash(a)
    return [a == a, a != a, h1 == h2]


@op()
def roundtrip(w, o):
    return pickle.loads(pickle.dumps(w[o]))


@op()
def deep(w, o):
    return copy.deepcopy(w[o])


@op(approx=True)
def scatter(w, o, n, seed, th, style=()):
    """Rays of all sorts entering an optic."""
    g, O = W.rs(seed), w[o]
    p = getattr(O, "pupilSize", 2.)
    rr, a = .5 * p * np.sqrt(g.uniform(.05, 1.05, n)), g.uniform(0, 2 * np.pi, n)
    q = W.B.RayVector.fromStop(rr * np.cos(a), rr * np.sin(a), optic=O, wavelength=6e-7, theta_x=th[0], theta_y=th[1])
    s = W.rays(dict(n=n, seed=seed, style=[x for x in style if x not in ("axis", "dup", "zflat")]))
    i = np.zeros(n, int) if "dup" in style else np.arange(n)
    return W.B.RayVector(q.x[i], q.y[i], q.z[i], q.vx[i], q.vy[i], q.vz[i], q.t + (0 if "t0" in style else s.t), s.wavelength, s.flux, s.vignetted, s.failed, q.coordSys)


def _ctor(name):
    def f(w, o, d):
        d = kw(w, d)
        if o is not None and w[o] is not None:
            d["optic"] = w[o]
        return getattr(W.B.RayVector, name)(**d)
    return f


for _n in ("asPolar", "asGrid", "asSpokes", "asFan"):
    OPS[_n] = _ctor(_n)
    APPROX.add(_n)


@op(approx=True)
def fromStop(w, o, d, n, seed):
    d = kw(w, d)
    x, y = grid(n, 0, .9, seed), grid(n, 0, .9, seed + 1)
    return W.B.RayVector.fromStop(x, y, optic=w[o], **d)


@op(approx=True)
def fromFieldAngles(w, o, d, n, seed):
    d = kw(w, d)
    return W.B.RayVector.fromFieldAngles(grid(n, 0, .01, seed), grid(n, 0, .01, seed + 1), optic=w[o], **d)


# ---------------------------------------------------------------- optics: lookups and derivations (results only)
@op()
def lookup(w, o, idx):
    d = w[o].itemDict
    names = sorted(d)
    n = names[idx % len(names)]
    short = n.split(".")[-1]
    out = [n, w[o][n]]
    try:
        out.append(w[o][short])
    except ValueError as e:
        out.append("ambiguous")
    it = d[n]
    if isinstance(it, W.B.Interface):
        out += [it.R_outer, it.R_inner, it.inRadius, it.outRadius]
    return out


def part(w, o, idx, leaf=False):
    d = w[o].itemDict
    names = sorted(n for n in d if n != w[o].name and (not leaf or isinstance(d[n], W.B.Interface)))
    return names[idx % len(names)]


@op()
def derive(w, o, kind, idx=0, v=None, spec=None):
    """A system derived from another; spec describes a replacement part."""
    O = w[o]
    if kind in ("withGlobalShift", "withLocalShift"):
        return getattr(O, kind)(v)
    if kind in ("withGlobalRotation", "withLocalRotation"):
        return getattr(O, kind)(W.rotm(v))
    if kind in ("withGlobalRotationAbout", "withLocalRotationAbout"):
        return getattr(O, kind[:-5])(W.rotm(v[:3]), v[3:6], W.B.CoordSys(W.arr(v[6:9]), W.rotm(v[9:12])))
    if kind in ("withGloballyShiftedOptic", "withLocallyShiftedOptic"):
        return getattr(O, kind)(part(w, o, idx), v)
    if kind == "withLocallyRotatedOptic":
        return O.withLocallyRotatedOptic(part(w, o, idx), W.rotm(v))
    if kind == "withLocallyRotatedOpticAbout":
        return O.withLocallyRotatedOptic(part(w, o, idx), W.rotm(v[:3]), v[3:6], W.B.CoordSys(W.arr(v[6:9]), W.rotm(v[9:12])))
    if kind in ("withSurface", "withPerturbedSurface"):
        return getattr(O, kind)(part(w, o, idx, True), W.build(spec))
    if kind == "withInsertedOptic":
        tops = [it.name for it in O.items]
        return O.withInsertedOptic(tops[idx % len(tops)], W.build(spec))
    if kind == "withRemovedOptic":
        tops = [it.name for it in O.items]
        return O.withRemovedOptic(tops[idx % len(tops)])
    raise KeyError(kind)


@op()
def cleared(w, o, idx, unless=False):
    """clearObscuration acts in place: on a private derived copy."""
    c = w[o].withGlobalShift([0.0, 0.0, 0.0])
    c.clearObscuration(unless=(part(w, o, idx, True).split(".")[-1],) if unless else ())
    return c


@op()
def mesh(w, o):
    return [it.get3dmesh() for it in w[o].items if isinstance(it, W.B.Interface) and it.outRadius is not None]


@op()
def xz(w, o):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return [it.getXZSlice() for it in w[o].items if isinstance(it, W.B.Interface) and it.outRadius is not None and it.inRadius is not None]


@op()
def latcoords(w, l):
    return [w[l].coords, w[l]]


@op()
def project(w, proj, n, seed):
    a, b = grid(n, 0, .3, seed), grid(n, 0, .3, seed + 1)
    v = W.B.utils.fieldToDirCos(a, b, projection=proj)
    return [v, W.B.utils.dirCosToField(*v, projection=proj), W.B.utils.fieldToDirCos(.01, .02, projection=proj)]


@op()
def parseOptic(w, name):
    return W.B.parse.parse_optic(W.config(name))


@op()
def fromYaml(w, name):
    return W.B.Optic.fromYaml(name + ".yaml")


@op()
def fromTxt(w, name):
    return W.B.TableMedium.fromTxt(name)


# ---------------------------------------------------------------- analysis
def _ana(name):
    def f(w, o, d):
        fn = getattr(W.B, name, None) or getattr(W.B.analysis, name)
        return fn(w[o], **kw(w, d))
    OPS[name] = f
    APPROX.add(name)


ANALYSES = ("huygensPSF", "fftPSF", "wavefront", "spot", "zernike", "zernikeGQ", "zernikeTA", "zernikeXYAberrations",
            "doubleZernike", "drdth", "dthdr", "dkdu", "exitPupilPos", "focalLength")
for _n in ANALYSES:
    _ana(_n)


EXC = (ValueError, TypeError, RuntimeError, AssertionError, IndexError, KeyError, AttributeError, ZeroDivisionError,
       FileNotFoundError, NameError, np.linalg.LinAlgError)


def run_safe(w, o):
    """Result or exception of an op (exceptions are results too)."""
    try:
        return run(w, o)
    except EXC as e:
        return e


def flatten(o):
    if isinstance(o, (list, tuple)):
        for x in o:
            yield from flatten(x)
    else:
        yield o


def canon_op(w, o):
    with np.errstate(all="ignore"):
        return W.canon(run_safe(w, o))


RTOL = 1e-8


def diff_op(o, a, b):
    """Compare two canonical results of op o."""
    if o[0] in APPROX:
        return W.diff(a, b, rtol=RTOL, atol=1e-12)
    return W.diff(a, b)


# ---------------------------------------------------------------- generating worlds and ops
class OpGen(W.Gen):
    def world(self, tel=None, small=False, nrv=None):
        """[(name, spec)...] for a world with one of everything."""
        r = self.r
        w = [("tel", tel or self.optic())]
        w += [("lens", self.lensOptic())]
        for i in range(2 if small else 3):
            w.append((f"s{i}", self.surface()))
        w.append(("scr", self.surface(("Zernike", "Bicubic", "Tilted"))))
        for i in range(2):
            w.append((f"m{i}", self.medium()))
        w.append(("tm", ["TableMedium", [300e-9, 450e-9, 600e-9, 1200e-9], [1.5, self.u(1.45, 1.5), 1.46, 1.4]]))
        w.append(("c0", self.coating()))
        w.append(("ob0", self.obsc()))
        w.append(("pg", self.obsc(kinds=("ObscPolygon",) * 5)))
        for i in range(2):
            w.append((f"cs{i}", self.coordSys()))
        if r.random() < .5:      # nearly, but not, another one
            e = self.pick(1e-8, 1e-7, 1e-6, 1e-5, 1e-4)
            b = self.pick(["CoordSys", [0., 0., 0.], [0., 0., 0.]], w[-1][1], w[-2][1])
            w.append(("csn", ["CoordSys", [x + self.u(-1, 1) * e for x in b[1]], [x + (self.u(-1, 1) * e if r.random() < .5 else 0.) for x in b[2]]]))
        w.append(("lat", ["Lattice", self.pick([3, 4], [5], [2, 3, 2]), r.randrange(100), None]))
        w[-1][1][3] = [[self.u(.1, 1) if i == j else self.u(-.1, .1) for j in range(len(w[-1][1][1]))] for i in range(len(w[-1][1][1]))]
        if r.random() < .5:
            w[-1][1].append(self.pick("masked", "masked", "maskedF", "F", "complex", "int"))
        w.append(("gcs", ["CoordSys"]))
        for i in range(nrv or 2):
            w.append((f"rv{i}", self.raydict(self.size(1, 2, 5, 9, 17))))
        w.append(("rl", self.raydict(self.size(3, 8), cs=False, z=1.0, slope=.05)))
        w.append(("rt0", self.telrays()))
        return w

    PROJ = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")

    def rvname(self, world):
        return self.r.choice([n for n, _ in world if n.startswith("r")])

    def rival(self, world, o):
        """An operation of the same kind, most likely with other arguments."""
        if o[0] in ANALYSES:
            return self.analysis(o[0])
        i = {"trace": 3, "traceFull": 3, "traceSplit": 4, "partTrace": 5}.get(o[0])
        if i and self.r.random() < .7:      # the same thing the other way round
            q = o[:i] + [False] * (i - len(o)) + [not (o[i] if len(o) > i else False)]
            return q
        for _ in range(40):
            q = self.construct(world) if o[0] in ("asGrid", "asPolar", "asSpokes", "asFan", "fromStop", "fromFieldAngles") else self.derivation() if o[0] == "derive" else self.query(world, analyses=0, derive=0)
            if q[0] == o[0] and (o[0] not in ("surf", "plain", "derive", "partTrace", "draw", "partOwn") or q[1:3] == o[1:3] or self.r.random() < .1):
                return q
        return o

    def near(self, o):
        """The same operation with one number changed, often by very little."""
        import copy
        o = copy.deepcopy(o)
        leaves = []

        def walk(c):
            for k in (c if isinstance(c, dict) else range(len(c))):
                v = c[k]
                if isinstance(v, (list, dict)):
                    walk(v)
                elif isinstance(v, (int, float)) and not isinstance(v, bool):
                    leaves.append((c, k))
        if o[0] in ("mistake", "traceSplit"):     # a negative minimum flux never ends
            return o
        walk(o)
        if not leaves:
            return o
        wl = [x for x in leaves if x[1] == "wavelength"]
        c, k = self.r.choice(wl if wl and self.r.random() < .3 else leaves)
        v = c[k]
        if isinstance(v, int):
            c[k] = max(0, v + self.pick(1, -1)) if v < 100 else v + 1
        elif v and abs(v) < 1e-5 and o[0] == "getN" or k == "wavelength":
            c[k] = v * (1 + self.pick(1, -1) * 10 ** -self.u(3, 12))
        else:
            c[k] = self.pick(-v, v * (1 + self.pick(1, -1) * 10 ** -self.u(2, 12)), v + 10 ** -self.u(6, 13))
        return o

    def name(self, world, *pre):
        return self.r.choice([n for n, _ in world if n.startswith(pre)])

    def pathop(self, rv, inplace=False):
        r = self.r
        k = "tracePath" if inplace else self.pick("tracePath", "traceFullPath")
        if r.random() < .5:
            return [k, "lens", self.pick("rl", rv), self.pick(["S0", "S1"], ["S0", "S1", "S0", "S1"], ["S0", "S1", "S0"])]
        n = r.randint(1, 8)
        p = list(range(n))
        for _ in range(r.choice([0, 1, 1, 2])):     # a ghost: back to an earlier part, then forward again
            a = p[-1]
            b = r.randrange(a) if a else 0
            p += list(range(a - 1, b - 1, -1)) + list(range(b + 1, a + r.choice([0, 1, 1])))
        if r.random() < .15:
            p = [r.randrange(8) for _ in range(r.randint(0, 4))]
        if r.random() < .1:
            p = [self.pick("L1", "L1_0", "Tel.M1", "M1", "Cam", "D") if r.random() < .4 else x for x in p]
        return [k, "tel", self.pick("rt0", rv), p]

    def surfop(self, world, kind=None):
        k = kind or self.pick("intersect", "reflect", "refract", "refract", "rSplit", "refractScreen")
        coat = "c0" if k == "rSplit" or self.r.random() < .4 else None
        return ["surf", k, self.name(world, "s0", "s1", "s2"), self.name(world, "rv", "rl"), self.pick(None, "cs0", "cs1"), coat,
                self.name(world, "m", "tm"), self.name(world, "m", "tm"), "scr", self.pick("fn", "m")]

    def field(self):
        return dict(wavelength=self.pick(500e-9, 620e-9, 750e-9), theta_x=self.u(-.003, .003), theta_y=self.u(-.003, .003))

    def analysis(self, kind=None):
        k = kind or self.r.choice(ANALYSES)
        d = self.field()
        if k == "huygensPSF":
            d.update(nx=self.pick(4, 5), nxOut=self.pick(None, 2, 3))
            if self.r.random() < .5:
                d.update(self.pick(dict(dx=1e-6), dict(dx=1e-6, dy=2e-6), dict(dx=[1e-6, 1e-7], dy=[0., 1e-6])))
            d["reference"] = self.pick("chief", "mean")
        elif k in ("fftPSF", "wavefront", "spot"):
            d.update(nx=self.pick(6, 8, 10) if k == "fftPSF" else self.pick(6, 8, 9, 11), reference=self.pick("chief", "mean"))
            if k == "spot" and self.r.random() < .2:
                d["reference"] = "vertex"
            if k == "fftPSF" and self.r.random() < .4:
                d["pad_factor"] = self.pick(1, 3)
        elif k == "zernike":
            d.update(nx=self.pick(8, 9, 10), jmax=self.pick(4, 6), eps=self.pick(0., .3), reference=self.pick("chief", "mean"))
        elif k == "zernikeGQ":
            d.update(rings=self.pick(2, 3), spokes=self.pick(None, 5), jmax=self.pick(4, 6), eps=self.pick(0., .3), reference=self.pick("chief", "mean"))
        elif k in ("zernikeTA", "zernikeXYAberrations"):
            d.update(nrad=3, naz=12, jmax=self.pick(4, 6), eps=self.pick(0., .3), reference=self.pick("chief", "mean"))
        elif k == "doubleZernike":
            d = dict(wavelength=d["wavelength"], field=0.003, rings=2, spokes=self.pick(None, 3), kmax=3, jmax=4)
        elif k == "exitPupilPos":
            d = dict(wavelength=d["wavelength"])
        elif k in ("drdth", "dthdr", "dkdu"):
            d.update(nrad=2, naz=6)
        if k not in ("doubleZernike", "exitPupilPos"):
            if self.r.random() < .3:
                d["projection"] = self.pick(*self.PROJ)
            if k in ("fftPSF", "wavefront", "zernike", "zernikeGQ") and self.r.random() < .3:
                d["sphereRadius"] = self.pick(8., 20.)
        return [k, "tel", d]

    def construct(self, world):
        k = self.pick("asPolar", "asGrid", "asSpokes", "asFan", "fromStop", "fromFieldAngles", "rand")
        d = self.field()
        d["projection"] = self.pick(*self.PROJ)
        if self.r.random() < .3:
            d["flux"] = self.pick(2.0, 3, 0.5)
        if k == "asPolar":
            d.update(nrad=self.r.randint(1, 4), naz=self.size(6, 12))
            return [k, "tel", d]
        if k == "asGrid":
            d.update(nx=int(self.size(*(q * q for q in range(2, 9))) ** .5))
            if self.r.random() < .3:
                d["ny"] = self.r.randint(2, 5)
            if self.r.random() < .2:
                del d["theta_x"], d["theta_y"]
                d["dirCos"] = [.01, .02, -1.]
            return [k, "tel", d]
        if k == "asSpokes":
            d.update(rings=self.r.randint(2, 4), spokes=self.r.randint(3, 6), spacing=self.pick("uniform", "GQ"), flux=1.0)
            return [k, "tel", d]
        if k == "asFan":
            d.update(nx=self.r.randint(2, 5), ny=self.r.randint(2, 5))
            return [k, "tel", d]
        if k == "fromStop":
            return [k, "tel", d, self.size(1, 2, 3, 4, 5, 6), self.r.randrange(1000)]
        if k == "fromFieldAngles":
            return [k, "tel", dict(wavelength=d["wavelength"], projection=d["projection"]), self.size(1, 2, 3, 4, 5, 6), self.r.randrange(1000)]
        d.update(nrandom=self.size(*range(1, 13)), rng=self.r.randrange(10**6))
        if self.r.random() < .5:
            d.update(nx=1)
            return ["asGrid", "tel", d]
        return ["asPolar", "tel", d]

    def partown(self, world, rv):
        k = self.pick("eq", "withGlobalShift", "withLocalShift", "withGlobalRotation", "withLocalRotation", "withSurface", "withPerturbedSurface", "traceFull", "traceSplit")
        v, spec = None, None
        if "Shift" in k:
            v = self.v3(.01)
        elif "Rotation" in k:
            v = self.v3(.01) + (self.v3(.1) + self.v3(.1) + self.v3(.01) if self.r.random() < .5 else [])
        elif "Surface" in k:
            spec = self.surface(("Plane", "Sphere", "Zernike", "Tilted", "Quadric"), 4.)
        elif k.startswith("trace"):
            v = rv
        return ["partOwn", self.pick("tel", "lens"), self.r.randrange(50), k, v, spec]

    def plainrays(self):
        r = self.r
        k = self.pick("asGrid", "asGrid", "asPolar", "asSpokes", "asSpokes", "fromStop", "fromFieldAngles", "asFan")
        d = self.field()
        if r.random() < .5:
            d["projection"] = self.pick(*self.PROJ)
        if r.random() < .5:
            d["backDist"] = self.pick(3., 12.)
        if r.random() < .5:
            d["medium"] = "@m0"
        if r.random() < .5:
            d["stop"] = ["optic", dict(type="Interface", surface=self.surface(("Plane", "Sphere", "Paraboloid")), coordSys=self.coordSys())]
        if r.random() < .4 and k != "fromFieldAngles":
            d["coordSys"] = "@cs0"
        if r.random() < .3:
            d["flux"] = self.pick(2., 0.)
        if k != "fromFieldAngles" and r.random() < .2:
            del d["theta_x"], d["theta_y"]
            d["dirCos"] = [.05, -.02, -1.1]
        if k in ("asGrid", "asFan"):
            d.update(nx=r.randint(1 + (k == "asFan"), 7), **self.pick(dict(lx=2.), dict(dx=.2), dict(lx=[1., .2])))
            if k == "asGrid" and r.random() < .3:
                d.update(ny=r.randint(1, 5))
            if k == "asGrid" and r.random() < .2:
                d = {q: v for q, v in d.items() if q not in ("nx", "ny")}
                d.update(lx=1., dx=self.pick(.2, .3))
            elif k == "asFan":
                d.update(ny=r.randint(2, 5))
            elif r.random() < .15:
                d.update(nrandom=r.randint(1, 9), rng=r.randrange(10**6))
        elif k == "asPolar":
            d.update(outer=1., inner=self.pick(0., .3), nrad=r.randint(1, 4), naz=self.pick(5, 6, 12), kfold=self.pick(4, 6))
        elif k == "asSpokes":
            if r.random() < .5:
                d.update(rings=[.2, .5, 1.], spokes=[0., 1., 2., 3.])
            else:
                d.update(outer=1., inner=.2, rings=r.randint(2, 4), spokes=self.pick(3, 5), spacing=self.pick("uniform", "GQ"))
                d.pop("flux", None)
        elif k == "fromStop":
            d.update(x=self.v3(1.), y=self.v3(1.))
        else:
            d.pop("theta_x"), d.pop("theta_y")
            d.update(tx=self.v3(.02), ty=self.v3(.02), x=self.u(-.3, .3), y=self.u(-.3, .3))
        return ["plain", k, d]

    def v3(self, s):
        return [self.u(-s, s) for _ in range(3)]

    def derivation(self, o="tel", s=1e-4):
        k = self.pick("withGlobalShift", "withLocalShift", "withGlobalRotation", "withLocalRotation", "withGlobalRotationAbout", "withLocalRotationAbout",
                      "withGloballyShiftedOptic", "withGloballyShiftedOptic", "withLocallyShiftedOptic", "withLocallyRotatedOptic", "withLocallyRotatedOptic",
                      "withLocallyRotatedOpticAbout", "withSurface", "withPerturbedSurface", "withPerturbedSurface", "withInsertedOptic", "withRemovedOptic")
        v, spec, idx = None, None, self.r.randrange(100)
        if "Shift" in k:
            v = self.v3(s)
        elif k.endswith("About"):
            v = self.v3(s) + self.v3(.1) + self.v3(.1) + self.v3(.01)
        elif "Rotat" in k:
            v = self.v3(s)
        elif k == "withSurface":
            spec = self.surface(("Plane", "Paraboloid", "Sphere", "Quadric"), 5.0)
        elif k == "withPerturbedSurface":
            spec = self.surface(("Zernike", "Bicubic", "Tilted"), 4.0)
        elif k == "withInsertedOptic":
            i = self.r.randrange(1000)
            spec = ["optic", dict(type=self.pick("Baffle", "Interface"), surface=["Plane"], name=f"ins{i}", coordSys=self.coordSys(),
                                  obscuration=["ObscCircle", 0.05])]
        return ["derive", o, k, idx, v, spec]

    def query(self, world, analyses=0.15, derive=0.1):
        """Any op that leaves the world as it is."""
        r = self.r
        x = r.random()
        if x < analyses:
            return self.analysis()
        if x < analyses + derive:
            return self.derivation()
        k = self.pick("trace", "trace", "trace", "lens", "traceFull", "traceSplit", "traceSplit", "part", "surf", "surf", "surf", "surf", "sag", "normal", "getN", "coefs", "contains",
                      "containsGrid", "obscure", "cs", "ctA", "ctR", "toCS", "prop", "pos", "phase", "amp", "sum", "acc", "slice", "index", "mask", "concat",
                      "copy", "eq", "repr", "eqhash", "pickle", "draw", "draw", "own", "own", "ctS", "mistake", "mistake", "take", "take", "plain", "plain", "util", "deep", "ctor", "ctor", "ctor", "lookup", "lookup", "cleared", "mesh", "xz", "lat", "proj", "parse", "rays", "path")
        rv = self.rvname(world)
        anyobj = r.choice([n for n, _ in world])
        if k == "trace":
            return ["trace", "tel", "rt0", r.random() < .1]
        if k == "lens":
            return ["trace", "lens", "rl", False]
        if k == "traceFull":
            return self.pick(["traceFull", "tel", "rt0"], ["traceFull", "lens", "rl"])
        if k == "traceSplit":
            return ["traceSplit", "lens", "rl", self.pick(.2, .05)]
        if k == "part":
            return ["partTrace", "tel", r.randrange(50), rv, self.pick("trace", "trace", "interact", "intersect", "refract", "reflect", "rSplit"), r.random() < .3]
        if k == "path":
            return self.pathop(rv)
        if k == "rays":
            return ["globalRays", "tel", "rt0", self.pick(None, r.randrange(4)), self.pick(None, r.randrange(4, 20)), self.pick(None, "cs0")]
        if k == "draw":
            kk = self.pick("2d", "lens", "mirror", "3d", "plotly", "trace2d", "trace3d", "traceplotly")
            return ["draw", self.pick("tel", "tel", "lens"), kk] if not kk.startswith("trace") else self.pick(["draw", "tel", kk, "rt0"], ["draw", "lens", kk, "rl"])
        if k == "own":
            return self.partown(world, rv)
        if k == "ctS":
            return ["ctSelf", "cs0", self.pick("cs1", "gcs"), r.randint(1, 6), r.randrange(100), r.random() < .5]
        if k == "take":
            return ["take", rv, self.pick("ints", "list", "bool", "neg", "npint", "iter"), r.randrange(1000)]
        if k == "mistake":
            return ["mistake", r.randrange(MISTAKES), rv]
        if k == "plain":
            return self.plainrays()
        if k == "util":
            return ["utility", self.pick("hexapolar", "zero", "normalized", "closest", "fit"), r.randrange(5), r.randrange(1000)]
        if k == "surf":
            return self.surfop(world)
        if k in ("sag", "normal"):
            return [k, self.name(world, "s"), self.pick(0, 1, 4, 7), self.pick(0, 0, 3), self.u(.3, 1.2), r.randrange(1000)]
        if k == "getN":
            return [k, self.name(world, "m", "tm"), self.pick(500e-9, [400e-9, 550e-9, 700e-9, 450e-9], 600e-9)]
        if k == "coefs":
            return [k, "c0", 500e-9, self.u(0, 1)]
        if k == "contains":
            return [k, self.name(world, "ob", "pg"), self.pick(0, 1, 5, 9), self.pick(0, 0, 3), self.u(.3, 1.2), r.randrange(1000)]
        if k == "containsGrid":
            return [k, "pg", r.randint(2, 9), r.randint(2, 9), self.u(.5, 1.5)]
        if k == "obscure":
            return [k, self.name(world, "ob", "pg"), rv, self.pick("fn", "m")]
        if k == "cs":
            kk = self.pick("shiftGlobal", "shiftLocal", "toGlobal", "toLocal", "rotateGlobal", "rotateLocal", "copy", "xhat", "yhat", "zhat")
            return ["csOp", self.name(world, "cs"), kk, self.v3(.1), self.pick(None, "cs0", "cs1")]
        if k == "ctA":
            return ["ctArrays", "cs0", "cs1", r.randint(1, 6), r.randrange(100), r.random() < .5]
        if k == "ctR":
            return ["ctRays", "cs0", "cs1", rv, r.random() < .5, self.pick("fn", "m")]
        if k == "toCS":
            return ["toCoordSys", rv, self.name(world, "cs", "gcs")]
        if k == "prop":
            return ["propagate", rv, self.u(-3, 3)]
        if k == "pos":
            return ["positionAtTime", rv, self.u(-3, 3)]
        if k in ("phase", "amp", "sum"):
            o = [{"phase": "phase", "amp": "amplitude", "sum": "sumAmplitude"}[k], rv, self.v3(1.), self.u(-1, 1)]
            return o + ([r.random() < .5] if k == "sum" else [])
        if k == "acc":
            return [self.pick("accessors", "fields"), rv]
        if k == "slice":
            return ["slice_", rv, self.pick(None, 0, 1), self.pick(None, 3, -1), self.pick(None, 2)]
        if k == "index":
            return ["index", rv, r.randrange(50)]
        if k == "mask":
            return ["mask", rv]
        if k == "concat":
            return ["concat", rv] + [self.rvname(world) for _ in range(self.pick(0, 1, 1, 2, 3))]
        if k == "copy":
            return ["rvcopy", rv]
        if k == "eq":
            return ["rveq", rv, rv if r.random() < .5 else self.rvname(world)] if r.random() < .3 else ["rveq", rv, rv]
        if k == "repr":
            return ["reprs", anyobj]
        if k == "eqhash":
            return ["eqhash", r.choice([n for n, _ in world if not n.startswith("r")])]
        if k == "pickle":
            return ["roundtrip", anyobj]
        if k == "deep":
            return ["deep", anyobj]
        if k == "ctor":
            return self.construct(world)
        if k == "lookup":
            return ["lookup", "tel", r.randrange(100)]
        if k == "cleared":
            return ["cleared", "tel", r.randrange(100), r.random() < .5]
        if k in ("mesh", "xz"):
            return [k, "tel"]
        if k == "lat":
            return ["latcoords", "lat"]
        if k == "proj":
            return ["project", self.pick(*self.PROJ), self.r.randint(1, 6), r.randrange(1000)]
        return ["parseOptic", r.choice(W.YAMLS[:5])]
