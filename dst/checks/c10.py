"""C10: caller data passed in is neither modified nor retained."""
import array, copy
import numpy as np
from .. import world as W, ops as O, zygote as Z
from ..harness import Violation, mix, threads
from ..simload import VIOL_KINDS

ID = "C10"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 3000, "thorough": 40000}
SHRINK = ("hist",)
RULE = ("a case is one call that took arrays or containers from buffers the caller owns and reuses (any dtype, layout, list or tuple, read-only view), with the buffers' bytes compared before and after, the answer "
        "compared with that for private plain arrays, or one later comparison of an object built from such buffers after they were overwritten; distinct by (target, layouts, reuse history); non-trivial when a buffer was passed")
MEASURE = "hashes of (target, layouts, number of reuses before)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy"]
STUB = ["the caller's buffer management (simulated: one arena reused at seeded moments)", "OpenMP runtime (simulated)"]

FL = ("plain", "list", "tuple", "f4", "i8", "i4", "i2", "be", "strided", "neg", "F", "ro", "unaligned", "bcast", "sub", "obj", "pyarr", "plain", "strided", "ro")
BO = ("plain", "list", "i8", "u1", "strided", "neg", "ro", "f8", "tuple")
MA = ("plain", "list", "strided", "neg", "ro")
IX = ("plain", "list", "i4", "u1", "strided", "neg", "ro", "be")
SIZE = 1 << 20
BIGN = (65, 100, 128, 257, 1000)      # code may treat large inputs differently


class Sub(np.ndarray):
    pass


class Caller:
    """Hands out values laid out in an arena that it reuses."""

    def __init__(self):
        self.arena = np.zeros(SIZE, np.uint8)
        self.lists = [[] for _ in range(1100)]
        self.dicts = []
        self.reuse = 0

    def begin(self, base, kinds):
        self.off, self.kinds, self.k, self.l = base, kinds, 0, 0
        self.plain, self.used = [], []
        self.reuse += 1

    def place(self, a, dt, order="C", step=1, neg=False, mis=0):
        a = np.asarray(a)
        isz = np.dtype(dt).itemsize
        self.off += (-self.off) % 8 + mis
        n = max(1, a.size) * isz * abs(step)
        if self.off + n > SIZE:
            self.off = mis
        flat = np.ndarray((a.size * step,), dt, self.arena, self.off)[::step]
        self.off += n
        v = flat.reshape(a.shape, order=order) if step == 1 else np.lib.stride_tricks.as_strided(flat, a.shape, tuple(np.array(_cstr(a.shape)) * isz * step))
        if neg:
            v = v[(slice(None, None, -1),) * a.ndim]
        with np.errstate(all="ignore"):
            v[...] = a
        return v

    def lst(self, x):
        if isinstance(x, list):
            l = self.lists[self.l % len(self.lists)]
            self.l += 1
            l[:] = [self.lst(y) for y in x]
            return l
        return x

    def kind(self, table):
        k = self.kinds[self.k % len(self.kinds)] if self.kinds else 0
        self.k += 1
        return table[k % len(table)]

    def give(self, a, table, dt):
        k = self.kind(table)
        a = np.asarray(a, dt)
        if k == "F" and a.ndim < 2 or k == "bcast" and (a.ndim != 1 or not a.size):
            k = "plain"
        if k in ("i8", "i4", "i2", "u1") and dt is float:
            a = np.rint(np.clip(np.nan_to_num(a), -3e4, 3e4))
        if k in ("list", "tuple"):
            v = a.tolist()
            v = self.lst(v) if k == "list" else _tup(v)
        elif k == "pyarr":
            v = array.array("d", a.ravel().tolist()) if dt is float and a.ndim == 1 else self.place(a, dt)
        elif k == "obj":
            v = a.astype(object)
        elif k == "be":
            v = self.place(a, np.dtype(dt).newbyteorder(">"))
        elif k in ("f4", "i8", "i4", "i2", "u1", "f8"):
            v = self.place(a, np.dtype(k))
        elif k == "strided":
            v = self.place(a, dt, step=3)
        elif k == "neg":
            v = self.place(a, dt, neg=True)
        elif k == "F":
            v = self.place(a, dt, order="F")
        elif k == "ro":
            v = self.place(a, dt)
            v.flags.writeable = False
        elif k == "unaligned":
            v = self.place(a, dt, mis=3 if np.dtype(dt).itemsize > 1 else 0)
        elif k == "bcast":
            v = np.lib.stride_tricks.as_strided(self.place(a[:1], dt), a.shape, (0,), writeable=False)
        elif k == "sub":
            v = self.place(a, dt).view(Sub)
        else:
            v = self.place(a, dt)
        self.used.append(k)
        self.plain.append(np.array(v.tolist() if isinstance(v, np.ndarray) else list(v) if k == "pyarr" else v, dtype=dt).reshape(a.shape))
        if k == "obj" or k == "pyarr":
            self.dicts.append(v)
        return v

    def f(self, a):
        return self.give(a, FL, float)

    def b(self, a):
        return self.give(a, BO, bool)

    def i(self, a):
        return self.give(a, IX, int)

    def m(self, a):
        return self.give(a, MA, bool)

    def seq(self, x):
        """A list of objects, which the caller reuses."""
        l = self.lists[self.l % len(self.lists)]
        self.l += 1
        l[:] = x
        self.used.append("list")
        return l

    def dct(self, d):
        self.dicts.append(d)
        self.used.append("dict")
        return d

    def state(self):
        return self.arena.tobytes(), [list(l) for l in self.lists], [_tree(d) for d in self.dicts]

    def same(self, s):
        if self.arena.tobytes() != s[0]:
            return "an array"
        for l, m in zip(self.lists, s[1]):
            if len(l) != len(m) or any(x is not y for x, y in zip(l, m)):
                return "a list"
        if [_tree(d) for d in self.dicts] != s[2]:
            return "a dictionary, array.array or object array"
        return None

    def scribble(self, g, mode):
        n = SIZE // 8
        if mode == "nan":
            v = np.full(n, np.nan)
        elif mode == "zero":
            v = np.zeros(n)
        elif mode == "big":
            v = g.normal(size=n) * 1e6
        else:
            v = g.integers(0, 256, SIZE, dtype=np.uint8).view(float)
        self.arena[:] = v.view(np.uint8)
        for l in self.lists:
            if mode == "nan":
                l.clear()
            else:
                l[:] = [1e3 * x for x in l if isinstance(x, float)] + [None]
        for d in self.dicts:
            if isinstance(d, dict):
                _wreck(d)
            elif isinstance(d, np.ndarray):
                d[...] = 1e5
            else:
                for i in range(len(d)):
                    d[i] = 7.5e4
        self.dicts = []
        for l in self.lists:
            for x in list(l):
                if isinstance(x, list):
                    x.clear()


class Twin:
    """Replays the values as private plain arrays."""

    def __init__(self, plain):
        self.p = list(plain)

    def f(self, a):
        return self.p.pop(0).copy()
    b = i = m = f

    def seq(self, x):
        return list(x)

    def dct(self, d):
        return d


def _cstr(s):
    out, k = [], 1
    for n in reversed(s):
        out.insert(0, k)
        k *= n
    return out


def _tup(x):
    return tuple(_tup(y) for y in x) if isinstance(x, list) else x


def _tree(d):
    if isinstance(d, dict):
        return [(k, _tree(v)) for k, v in d.items()]
    if isinstance(d, list):
        return [_tree(v) for v in d]
    return repr(list(d)) if type(d).__name__ == "array" else repr(d)


def _wreck(d):
    if isinstance(d, dict):
        for k in list(d):
            _wreck(d[k])
            d[k] = -1e9
    elif isinstance(d, list):
        for x in d:
            _wreck(x)
        d.clear()


# ------------------------------------------------------------------ targets
def N(g, *sizes):
    return int(g.choice(BIGN if g.random() < .12 else sizes))


def t_RayVector(B, g, A):
    n = N(g, 1, 2, 3, 5, 17)
    u = lambda s=1.: g.uniform(-s, s, n)
    full = lambda mk: A.f(mk()) if g.random() < .8 else A.f(mk()[:1])
    a = [A.f(u()), full(u), A.f(u() + 5), A.f(u(.1)), A.f(u(.1)), A.f(u(.1) - 1)]
    k = {}
    if g.random() < .7:
        k["t"] = full(u)
    k["wavelength"] = A.f(g.uniform(4e-7, 9e-7, n)) if g.random() < .7 else 5e-7
    if g.random() < .7:
        k["flux"] = full(lambda: g.uniform(.1, 2, n))
    if g.random() < .7:
        k["vignetted"] = A.b(g.random(n) < .3)
    if g.random() < .7:
        k["failed"] = A.b(g.random(n) < .2)
    if g.random() < .3:
        k["coordSys"] = B.CoordSys(A.f(u3(g)), A.f(rot(g)))
    return lambda: B.RayVector(*a, **k)


def u3(g, s=1.):
    return g.uniform(-s, s, 3)


def rot(g):
    return W.rotm(g.uniform(-.1, .1, 3)) if g.random() < .7 else np.eye(3)[:, [1, 0, 2]] * [1, 1, -1]


def _ctor(B, g, A):
    k = dict(wavelength=5e-7, backDist=float(g.uniform(5, 15)))
    if g.random() < .4:
        k["coordSys"] = B.CoordSys(A.f(u3(g, .1)), A.f(rot(g)))
    if g.random() < .3:
        k["medium"] = B.ConstMedium(1.2)
    if g.random() < .4:
        k["stopSurface"] = B.optic.Interface(B.Paraboloid(20.), coordSys=B.CoordSys(A.f(u3(g, .1)), A.f(rot(g))))
    if g.random() < .6:
        v = np.array([*g.uniform(-.01, .01, 2), -1.])
        k["dirCos"] = A.f(v)
    else:
        k["theta_x"], k["theta_y"] = float(g.uniform(-.01, .01)), float(g.uniform(-.01, .01))
        k["projection"] = proj(g)
    return k


PROJ = ("postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic")


def proj(g):
    return PROJ[g.integers(len(PROJ))]


def t_fromStop(B, g, A):
    n = N(g, 1, 2, 5, 9)
    k = _ctor(B, g, A)
    x, y = A.f(g.uniform(-1, 1, n)), A.f(g.uniform(-1, 1, n) if g.random() < .8 else g.uniform(-1, 1, 1))
    if g.random() < .5:
        k["flux"] = A.f(g.uniform(.1, 1, n))
    return lambda: B.RayVector.fromStop(x, y, **k)


def t_fromFieldAngles(B, g, A):
    n = N(g, 1, 2, 5, 9)
    k = {a: b for a, b in _ctor(B, g, A).items() if a in ("wavelength", "backDist", "medium", "stopSurface")}
    tx, ty = A.f(g.uniform(-.01, .01, n)), A.f(g.uniform(-.01, .01, n))
    if g.random() < .5:
        k["flux"] = A.f(g.uniform(.1, 1, n))
    if g.random() < .5:
        k["x"], k["y"] = .3, -.2
    return lambda: B.RayVector.fromFieldAngles(tx, ty, **k)


def t_fromFieldAnglesProj(B, g, A):
    n = N(g, 1, 2, 5, 9)
    tx, ty, p = A.f(g.uniform(-.01, .01, n)), A.f(g.uniform(-.01, .01, n)), proj(g)
    return lambda: B.RayVector.fromFieldAngles(tx, ty, projection=p, wavelength=6e-7, medium=B.ConstMedium(1.3))


def t_asGrid(B, g, A):
    k = _ctor(B, g, A)
    nx = int(g.integers(1, 5)) if g.random() < .9 else int(g.integers(9, 30))
    if g.random() < .5:
        k["lx"] = A.f([1.5, .2])
        k["nx"] = nx
        k["ny"] = ny = int(g.integers(1, 5)) if g.random() < .9 else int(g.integers(9, 30))
        if g.random() < .5:
            k["ly"] = A.f([-.1, 1.2])
    else:
        ny = nx
        k.update(nx=nx, lx=float(g.uniform(1, 2)))
    if g.random() < .6:
        k["flux"] = A.f(g.uniform(.1, 1, nx * ny))
    return lambda: B.RayVector.asGrid(**k)


def polar_size(B, k):
    n = len(B.RayVector.asPolar(**{a: v for a, v in k.items() if a != "flux"}))
    return n


def t_asPolar(B, g, A):
    k = _ctor(B, g, A)
    big = g.random() < .12
    k.update(outer=1.2, inner=float(g.choice([0, .4])), nrad=12 if big else 2, naz=60 if big else 6)
    if g.random() < .6:
        k["flux"] = A.f(g.uniform(.1, 1, polar_size(B, k)))
    return lambda: B.RayVector.asPolar(**k)


def t_asSpokes(B, g, A):
    k = _ctor(B, g, A)
    nr = N(g, 3, 3, 4)
    k.update(rings=A.f(np.linspace(.3, .9, nr)), spokes=A.f(g.uniform(0, 6, N(g, 4, 3) if nr < 9 else 4)))
    if g.random() < .5:
        k["flux"] = A.f(g.uniform(.1, 1, 3))
    return lambda: B.RayVector.asSpokes(**k)


def _rv(B, g, n=9):
    return W.rays(dict(n=n, seed=int(g.integers(1 << 30)), z=3.0))


def t_phase(B, g, A):
    rv, r, t, k = _rv(B, g), A.f(u3(g)), float(g.uniform(-1, 1)), int(g.integers(3))
    return lambda: (rv.phase, rv.amplitude, rv.sumAmplitude)[k](r, t)


def t_index(B, g, A):
    n = N(g, 9)
    rv = _rv(B, g, n)
    idx = A.i(g.integers(0, n, N(g, 5, 2))) if g.random() < .5 else A.m(g.random(n) < .5)
    return lambda: rv[idx]


def t_concat(B, g, A):
    l = A.seq([_rv(B, g, int(g.integers(1, 5))) for _ in range(3)])
    return lambda: B.concatenateRayVectors(l)


def t_Asphere(B, g, A):
    c = A.f(g.uniform(-1e-3, 1e-3, N(g, 1, 2, 3, 4) % 40 or 1))
    return lambda: B.Asphere(12., -.7, c, 2)


def t_Zernike(B, g, A):
    c = A.f(g.uniform(-1e-3, 1e-3, N(g, 2, 4, 5, 9, 11, 14) % 101 or 1))
    return lambda: B.Zernike(c, 1.4, .2)


def t_Bicubic(B, g, A):
    nx, ny = (int(g.integers(9, 30)), int(g.integers(9, 30))) if g.random() < .12 else (int(g.integers(4, 8)), int(g.integers(4, 8)))
    xs, ys = A.f(np.arange(nx) - nx // 2), A.f(np.arange(ny) * 2. - ny)
    zs = A.f(g.normal(size=(ny, nx)) * (3 if g.random() < .3 else 1e-3))
    d = [A.f(g.normal(size=(ny, nx)) * 1e-3) for _ in range(3)] if g.random() < .4 else []
    return lambda: B.Bicubic(xs, ys, zs, *d)


def t_Sum(B, g, A):
    l = A.seq([B.Paraboloid(20.), B.Zernike(A.f(g.uniform(-1e-3, 1e-3, 5))), B.Tilted(.01, .02)])
    return lambda: B.Sum(l)


def t_sag(B, g, A):
    s = [B.Paraboloid(9.), B.Quadric(9., -.3), B.Asphere(9., 0., [1e-3]), B.Zernike([0, 0, .01, .02, .03]), B.Tilted(.1, .2), W.build(["Bicubic", 5, 6, 1., 1., 1e-2, 3, "nan", 0]), B.Sum([B.Sphere(9.), B.Plane()])][g.integers(7)]
    n = N(g, 1, 4, 9)
    x, y = g.uniform(-.9, .9, n), g.uniform(-.9, .9, n)
    if g.random() < .3 and n == 4:
        x, y = x.reshape(2, 2), y.reshape(2, 2)
    x, y = A.f(x), A.f(y)
    f = s.sag if g.random() < .5 else s.normal
    return lambda: f(x, y)


def t_TableMedium(B, g, A):
    n = N(g, 1, 2, 3, 4, 5)
    k = A.f(np.sort(g.uniform(3e-7, 1e-6, n))) if g.random() < .8 else A.f(np.arange(1., n + 1))
    v = A.f(g.uniform(1.3, 2.6, n))
    return lambda: B.TableMedium(k, v)


def t_getN(B, g, A):
    m = [B.ConstMedium(1.4), B.TableMedium([3e-7, 6e-7, 9e-7], [1.5, 1.45, 1.44]), B.SellmeierMedium(.7, .4, .9, .004, .013, 98.), B.SumitaMedium(2.2, -.01, .011, .0003, -1e-5, 1e-6), B.Air()][g.integers(5)]
    w = g.uniform(3.1e-7, 8.9e-7, N(g, 1, 4, 6))
    w = A.f(w.reshape(2, -1) if len(w) % 2 == 0 and g.random() < .3 else w)
    return lambda: m.getN(w)


def t_coefs(B, g, A):
    if g.random() < .5:
        c = A.f([.6961663, .4079426, .8974794, .0684043**2, .1162414**2, 9.896161**2])
        return lambda: B.SellmeierMedium(c)
    c = A.f([2.2, -.01, .011, .0003, -1e-5, 1e-6])
    return lambda: B.SumitaMedium(c)


def t_ObscPolygon(B, g, A):
    n = N(g, 3, 4, 5, 6, 7)
    th = np.sort(g.uniform(0, 6.28, n))
    s = 5. if g.random() < .3 else .8
    x, y = A.f(s * np.cos(th)), A.f(s * np.sin(th))
    return lambda: B.ObscPolygon(x, y)


def t_contains(B, g, A):
    o = W.build([["ObscCircle", .5], ["ObscAnnulus", .2, .6], ["ObscRectangle", .5, .6, .1, 0., .2], ["ObscRay", .1, .3], ["ObscPolygon", [.5, -.5, 0.], [-.5, -.4, .6]],
                 ["ObscNegation", ["ObscCircle", .5]], ["ObscUnion", ["ObscCircle", .3], ["ObscRay", .1, 2.]], ["ObscIntersection", ["ObscCircle", .6, .1, .1], ["ObscCircle", .5]]][g.integers(8)])
    n = N(g, 1, 4, 12)
    x, y = g.uniform(-.9, .9, n), g.uniform(-.9, .9, n)
    if g.random() < .4 and n % 2 == 0:
        x, y = x.reshape(2, -1), y.reshape(2, -1)
    x, y = A.f(x), A.f(y)
    return lambda: o.contains(x, y)


def t_containsGrid(B, g, A):
    o = B.ObscPolygon([.5, -.5, 0.], [-.5, -.4, .6])
    x, y = A.f(np.linspace(-1, 1, N(g, 2, 3, 4, 6) % 200)), A.f(np.linspace(-1, 1, N(g, 2, 3, 4, 6) % 200))
    return lambda: o.containsGrid(x, y)


def t_ObscList(B, g, A):
    l = A.seq([B.ObscCircle(.3), B.ObscRay(.1, .2), B.ObscPolygon(A.f([.5, -.5, 0.]), A.f([-.5, -.4, .6]))])
    c = (B.ObscUnion, B.ObscIntersection)[g.integers(2)]
    return lambda: c(l)


def t_CoordSys(B, g, A):
    a = [A.f(u3(g)), A.f(rot(g))]
    return lambda: B.CoordSys(*a)


def _cs(B, g):
    return B.CoordSys(u3(g), rot(g)) if g.random() < .8 else B.CoordSys()


def t_csShift(B, g, A):
    cs, d, k = _cs(B, g), A.f(u3(g)), g.random() < .5
    return lambda: cs.shiftGlobal(d) if k else cs.shiftLocal(d)


def t_csRotate(B, g, A):
    cs, r, k, o = _cs(B, g), A.f(rot(g)), g.random() < .5, _cs(B, g) if g.random() < .5 else None
    c = A.f(u3(g)) if g.random() < .6 else (0, 0, 0)
    return lambda: (cs.rotateGlobal if k else cs.rotateLocal)(r, c, o)


def t_csConvert(B, g, A):
    cs, k = _cs(B, g), g.random() < .5
    v = A.f(g.normal(size=(N(g, 4), 3)) if g.random() < .6 else u3(g))
    return lambda: cs.toGlobal(v) if k else cs.toLocal(v)


def t_ctArrays(B, g, A):
    ct, k, n = B.CoordTransform(_cs(B, g), _cs(B, g)), g.random() < .5, N(g, 1, 4)
    x, y, z = [A.f(g.normal(size=n)) for _ in range(3)]
    return lambda: (ct.applyForwardArray if k else ct.applyReverseArray)(x, y, z)


def t_ctor_ct(B, g, A):
    a, b = B.CoordSys(A.f(u3(g)), A.f(rot(g))), B.CoordSys(A.f(u3(g)), A.f(rot(g)))
    return lambda: B.CoordTransform(a, b)


def _opt(B, g):
    s = int(g.integers(1 << 30))
    return W.build(W.Gen(s).telescope())


def t_opticWith(B, g, A):
    o = _opt(B, g)
    k = int(g.integers(6))
    p = [i for i in o.items][g.integers(len(o.items))] if g.random() < .3 else o
    nm = o.items[g.integers(len(o.items))].name
    sh, r, c = A.f(u3(g, .01)), A.f(rot(g)), A.f(u3(g)) if g.random() < .5 else None
    cs = B.CoordSys(A.f(u3(g)), A.f(rot(g))) if g.random() < .4 else None
    return lambda: [lambda: p.withGlobalShift(sh), lambda: p.withLocalShift(sh), lambda: p.withGlobalRotation(r, c, cs), lambda: p.withLocalRotation(r, c, cs),
                    lambda: o.withGloballyShiftedOptic(nm, sh), lambda: o.withLocallyRotatedOptic(nm, r, c, cs)][k]()


def t_opticList(B, g, A):
    o = _opt(B, g)
    it = list(o.items)
    l = A.seq(it)
    cs = B.CoordSys(A.f(u3(g, .1)), A.f(rot(g)))
    m = B.TableMedium(A.f([3e-7, 6e-7, 9e-7]), A.f([1.5, 1.45, 1.44]))
    return lambda: B.CompoundOptic(l, name="C", coordSys=cs, inMedium=m, backDist=10., stopSurface=B.optic.Interface(B.Plane()))


def t_opticOne(B, g, A):
    cs = B.CoordSys(A.f(u3(g, .1)), A.f(rot(g)))
    s = B.Asphere(9., 0., A.f([1e-3, 1e-4]))
    ob = B.ObscPolygon(A.f([.5, -.5, 0.]), A.f([-.5, -.4, .6]))
    m = B.TableMedium(A.f([3e-7, 6e-7, 9e-7]), A.f([1.5, 1.45, 1.44]))
    return lambda: B.optic.RefractiveInterface(s, name="x", coordSys=cs, obscuration=ob, inMedium=m, outMedium=B.ConstMedium(1.2))


def t_parse(B, g, A):
    d = W.config(W.YAMLS[g.integers(len(W.YAMLS))]) if g.random() < .4 else dict(
        type="CompoundOptic", name="T", backDist=5., pupilSize=2., coordSys=dict(z=.1, rotX=.01, shift=[.1, 0., .2]), inMedium=dict(type="TableMedium", wavelengths=[3e-7, 9e-7], ns=[1.2, 1.3]),
        stopSurface=dict(type="Interface", surface=dict(type="Plane")),
        items=[dict(type="Mirror", name="M", surface=dict(type="Asphere", R=20., conic=-1., coefs=[1e-5, 1e-6]), obscuration=dict(type="ClearCircle", radius=1., x=0., y=0.)),
               dict(type="OPDScreen", name="S", surface=dict(type="Plane"), screen=dict(type="Zernike", coef=[0., 1e-6, 2e-6, 3e-6])),
               dict(type="Detector", name="D", coordSys=dict(z=9.), surface=dict(type="Sum", items=[dict(type="Plane"), dict(type="Tilted", tanx=.01, tany=0.)]),
                    obscuration=dict(type="ObscUnion", items=[dict(type="ObscPolygon", xs=[1., 2., 3.], ys=[1., 2., 0.]), dict(type="ObscCircle", radius=.1)]))])
    d = A.dct(copy.deepcopy(d))
    return lambda: B.parse.parse_optic(d)


def t_utils(B, g, A):
    p, n = proj(g), N(g, 1, 4, 9)
    if g.random() < .5:
        u, v = A.f(g.uniform(-.1, .1, n)), A.f(g.uniform(-.1, .1, n))
        return lambda: B.utils.fieldToDirCos(u, v, p)
    a, b = g.uniform(-.1, .1, n), g.uniform(-.1, .1, n)
    a, b, c = A.f(a), A.f(b), A.f(-np.sqrt(1 - a * a - b * b))
    return lambda: B.utils.dirCosToField(a, b, c, p)


def t_normalized(B, g, A):
    v = A.f(u3(g))
    return lambda: B.utils.normalized(v)


def t_bilinear(B, g, A):
    n = N(g, 6)
    a = [A.f(g.normal(size=n)) for _ in range(4)]
    return lambda: B.utils.bilinear_fit(*a)


def t_huygens(B, g, A):
    o = _opt(B, g)
    dx, dy = A.f([1e-5, 1e-6]), A.f([0., 1e-5])
    return lambda: B.huygensPSF(o, .001, .002, 6e-7, nx=4, dx=dx, dy=dy, nxOut=3)


def t_screens(B, g, A):
    s = B.Bicubic(A.f(np.linspace(-2, 2, 5)), A.f(np.linspace(-2, 2, 5)), A.f(g.normal(size=(5, 5)) * 1e-3))
    z = B.Zernike(A.f(g.normal(size=6) * 1e-3))
    return lambda: B.optic.OPDScreen(s, z, name="S")


TARGETS = {k[2:]: v for k, v in sorted(globals().items()) if k.startswith("t_")}
PURE = {"utils", "normalized", "bilinear", "csConvert", "ctArrays", "phase", "huygens", "contains", "containsGrid", "sag", "getN"}
FUZZ = {"utils", "normalized", "bilinear", "csConvert", "csShift", "csRotate", "ctArrays", "huygens", "fromStop", "fromFieldAngles", "fromFieldAnglesProj", "asGrid", "asPolar", "asSpokes", "opticWith", "phase"}
#      ^ numpy arithmetic on the caller's layout and dtype: equal to rounding (of the dtype given)


def probe(B, o):
    """What a model or bundle is and does."""
    x, y = np.linspace(-.9, .9, 7), np.linspace(.7, -.8, 7)
    out = [o]
    if isinstance(o, B.RayVector):
        out += [o.copy(), o.r, o.v, len(o)]
    elif isinstance(o, B.Surface):
        rv = W.rays(dict(n=7, seed=5, z=3.0))
        out += [o.sag(x, y), o.normal(x, y), o.intersect(rv.copy()), o.reflect(rv.copy())]
    elif isinstance(o, B.Obscuration):
        out += [o.contains(x, y), o.obscure(W.rays(dict(n=7, seed=5, z=3.0)))]
    elif isinstance(o, B.Medium):
        out += [o.getN(np.array([3e-7, 5e-7, 9e-7]))]
    elif isinstance(o, B.CoordSys):
        out += [o.toGlobal([1., 2., 3.]), o.toLocal([1., 2., 3.])]
    elif isinstance(o, B.CoordTransform):
        out += [o.dr, o.drot, o.applyForward(W.rays(dict(n=7, seed=5)))]
    elif isinstance(o, B.Optic):
        rv = W.rays(dict(n=9, seed=5, z=14., slope=.001, pvig=0, pfail=0))
        try:
            out += [o.trace(rv.copy())]
        except Exception as e:
            out += [e]
    return W.canon(out)


def same(a, b, loose):
    if not loose:
        return W.diff(a, b, 1e-12, 1e-300)
    return W.diff(a, b, *loose)


def norm(c):
    """Types of numbers do not matter, only values."""
    if isinstance(c, tuple):
        if len(c) == 4 and c[0] == "arr" and isinstance(c[3], np.ndarray):
            if c[3].dtype.kind in "fiu":
                a = c[3].astype(float)
                return ("arr", "<f8", c[2], a)
            return c
        if c and c[0] == "objarr":
            if len(c[1]) == 1 or not all(isinstance(x, tuple) and x and x[0] in ("arr", "int") for x in c[2]):
                return norm(("seq",) + c[2])
            return ("arr", "<f8", c[1], np.array([float(x[3] if x[0] == "arr" else x[1]) for x in c[2]]).reshape(c[1]))
        if c and c[0] == "obj" and c[1] == "array":
            return norm(W.canon(np.array(eval(c[2], {"array": array.array}))))
        if len(c) > 1 and c[0] == "seq" and all(isinstance(x, tuple) and x and (x[0] == "arr" and x[2] == () or x[0] == "int") for x in c[1:]):
            return norm(W.canon(np.array([float(x[3] if x[0] == "arr" else x[1]) for x in c[1:]])))
        if len(c) == 2 and c[0] == "int":
            return norm(W.canon(float(c[1])))
        return tuple(norm(x) for x in c)
    return c


def plan(seed, tier):
    import random
    r = random.Random(seed)
    names = sorted(TARGETS)
    hist = []
    for _ in range(r.choice([4, 8, 14])):
        x = r.random()
        if x < .66:
            kinds = [r.randrange(60) for _ in range(r.choice([1, 3, 5]))]
            if r.random() < .2:
                kinds = [0]
            hist.append(["make", r.choice(names), r.randrange(1 << 30), kinds, r.choice([0, 0, 0, 8, 64, 1024, 1 << 14])])
        elif x < .9:
            hist.append(["scribble", r.randrange(1 << 30), r.choice(["nan", "zero", "big", "bytes"])])
        else:
            hist.append(["work", r.randrange(20)])
    hist.append(["scribble", 1, "bytes"])
    return dict(hist=hist, sched=dict(seed=r.randrange(1 << 60), limit=r.choice([1, 1, 3])))


def run(plan, rec, B, rt):
    rec.sample = plan["hist"][:4]
    threads(plan["sched"]["limit"])
    rt.config(seed=plan["sched"]["seed"], strategy=1, grant=0, gap=200, race=0, memchk=1, cap=8)
    rt.reset_stats()
    C = Caller()
    live = []
    import warnings
    warnings.simplefilter("ignore")
    with np.errstate(all="ignore"):
        for i, s in enumerate(plan["hist"]):
            if s[0] == "make":
                make(B, rec, C, live, i, s)
            elif s[0] == "scribble":
                C.scribble(np.random.Generator(np.random.PCG64(s[1])), s[2])
                rec.faults[f"buffers overwritten ({s[2]})"] += 1
                for nm, used, o, t, loose, j in live:
                    rec.evals += 1
                    rec.case("retained", nm, used, j, i)
                    a, b = norm(probe(B, o)), norm(probe(B, t))
                    d = same(b, a, loose)
                    if d:
                        raise Violation(f"step {i}: {nm} built at step {j} from {used} changed when the caller reused its buffers: {d}", f"retained {nm}")
                    rec.see(W.digest(a))
            elif live:
                nm, used, o, t, loose, j = live[s[1] % len(live)]
                if isinstance(o, B.RayVector):
                    st = C.state()
                    for x in (o, t):
                        x.propagate(1.5)
                        B.Paraboloid(25.).intersect(x)
                        if len(x):
                            x.x[0] = .25
                            x.flux[-1] = .5
                            x.vignetted[0] = True
                    bad = C.same(st)
                    if bad:
                        raise Violation(f"step {i}: operations on the bundle built by {nm} at step {j} from {used} changed {bad} of the caller", f"modified later {nm}")
                    rec.ops["in-place use of a built bundle"] += 1
            v = rt.viols()
            if v:
                raise Violation(f"step {i} {s}: " + "; ".join(f"{VIOL_KINDS.get(q.kind, q.kind)} at {rt.where(q.pc)}" for q in v[:3]), f"memory {v[0].kind}")
    rec.steps += rt.stats()["steps"]


def make(B, rec, C, live, i, s):
    _, nm, seed, kinds, base = s
    f = TARGETS[nm]
    C.begin(base, kinds)
    err = None
    st = None
    try:
        call = f(B, np.random.Generator(np.random.PCG64(seed)), C)
        st = C.state()
        got = call()
    except Exception as e:
        err = e
    used = list(C.used)
    if st is not None:
        bad = C.same(st)
        if bad:
            raise Violation(f"step {i}: {nm} given {used} modified {bad} of the caller", f"modified {nm}")
    rec.ops[nm] += 1
    for k in used:
        rec.faults["layout " + k] += 1
    rec.evals += 1
    rec.case(nm, used, C.reuse, seed)
    rec.state(nm, used, C.reuse)
    if err is not None:
        rec.stats["calls that raised"] += 1
        rec.see(nm, type(err).__name__)
        return
    try:
        want = f(B, np.random.Generator(np.random.PCG64(seed)), Twin(C.plain))()
    except Exception as e:
        rec.stats["plain arrays raised where the variant did not"] += 1
        rec.see("plain", nm, type(e).__name__)
        return
    loose = None
    if nm in FUZZ or nm in ("parse",):
        low = "f4" in used
        loose = (2e-6, 2e-6) if low else (1e-12, 1e-14)
        if nm == "huygens":
            loose = (1e-3, 1e-3) if low else (1e-6, 1e-9)
    a, b = norm(W.canon(got)), norm(W.canon(want))
    d = same(b, a, loose)
    if d:
        raise Violation(f"step {i}: {nm} given {used} differs from equal plain arrays: {d}", f"layout {nm}")
    rec.see(nm, W.digest(a))
    if isinstance(got, (B.RayVector, B.Surface, B.Medium, B.Obscuration, B.Optic, B.CoordSys, B.CoordTransform)):
        try:
            a = norm(probe(B, got))
        except Exception as e:
            rec.stats["built objects that raised when used"] += 1
            rec.see("use", nm, type(e).__name__)
            return
        d = same(norm(probe(B, want)), a, loose)
        if d:
            raise Violation(f"step {i}: {nm} given {used} behaves differently from equal plain arrays: {d}", f"layout {nm}")
        live.append((nm, used, got, want, loose, i))
        if len(live) > 8:
            live.pop(0)
