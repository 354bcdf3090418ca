"""Specifications (JSON) of models, rays and operations, how to build and run them, and how to generate them.

Everything goes through batoid's public API.  `canon` turns any result into a comparable tree.
"""
import copy, glob, hashlib, io, math, os, pickle, random, struct
import numpy as np

B = None            # the batoid package, set by init()
_CONFIG = {}


def init(batoid):
    global B
    B = batoid


# ------------------------------------------------------------------ canonical results
def _arr(a):
    a = np.asarray(a)
    if a.dtype == object:
        return ("objarr", a.shape, tuple(canon(x) for x in a.ravel().tolist()))
    a = np.array(a, order="C", copy=True)
    if a.dtype.kind in "fc":
        if a.dtype.kind == "f":
            a[np.isnan(a)] = np.nan
        else:
            r, i = np.array(a.real), np.array(a.imag)
            r[np.isnan(r)] = np.nan
            i[np.isnan(i)] = np.nan
            a = np.stack([r, i])
    return ("arr", a.dtype.str, a.shape, a)


RV_FIELDS = ("x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed")


def canon(o):
    """A tree of tuples with numpy arrays at the leaves; compare with same()/close()."""
    if o is None or isinstance(o, (bool, str, bytes)):
        return o
    if isinstance(o, (int, np.integer)) and not isinstance(o, np.bool_):
        return ("int", int(o))
    if isinstance(o, np.bool_):
        return bool(o)
    if isinstance(o, (float, np.floating)):
        return _arr(np.array(float(o)))
    if isinstance(o, (complex, np.complexfloating)):
        return _arr(np.array(complex(o)))
    if isinstance(o, np.ma.MaskedArray):
        m = np.ma.getmaskarray(o)
        return ("masked", _arr(m), _arr(np.where(m, 0, o.data)))
    if isinstance(o, np.ndarray):
        return _arr(o)
    if isinstance(o, BaseException):
        return ("EXC", type(o).__name__)
    if isinstance(o, dict):
        return ("dict",) + tuple((k, canon(v)) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return ("seq",) + tuple(canon(v) for v in o)
    if isinstance(o, (set, frozenset)):
        return ("set",) + tuple(sorted(map(repr, o)))
    if B is not None:
        if isinstance(o, B.RayVector):
            return ("rv",) + tuple(_arr(getattr(o, f)) for f in RV_FIELDS) + (canon(o.coordSys), canon(getattr(o, "path", None)))
        if isinstance(o, B.CoordSys):
            return ("cs", _arr(o.origin), _arr(o.rot))
        if isinstance(o, B.CoordTransform):
            return ("ct", canon(o.fromSys), canon(o.toSys))
        if isinstance(o, B.Lattice):
            return ("lat", canon(o.array), _arr(o.primitiveVectors), _arr(o.coords))
        if isinstance(o, (B.Surface, B.Medium, B.Coating, B.Obscuration)):
            return model(o)
        if isinstance(o, B.Optic):
            return model(o)
    return ("obj", type(o).__name__, repr(o))


PUBLIC = {}


def _attrs(o):
    """Public data attributes of a model (caches and private names left out)."""
    t = type(o)
    if t not in PUBLIC:
        import functools
        PUBLIC[t] = {n for c in t.__mro__ for n, v in vars(c).items()
                     if isinstance(v, (functools.cached_property, property))}
    return {k: v for k, v in vars(o).items() if not k.startswith("_") and k not in PUBLIC[t] and k not in ("itemDict", "R_inner", "R_outer")}


def model(o):
    """Canonical state of a model object, by its public attributes."""
    d = _attrs(o)
    if isinstance(o, B.Bicubic):
        d = {k: getattr(o, k) for k in ("xs", "ys", "zs", "dzdxs", "dzdys", "d2zdxdys", "nanpolicy")}
    if isinstance(o, B.Zernike):
        d = {k: getattr(o, k) for k in ("coef", "R_outer", "R_inner", "x_origin", "y_origin")}
        d["Z"] = [o.Z.coef, o.Z.R_outer, o.Z.R_inner]
    return ("model", type(o).__name__) + tuple((k, canon(d[k])) for k in sorted(d))


def flat(c):
    out = []

    def rec(c):
        if isinstance(c, tuple):
            if len(c) == 4 and c[0] == "arr" and isinstance(c[3], np.ndarray):
                out.append(repr(c[:3]).encode())
                out.append(c[3].tobytes())
            else:
                out.append(b"(%d" % len(c))
                for x in c:
                    rec(x)
        else:
            out.append(repr(c).encode())
    rec(c)
    return out


def digest(c):
    m = hashlib.sha256()
    for b in flat(c):
        m.update(struct.pack("<q", len(b)))
        m.update(b)
    return m.hexdigest()


def same(a, b):
    return digest(a) == digest(b)


def diff(a, b, rtol=0.0, atol=0.0, path=""):
    """None if equal (arrays to scaled tolerance), else a short description."""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 4 and a[0] == "arr" and isinstance(a[3], np.ndarray):
            if not (len(b) == 4 and b[0] == "arr"):
                return f"{path}: array vs {str(b)[:60]}"
            if a[1:3] != b[1:3]:
                return f"{path}: {a[1:3]} vs {b[1:3]}"
            x, y = a[3], b[3]
            if x.tobytes() == y.tobytes():
                return None
            if x.dtype.kind in "f" and (rtol or atol):
                nx, ny = np.isnan(x), np.isnan(y)
                if (nx != ny).any():
                    i = tuple(np.argwhere(nx != ny)[0])
                    return f"{path}[{i}]: {x[i]} vs {y[i]}"
                fin = np.isfinite(x) & np.isfinite(y)
                if (x[~fin & ~nx] != y[~fin & ~nx]).any():
                    return f"{path}: infinities differ"
                if fin.any():
                    scale = max(np.abs(x[fin]).max(), np.abs(y[fin]).max())
                    bad = fin & ~(np.abs(np.where(fin, x, 0) - np.where(fin, y, 0)) <= atol + rtol * scale)
                    if bad.any():
                        i = tuple(int(k) for k in np.argwhere(bad)[0])
                        return f"{path}{list(i)}: {x[i]!r} vs {y[i]!r} (scale {scale:g})"
                return None
            if x.size:
                w = np.argwhere(~((x == y) | ((x != x) & (y != y))))
                if len(w):
                    i = tuple(int(k) for k in w[0])
                    return f"{path}{list(i)}: {x[i]!r} vs {y[i]!r} ({len(w)} of {x.size} differ)"
                return None if rtol else f"{path}: signed zeros differ"
            return None
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} vs {len(b)}: {str(a)[:80]} | {str(b)[:80]}"
        names = RV_FIELDS + ("coordSys", "path") if a and a[0] == "rv" else None
        for i, (x, y) in enumerate(zip(a, b)):
            p = path + "." + (names[i - 1] if names and i else (str(x[0]) if isinstance(x, tuple) and x and isinstance(x[0], str) and a[0] in ("dict", "model") and i > (a[0] == "model") else str(i)))
            d = diff(x, y, rtol, atol, p)
            if d:
                return d
        return None
    if type(a) == type(b) and a == b:
        return None
    return f"{path}: {str(a)[:100]} vs {str(b)[:100]}"


# ------------------------------------------------------------------ building models
YAMLS = ["HSC", "LSST_r", "DECam", "AuxTel", "LSST_r_baffles", "ComCam_g", "HSC_no_obsc", "DESI", "Calypso", "SDSS", "LSST_r_noobsc", "Rubin_v3.14_i"]


def config(name):
    """Parsed packaged description (read with yaml directly, not through batoid)."""
    if name not in _CONFIG:
        import yaml
        fs = glob.glob(os.path.join(os.path.dirname(B.__file__), "data", "*", name + ".yaml"))
        with open(fs[0]) as f:
            _CONFIG[name] = yaml.safe_load(f)["opticalSystem"]
    return copy.deepcopy(_CONFIG[name])


def arr(a, **k):
    return np.array(a, dtype=float, **k)


def rs(seed):
    return np.random.Generator(np.random.PCG64(seed))


def rotm(v):
    return B.RotX(v[0]) @ B.RotY(v[1]) @ B.RotZ(v[2])


def build(s):
    """Build the object a spec describes."""
    k, a = s[0], s[1:]
    f = _BUILD.get(k)
    if f is None:
        return getattr(B, k)(*a)
    return f(*a)


def _bicubic(nx, ny, lx, ly, amp, seed, policy="nan", derivs=0):
    xs, ys = np.linspace(-lx, lx, nx), np.linspace(-ly, ly, ny)
    g = rs(seed)
    c = g.normal(size=4) * amp
    X, Y = np.meshgrid(xs, ys)
    zs = c[0] * X + c[1] * Y + c[2] * X * Y / lx + c[3] * (X * X + Y * Y) / lx + 0.05 * amp * g.normal(size=X.shape)
    if derivs:
        return B.Bicubic(xs, ys, zs, c[0] + 0 * X, c[1] + 0 * X, 0 * X, nanpolicy=policy)
    return B.Bicubic(xs, ys, zs, nanpolicy=policy)


def _optic(d):
    d = dict(d)
    typ = d.pop("type")
    kw = {}
    for k, v in d.items():
        if k in ("surface", "screen", "obscuration", "inMedium", "outMedium", "coordSys", "medium", "stopSurface"):
            kw[k] = build(v) if v is not None else None
        elif k == "items":
            kw[k] = [build(v) for v in v]
        elif k in ("forwardCoating", "reverseCoating"):
            pass
        else:
            kw[k] = v
    if typ == "OPDScreen":
        o = B.OPDScreen(kw.pop("surface"), kw.pop("screen"), **kw)
    elif "items" in kw:
        o = getattr(B, typ)(kw.pop("items"), **kw)
    else:
        o = getattr(B, typ)(kw.pop("surface"), **kw)
    for k in ("forwardCoating", "reverseCoating"):
        if k in d:
            setattr(o, k, build(d[k]))
    return o


_BUILD = {
    "Bicubic": _bicubic,
    "Sum": lambda *it: B.Sum([build(i) for i in it]),
    "Asphere": lambda R, c, co, imin=2: B.Asphere(R, c, list(co), imin),
    "Zernike": lambda co, *a: B.Zernike(list(co), *a),
    "TableMedium": lambda w, n: B.TableMedium(arr(w), arr(n)),
    "ObscPolygon": lambda xs, ys: B.ObscPolygon(arr(xs), arr(ys)),
    "ObscNegation": lambda o: B.ObscNegation(build(o)),
    "ObscUnion": lambda *it: B.ObscUnion([build(i) for i in it]),
    "ObscIntersection": lambda *it: B.ObscIntersection([build(i) for i in it]),
    "CoordSys": lambda o=(0, 0, 0), r=(0, 0, 0): B.CoordSys(arr(o), rotm(r)),
    "optic": _optic,
    "yaml": lambda n: B.parse.parse_optic(config(n)),
    "Lattice": lambda shape, seed, pv, kind=None: B.Lattice(samples(tuple(shape), seed, kind), arr(pv)),
    "rays": lambda d, **k: rays(d),
}


def samples(shape, seed, kind):
    g = rs(seed)
    a = g.normal(size=shape)
    if kind == "complex":
        a = a + 1j * g.normal(size=shape)
    if kind == "int":
        a = (10 * a).astype(int)
    if kind and kind.endswith("F"):
        a = np.asfortranarray(a)
    if kind and kind.startswith("masked"):
        a = np.ma.masked_array(a, mask=g.random(shape) < .3)
    return a


def rays(d):
    """A bundle from explicit arrays; d: n, seed, kind, ..."""
    g = rs(d["seed"])
    n = d["n"]
    kind = d.get("kind", "random")
    wl = g.choice(arr(d.get("wl", [500e-9, 620e-9, 870e-9])), n) if d.get("mixwl", True) else np.full(n, d.get("wl", [620e-9])[0])
    rad = d.get("rad", 1.0)
    z = d.get("z", 5.0)
    nmed = d.get("nmed", 1.0)
    r, th = rad * np.sqrt(g.uniform(d.get("inner", 0.0) ** 2, 1, n)), g.uniform(0, 2 * np.pi, n)
    x, y = r * np.cos(th), r * np.sin(th)
    zz = np.full(n, float(z)) + g.normal(0, 0.01, n)
    sl = d.get("slope", 0.02)
    vx, vy = g.normal(0, sl, n) + d.get("tx", 0.0), g.normal(0, sl, n) + d.get("ty", 0.0)
    if d.get("collimated"):
        vx, vy = np.full(n, vx[0] if n else 0.), np.full(n, vy[0] if n else 0.)
    vz = -np.sqrt(1 - vx * vx - vy * vy) * (1 if d.get("down", True) else -1)
    flux = g.uniform(0.1, 2.0, n)
    vig = g.uniform(size=n) < d.get("pvig", 0.1)
    fail = g.uniform(size=n) < d.get("pfail", 0.05)
    t = g.uniform(-1, 1, n)
    for q in d.get("style", ()):
        if q == "mono":
            wl = np.full(n, wl[0] if n else 0.)
        elif q == "narrow":
            wl = np.linspace(620e-9, 627e-9, n)
        elif q == "near":
            wl = 500e-9 * (1 + 1e-12 * np.arange(n))
        elif q == "cont":
            wl = g.uniform(380e-9, 1000e-9, n)
        elif q == "axis":
            x[::3], y[::3], vx[::3], vy[::3] = 0., 0., 0., 0.
            vz[::3] = np.copysign(1., vz[::3])
        elif q == "dup" and n:
            for a in (x, y, zz, vx, vy, vz):
                a[::2] = a[0]
        elif q == "flux1":
            flux[:] = 1.
        elif q == "flux0":
            flux[::4] = 0.
        elif q == "t0":
            t[:] = 0.
        elif q == "zflat":
            zz[:] = z
        elif q == "allvig":
            vig[:] = True
        elif q == "allfail":
            fail[:] = True
        elif q == "clean":
            vig[:], fail[:] = False, False
        elif q == "bothbad":
            fail |= vig
    cs = build(d["cs"]) if d.get("cs") else B.globalCoordSys
    return B.RayVector(x, y, zz, vx / nmed, vy / nmed, vz / nmed, t, wl, flux, vig, fail, cs)


# ------------------------------------------------------------------ generating models
class Gen:
    """Draws specs from one random.Random."""

    def __init__(self, seed):
        self.r = random.Random(seed)

    def u(self, a, b):
        return round(self.r.uniform(a, b), 9)

    def pick(self, *a):
        return self.r.choice(a)

    def angle(self, s=0.05):
        return [self.u(-s, s) for _ in range(3)]

    def coordSys(self, s=0.05, z=0.3):
        return ["CoordSys", [self.u(-s, s), self.u(-s, s), self.u(-z, z)], self.angle(s)]

    SURFACES = ("Plane", "Tilted", "Sphere", "Paraboloid", "Quadric", "Asphere", "Zernike", "Bicubic", "Sum")

    def surface(self, kinds=SURFACES, rad=1.0, depth=0, strength=1.0):
        k = self.r.choice(kinds)
        sgn = self.pick(-1, 1)
        R = lambda: round(sgn * self.r.uniform(4, 30) * rad / strength, 6)
        if k == "Plane":
            return ["Plane"]
        if k == "Tilted":
            return ["Tilted", self.u(-.05, .05), self.u(-.05, .05)]
        if k in ("Sphere", "Paraboloid"):
            return [k, R()]
        if k == "Quadric":
            return ["Quadric", R(), self.pick(-1.3, -1.0, -0.5, 0.0, 0.4)]
        if k == "Asphere":
            return ["Asphere", R(), self.pick(-1.2, -1.0, 0.0), [self.u(-1e-4, 1e-4) for _ in range(self.r.randint(1, 4))], self.pick(1, 2, 2, 3)]
        if k == "Zernike":
            return ["Zernike", [0.0] + [self.u(-1e-4, 1e-4) for _ in range(self.r.randint(3, 15))], rad * 1.2, self.pick(0.0, 0.3 * rad), self.pick(0.0, 0.1), self.pick(0.0, -0.05)]
        if k == "Bicubic":
            return ["Bicubic", self.r.randint(4, 9), self.r.randint(4, 9), rad * self.pick(0.8, 1.5, 2.0), rad * self.pick(0.8, 1.5, 2.0),
                    self.pick(1e-4, 1e-3), self.r.randrange(1000), self.pick("nan", "zero"), self.pick(0, 0, 1)]
        n = self.r.randint(1, 3) if depth == 0 else 2
        sub = [x for x in kinds if x != "Sum"] + (["Sum"] if depth == 0 else [])
        return ["Sum"] + [self.surface(sub, rad, depth + 1, strength * 2) for _ in range(n)]

    def medium(self):
        k = self.pick("ConstMedium", "ConstMedium", "TableMedium", "SellmeierMedium", "SumitaMedium", "Air")
        if k == "ConstMedium":
            return [k, self.pick(1.0, 1.2, 1.458, 1.5, 1.8)]
        if k == "TableMedium":
            n = self.r.randint(2, 6)
            w = sorted(self.r.uniform(350e-9, 1100e-9) for _ in range(n))
            w[0], w[-1] = 300e-9, 1200e-9
            return [k, w, [self.u(1.3, 1.7) for _ in range(n)]]
        if k == "SellmeierMedium":
            return [k, 0.6961663, 0.4079426, 0.8974794, 0.0684043**2, 0.1162414**2, self.pick(9.896161**2, 98.)]
        if k == "SumitaMedium":
            return [k, 2.2, -0.01, 0.011, 0.0003, -1e-5, 1e-6]
        return [k] + [self.u(60, 80), 293.15, 1.0]

    OBSC = ("ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon", "ObscNegation", "ObscUnion", "ObscIntersection")

    def obsc(self, rad=1.0, depth=0, kinds=OBSC):
        k = self.r.choice(kinds if depth < 2 else kinds[:5])
        x, y = self.u(-.5 * rad, .5 * rad), self.u(-.5 * rad, .5 * rad)
        if k == "ObscCircle":
            return [k, self.u(.1, .8) * rad, x, y]
        if k == "ObscAnnulus":
            return [k, self.u(.1, .4) * rad, self.u(.5, 1.) * rad, x, y]
        if k == "ObscRectangle":
            return [k, self.u(.1, 1) * rad, self.u(.1, 1) * rad, x, y, self.u(0, 3)]
        if k == "ObscRay":
            return [k, self.u(.05, .3) * rad, self.u(0, 6), x, y]
        if k == "ObscPolygon":
            n = self.r.randint(3, 7)
            th = sorted(self.r.uniform(0, 2 * math.pi) for _ in range(n))
            return [k, [round(x + rad * self.r.uniform(.3, .9) * math.cos(t), 6) for t in th], [round(y + rad * self.r.uniform(.3, .9) * math.sin(t), 6) for t in th]]
        if k == "ObscNegation":
            return [k, self.obsc(rad, depth + 1, kinds)]
        return [k] + [self.obsc(rad, depth + 1, kinds) for _ in range(self.r.randint(1, 3))]

    def coating(self):
        r = self.u(0.05, 0.6)
        return ["SimpleCoating", r, round(1 - r, 9) if self.r.random() < .5 else self.u(0.1, 1 - r)]

    def rays(self, n=None, **k):
        d = {"n": n if n is not None else self.pick(1, 2, 3, 7, 16, 33), "seed": self.r.randrange(10**6), "kind": "random"}
        d.update(k)
        return ["rays", d]

    def style(self):
        """What is special about the rays of a bundle."""
        out = [self.pick("mono", "narrow", "near", "cont", "cont")] if self.r.random() < .6 else []
        for q, p in (("axis", .2), ("dup", .15), ("flux1", .2), ("flux0", .1), ("t0", .15), ("zflat", .15), ("allvig", .06), ("allfail", .06), ("clean", .25), ("bothbad", .08)):
            if self.r.random() < p:
                out.append(q)
        return out

    def raydict(self, n=None, cs=True, **k):
        s = self.rays(n, **k)
        if self.r.random() < .5:
            s[1]["style"] = self.style()
        if cs and self.r.random() < .5:
            s[1]["cs"] = self.coordSys()
        return s

    # ---- synthetic telescopes
    def telescope(self, screens=True):
        """Prime-focus telescope with corrector lenses; every kind of part appears with some probability."""
        r = self.r
        rad = 1.0
        f = self.pick(8.0, 12.0)
        items = []
        clear = lambda ro, ri=0.0: ["ObscNegation", ["ObscAnnulus", ri, ro] if ri else ["ObscCircle", ro]]
        if r.random() < .5:
            items.append(["optic", dict(type="Baffle", surface=["Plane"], name="B0", coordSys=["CoordSys", [0, 0, f * 1.05]],
                                        obscuration=self.pick(["ObscCircle", 0.25], ["ObscUnion", ["ObscCircle", .2], ["ObscRay", 0.02, 0.3], ["ObscRay", .02, 2.4]], ["ObscRectangle", .3, .4, 0.1, 0., .3]))])
        if screens and r.random() < .5:
            items.append(["optic", dict(type="OPDScreen", surface=["Plane"], name="S0", coordSys=["CoordSys", [0, 0, f * .9]],
                                        screen=self.surface(("Zernike", "Bicubic", "Tilted"), rad * 1.2))])
        prim = self.pick(["Paraboloid", 2 * f], ["Quadric", 2 * f, -1.05], ["Asphere", 2 * f, -1.0, [1e-6, -1e-7]], ["Sum", ["Paraboloid", 2 * f], ["Zernike", [0, 0, 0, 0, 1e-6, 2e-6], 1.2]],
                         ["Sum", ["Quadric", 2 * f, -1.0], ["Bicubic", 7, 6, 1.6, 1.6, 1e-6, 3, "nan"]])
        items.append(["optic", dict(type="Mirror", surface=prim, name="M1", coordSys=["CoordSys", [0, 0, 0], self.pick([0, 0, 0], [1e-4, -2e-4, 0])],
                                    obscuration=clear(rad, self.pick(0.0, 0.3)))])
        med = self.pick(["ConstMedium", 1.458], self.medium())
        nl = r.randint(0, 2)
        z = f - 1.2
        for i in range(nl):
            nm = f"L{i+1}"
            m = med if r.random() < .6 else self.pick(["ConstMedium", 1.5], self.medium())
            s1 = self.pick(["Sphere", self.u(1.5, 6)], ["Quadric", self.u(2, 6), .2], ["Asphere", self.u(2, 5), 0.0, [1e-3, 1e-4]], ["Plane"])
            s2 = self.pick(["Sphere", self.u(1.5, 6)], ["Paraboloid", self.u(2, 5)], ["Plane"])
            one = ["ConstMedium", 1.0]
            parts = []
            for j, s in enumerate((s1, s2)):
                d = dict(type="RefractiveInterface", surface=s, name=nm + f"_{j}", coordSys=["CoordSys", [0, 0, z + 0.05 * j]],
                         inMedium=one if j == 0 else m, outMedium=m if j == 0 else one,
                         obscuration=clear(self.u(.2, .4)) if r.random() < .7 else None)
                if r.random() < .5:
                    d["forwardCoating"] = self.coating()
                    d["reverseCoating"] = self.coating()
                parts.append(["optic", d])
            items.append(["optic", dict(type="Lens", items=parts, name=nm, coordSys=["CoordSys", [0, 0, z]], inMedium=one, outMedium=one, medium=m)])
            z += self.u(.2, .4)
        if r.random() < .12:
            x = r.choice(items)[1]
            (r.choice(x["items"])[1] if "items" in x and r.random() < .4 else x)["skip"] = True
        if nl == 2 and r.random() < .5:
            sub = items[-2:]
            items[-2:] = [["optic", dict(type="CompoundOptic", items=sub, name="Cam", coordSys=["CoordSys", [0, 0, f - 1.2]], **(dict(skip=True) if r.random() < .06 else {}))]]
        items.append(["optic", dict(type="Detector", surface=["Plane"], name="D", coordSys=["CoordSys", [0, 0, f]],
                                    obscuration=clear(0.4) if r.random() < .5 else None)])
        d = dict(type="CompoundOptic", items=items, name="Tel", backDist=f * 1.2, sphereRadius=f, pupilSize=2 * rad,
                 pupilObscuration=0.3, inMedium=["ConstMedium", 1.0], outMedium=["ConstMedium", 1.0],
                 stopSurface=["optic", dict(type="Interface", surface=["Plane"], name="stop")])
        return ["optic", d]

    def lensOptic(self):
        """A single coated lens, both directions traceable."""
        m = self.medium()
        parts = []
        for j in range(2):
            parts.append(["optic", dict(type="RefractiveInterface", surface=self.surface(("Plane", "Sphere", "Quadric", "Asphere", "Paraboloid"), 1.5), name=f"S{j}",
                                        coordSys=["CoordSys", [0, 0, -0.1 * j], self.pick([0, 0, 0], [0.01, 0, 0])], inMedium=["ConstMedium", 1.0] if j == 0 else m,
                                        outMedium=m if j == 0 else ["ConstMedium", 1.0], forwardCoating=self.coating(), reverseCoating=self.coating(),
                                        obscuration=["ObscNegation", ["ObscCircle", 1.2]] if self.r.random() < .5 else None)])
        if self.r.random() < .05:
            self.r.choice(parts)[1]["skip"] = True
        return ["optic", dict(type="Lens", items=parts, name="L", inMedium=["ConstMedium", 1.0], outMedium=["ConstMedium", 1.0], medium=m,
                              backDist=3.0, pupilSize=1.6, sphereRadius=5.0, stopSurface=["optic", dict(type="Interface", surface=["Plane"], name="stop")])]

    def optic(self, yaml=0.4):
        if self.r.random() < yaml:
            return ["yaml", self.r.choice(YAMLS)]
        return self.telescope()

    def size(self, *few):
        """A number of rays: nearly always few, now and then more than any block or threshold."""
        return self.pick(150, 513, 1024, 1500, 5000) if self.r.random() < .012 else self.pick(*few)

    def telrays(self, name="tel", big=False):
        """Constructor call for a bundle that enters telescope `name`: an op, see ops.py"""
        wl = self.pick(500e-9, 620e-9, 750e-9)
        th = [self.u(-.004, .004), self.u(-.004, .004)]
        if self.r.random() < .35:
            return ["scatter", name, self.size(1, 3, 6, 13, 30), self.r.randrange(10**6), th, self.style()]
        k = self.pick("asPolar", "asPolar", "asGrid", "asSpokes", "asGrid")
        if k == "asPolar":
            return ["asPolar", name, dict(wavelength=wl, theta_x=th[0], theta_y=th[1], nrad=self.r.randint(1, 4), naz=self.size(6, 12, 18))]
        if k == "asGrid":
            return ["asGrid", name, dict(wavelength=wl, theta_x=th[0], theta_y=th[1], nx=int(self.size(*(k * k for k in range(2, 8))) ** .5))]
        return ["asSpokes", name, dict(wavelength=wl, theta_x=th[0], theta_y=th[1], rings=self.r.randint(2, 4), spokes=self.r.randint(3, 6), spacing=self.pick("uniform", "GQ"))]
