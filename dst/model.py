"""A one-ray-at-a-time reference model of what operations do to rays, in global coordinates (numpy only).

It asks batoid's models only for scalar facts (sag, normal, index, coefficients, containment) of twin objects;
finding intersections, reflecting, refracting, bookkeeping of time, flux, flags and frames is its own.
Rays the model cannot predict with confidence (grazing, near total reflection, near an edge, outside a
surface's domain) are marked unknown and only the invariants are checked for them.
"""
import numpy as np
from . import world as W

TOL = 1e-8


class S:
    """State of a bundle."""
    F = ("r", "v", "t", "wl", "flux", "vig", "fail", "kn", "vkn", "fkn")

    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self):
        return S(**{f: getattr(self, f).copy() for f in self.F}, cs=self.cs, path=None if self.path is None else list(self.path))

    def take(self, i):
        return S(**{f: np.atleast_1d(getattr(self, f)[i]) if f not in "rv" else np.atleast_2d(getattr(self, f)[i]) for f in self.F}, cs=self.cs, path=None)

    def __len__(self):
        return len(self.t)


def frame(cs):
    """(origin, axes) of a CoordSys; columns of axes are the unit vectors."""
    return np.array(cs.origin, float), np.array(cs.rot, float)


def of(rv):
    """Model state of an actual bundle."""
    o, R = frame(rv.coordSys)
    r = np.column_stack([rv.x, rv.y, rv.z]).astype(float)
    v = np.column_stack([rv.vx, rv.vy, rv.vz]).astype(float)
    n = len(r)
    T = np.ones(n, bool)
    fin = np.isfinite(r).all(1) & np.isfinite(v).all(1) & np.isfinite(rv.t) if n else T.copy()
    return S(r=r @ R.T + o, v=v @ R.T, t=np.array(rv.t, float), wl=np.array(rv.wavelength, float), flux=np.array(rv.flux, float),
             vig=np.array(rv.vignetted, bool), fail=np.array(rv.failed, bool), kn=fin, vkn=T.copy(), fkn=T.copy(), cs=(o, R),
             path=list(rv.path) if hasattr(rv, "path") else None)


def local(s, cs):
    o, R = cs
    return (s.r - o) @ R, s.v @ R


def sagf(surf, x, y):
    return np.asarray(surf.sag(np.array(x), np.array(y)), float)


def normalf(surf, x, y):
    return np.asarray(surf.normal(np.array(x), np.array(y)), float)


def newton(surf, r, v, dt):
    """Time to the surface from the start dt, and which rays converged quickly and at a healthy angle."""
    ok = np.isfinite(dt)
    for _ in range(4):
        p = r + v * dt[:, None]
        n = normalf(surf, p[:, 0], p[:, 1])
        z = sagf(surf, p[:, 0], p[:, 1])
        g = -n[:, :2] / n[:, 2:3]
        F = z - p[:, 2]
        dF = (g * v[:, :2]).sum(1) - v[:, 2]
        step = F / dF
        dt = dt - step
    sp = np.sqrt((v * v).sum(1))
    p = r + v * dt[:, None]
    ok &= np.abs(step) * sp < 1e-11
    n = normalf(surf, p[:, 0], p[:, 1])
    ok &= np.abs((n * v).sum(1)) > .5 * sp
    ok &= np.isfinite(dt) & np.isfinite(n).all(1)
    ok &= np.abs(sagf(surf, p[:, 0], p[:, 1]) - p[:, 2]) < 3e-13 * (1 + np.abs(p[:, 2]))
    # away from the edge of the surface's domain
    for d in ((1e-6, 0), (-1e-6, 0), (0, 1e-6), (0, -1e-6)):
        ok &= np.isfinite(sagf(surf, p[:, 0] + d[0], p[:, 1] + d[1]))
    return dt, ok


def base(surf):
    """The simpler surface an iterative intersection may start from."""
    if isinstance(surf, W.B.Asphere):
        return W.B.Quadric(surf.R, surf.conic)
    if isinstance(surf, W.B.Sum):
        return base(surf.surfaces[0])
    return surf


def hit(s, surf, cs):
    """Local positions, velocities and normals at the surface; which are certain; time taken."""
    r, v = local(s, cs)
    with np.errstate(all="ignore"):
        a, ok1 = newton(surf, r, v, -r[:, 2] / v[:, 2])
        b, ok2 = newton(surf, r, v, np.zeros(len(r)))
        p = r + v * a[:, None]
        ok = ok1 & ok2 & (np.abs(a - b) * np.sqrt((v * v).sum(1)) < 1e-9) & (np.abs(r) < 100).all(1) & (np.abs(p[:, 0]) + np.abs(p[:, 1]) < 12)  & (np.abs(a) < 1e3)
        n = normalf(surf, p[:, 0], p[:, 1])
        b = base(surf)
        if b is not surf:       # far from it nobody promises convergence
            ok = ok & (np.abs(sagf(b, p[:, 0], p[:, 1]) - p[:, 2]) < .05)
    return p, v, n, ok, a


def put(s, cs, p, v, dt, ok, live):
    o, R = cs
    m = ok & live
    s.r[m] = (p @ R.T + o)[m]
    s.v[m] = (v @ R.T)[m]
    s.t[m] += dt[m]
    lost = live & ~ok
    s.kn &= ~lost
    s.fkn &= ~lost
    s.vkn &= ~lost
    s.cs = cs


def spent(s):
    """Rays the operation leaves alone: failed ones (their positions mean nothing)."""
    return ~s.fail & s.fkn


def coef(coating, s, cos, which):
    if len(s) > 100 and isinstance(coating, W.B.SimpleCoating):     # the same for every ray
        return np.full(len(s), getattr(coating, which)(float(s.wl[0]), float(cos[0])))
    return np.array([getattr(coating, which)(float(w), float(c)) for w, c in zip(s.wl, cos)]) if len(s) else np.zeros(0)


def index(medium, wl):
    u, i = np.unique(wl, return_inverse=True)
    return np.array([float(medium.getN(float(w))) for w in u])[i]


def surface(s, kind, surf, cs=None, coating=None, m1=None, m2=None, screen=None):
    """Model of batoid.intersect/reflect/refract/rSplit/refractScreen; returns the bundle or (refracted, reflected)."""
    s = s.copy()
    cs = s.cs if cs is None else cs
    live = spent(s)
    unk = ~s.fkn
    p, v, n, ok, dt = hit(s, surf, cs)
    ok = ok & s.kn
    with np.errstate(all="ignore"):
        sp = np.sqrt((v * v).sum(1))
        nv = v / sp[:, None]
        cosv = (nv * n).sum(1)
        if kind == "intersect":
            if coating is not None:
                f = coef(coating, s, cosv, "getTransmit")
                s.flux[live] *= f[live]
            put(s, cs, p, v, dt, ok, live)
            return s
        if kind == "reflect":
            if coating is not None:
                f = coef(coating, s, cosv, "getReflect")
                s.flux[live] *= f[live]
            put(s, cs, p, v - 2 * (v * n).sum(1)[:, None] * n, dt, ok, live)
            return s
        if kind == "refractScreen":
            e3 = n
            e1 = np.column_stack([e3[:, 2], 0 * e3[:, 0], -e3[:, 0]])
            e1 /= np.sqrt((e1 * e1).sum(1))[:, None]
            e2 = np.cross(e3, e1)
            q = normalf(screen, p[:, 0], p[:, 1])
            g = -q[:, :2] / q[:, 2:3]
            for d in ((1e-6, 0), (-1e-6, 0), (0, 1e-6), (0, -1e-6)):
                ok = ok & np.isfinite(normalf(screen, p[:, 0] + d[0], p[:, 1] + d[1])).all(1)
            c1, c2 = (nv * e1).sum(1), (nv * e2).sum(1)
            sg = np.where(cosv < 0, 1., -1.)
            c1 = c1 + sg * (g * e1[:, :2]).sum(1)
            c2 = c2 + sg * (g * e2[:, :2]).sum(1)
            q3 = 1 - c1 * c1 - c2 * c2
            ok = ok & (q3 > 1e-4)
            c3 = -sg * np.sqrt(q3)
            out = (c1[:, None] * e1 + c2[:, None] * e2 + c3[:, None] * e3) * sp[:, None]
            opd = sagf(screen, p[:, 0], p[:, 1])
            put(s, cs, p, out, dt + opd, ok, live)
            return s
        # refraction
        n1 = 1 / sp
        flip = cosv > 0
        nn = np.where(flip[:, None], -n, n)
        al = np.where(flip, -cosv, cosv)
        n2 = index(m2, s.wl) if len(s) else np.zeros(0)
        ok = ok & np.isfinite(n2)
        eta = n1 / n2
        ss = eta * eta * (1 - al * al)
        tir = ss > 1
        near = np.abs(ss - 1) < 1e-6
        out = (eta[:, None] * nv - (eta * al + np.sqrt(np.maximum(1 - ss, 0)))[:, None] * nn) / n2[:, None]
        ref = None
        if kind == "rSplit":
            ref = s.copy()
            f = coef(coating, s, al, "getReflect")
            ref.flux[live] *= f[live]
            put(ref, cs, p, v - 2 * (v * n).sum(1)[:, None] * n, dt, ok, live)
            ref.path = None
        if coating is not None:
            f = coef(coating, s, al, "getTransmit")
            s.flux[live] *= f[live]
        put(s, cs, p, out, dt, ok & ~near, live)
        dead = live & ok & ~near & tir
        s.fail |= dead
        s.vig |= dead
        return s if kind == "refract" else (s, ref)


def obscure(s, ob):
    s = s.copy()
    r, _ = local(s, s.cs)
    n = len(s)
    if n == 0:
        return s
    x, y = r[:, 0].copy(), r[:, 1].copy()
    c = np.asarray(ob.contains(x, y), bool).copy()
    near = ~s.kn | ~s.fkn | s.fail
    d = 1e-7 * (1 + np.abs(x) + np.abs(y))
    for dx, dy in ((1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (1, -1), (-1, 1)):
        near |= np.asarray(ob.contains(x + dx * d, y + dy * d), bool) != c
    s.vkn &= s.vig | ~near
    s.vig |= c & ~near
    return s


def toCoordSys(s, cs):
    s = s.copy()
    s.cs = cs
    return s


def transform(s, a, b, reverse):
    """The transformation from frame a to frame b, applied to whatever the coordinates are now."""
    if reverse:
        a, b = b, a
    s = s.copy()
    r, v = local(s, s.cs)
    s.r = (r @ a[1].T + a[0] - b[0]) @ b[1]
    s.v = v @ a[1].T @ b[1]
    s.r, s.v, s.cs = s.r @ b[1].T + b[0], s.v @ b[1].T, b
    return s


def propagate(s, t):
    s = s.copy()
    live = ~s.fail
    s.r[live] += (s.v * (t - s.t)[:, None])[live]
    s.t[:] = np.where(live, t, s.t)
    return s


# ------------------------------------------------------------------ optics
def kindof(it):
    return type(it).__name__


def interact(s, it, reverse, meth="interact"):
    """An interface acting on a bundle by one of its methods; None if it has no such method."""
    B, cs, k = W.B, frame(it.coordSys), kindof(it)
    if meth == "intersect":
        return surface(s, "intersect", it.surface, cs)
    if meth == "trace":
        s = interact(s, it, reverse)
        return obscure(s, it.obscuration) if it.obscuration is not None else s
    if k == "Mirror":
        return surface(s, "reflect", it.surface, cs) if meth in ("interact", "reflect") else None
    if k == "RefractiveInterface":
        if meth in ("interact", "refract"):
            return surface(s, "refract", it.surface, cs, m2=it.inMedium if reverse else it.outMedium)
        return None
    if k == "OPDScreen":
        return surface(s, "refractScreen", it.surface, cs, screen=it.screen) if meth in ("interact", "refract") else None
    return surface(s, "intersect", it.surface, cs) if meth == "interact" else None


def rsplit(s, it, reverse):
    """(refracted, reflected) of an interface."""
    cs, k = frame(it.coordSys), kindof(it)
    if k == "Mirror":
        return None, surface(s, "reflect", it.surface, cs)
    if k == "RefractiveInterface":
        return surface(s, "rSplit", it.surface, cs, it.forwardCoating if reverse else it.reverseCoating, m2=it.inMedium if reverse else it.outMedium)
    if k == "Detector":
        return surface(s, "rSplit", it.surface, cs, it.forwardCoating, m2=it.outMedium)
    if k == "Baffle":
        return surface(s, "intersect", it.surface, cs), None
    if k == "OPDScreen":
        return surface(s, "refractScreen", it.surface, cs, screen=it.screen), None
    raise AttributeError


def trace(s, o, reverse=False):
    if isinstance(o, W.B.CompoundOptic):
        for it in (reversed(o.items) if reverse else o.items):
            if not it.skip:
                s = trace(s, it, reverse)
        return s
    return interact(s, o, reverse, "trace")


def hops(o, path):
    """The documented order of a path: (item, reverse, reflects) per stop."""
    first = {}
    for n in path:
        first.setdefault(n, len(first))
    rev, out = False, []
    for i, n in enumerate(path):
        if i + 1 < len(path):
            nxt = first[path[i + 1]] < first[n]
        else:
            nxt = True if first[n] == 0 else rev
        out.append((o[n], rev, nxt != rev))
        rev = nxt
    return out


def hop(s, it, rev, reflects):
    if not reflects:
        return trace(s, it, rev)
    s = surface(s, "reflect", it.surface, frame(it.coordSys))
    return obscure(s, it.obscuration) if it.obscuration else s


def tracePath(s, o, path):
    for h in hops(o, path):
        s = hop(s, *h)
    return s


def traceFull(s, o, reverse=False):
    """[(key, name, in, out)]"""
    if o.skip:
        return []
    if not isinstance(o, W.B.CompoundOptic):
        return [(o.name, o.name, s, trace(s, o, reverse))]
    out = {}
    for it in (reversed(o.items) if reverse else o.items):
        for k, nm, a, b in traceFull(s, it, reverse):
            out[k] = (k, nm, a, b)
            s = b
    return list(out.values())


def traceFullPath(s, o, path):
    out, seen = [], {}
    for it, rev, reflects in hops(o, path):
        b = hop(s, it, rev, reflects)
        j = seen[it.name] = seen.get(it.name, -1) + 1
        out.append((f"{it.name}_{j}", it.name, s, b))
        s = b
    return out


def globalRays(full, a, b, cs):
    """Vertices in cs of the rays of a full trace from stop a to stop b, which are certain, and the number of visible ones."""
    o, R = cs
    use = full[a:b + 1]
    pts = [use[0][2]] + [u[3] for u in use]
    xyz = np.stack([(p.r - o) @ R for p in pts], -1)
    ok = np.stack([p.kn & p.fkn & ~p.fail for p in pts], -1)
    vis = 1 + sum((~u[3].vig).astype(int) for u in use)
    return xyz, ok, vis, np.all([u[3].vkn for u in use], 0)


def traceSplit(s, o, minFlux, reverse=False, dropped=None):
    """Reference for tracing all paths: ([forward...], [reverse...]) with .path, without dim, vignetted and failed rays.

    Rays the model is unsure of are left out; their number is appended to `dropped`.
    """
    if o.skip:
        s = s.copy()
        s.path = s.path or []
        return ([], [s]) if reverse else ([s], [])
    if not isinstance(o, W.B.CompoundOptic):
        a, b = rsplit(s, o, reverse)
        path = (s.path or []) + [o.name]
        out = []
        for x in (a, b):
            if x is not None:
                if o.obscuration is not None:
                    x = obscure(x, o.obscuration)
                x.path = list(path)
            out.append([x] if x is not None else [])
        f, r = out
        if reverse:
            f, r = r, f
        if kindof(o) == "Mirror":
            f, r = r, f
        return f, r
    dropped = [] if dropped is None else dropped
    work = [(s, reverse, len(o.items) - 1 if reverse else 0)]
    of_, or_ = [], []
    n = 0
    while work:
        s, rev, i = work.pop()
        n += 1
        if n > 3000:
            raise OverflowError
        for rays, back in zip(traceSplit(s, o.items[i], minFlux, rev, dropped), (False, True)):
            for x in rays:
                sure = x.kn & x.fkn & x.vkn & (np.abs(x.flux - minFlux) > 1e-9)
                if (~sure & ~(x.fail & x.fkn)).any():
                    dropped.append(int((~sure).sum()))
                keep = sure & ~x.vig & ~x.fail & (x.flux >= minFlux)
                p = x.path
                x = x.take(keep)
                x.path = p
                if not len(x):
                    continue
                j = i + (-1 if back else 1)
                if j < 0 or j >= len(o.items):
                    (or_ if back else of_).append(x)
                else:
                    work.append((x, back, j))
    return of_, or_


# ------------------------------------------------------------------ comparison
def compare(m, rv):
    """None, or how the actual bundle deviates from the model's."""
    a = of(rv)
    if len(a) != len(m):
        return f"{len(a)} rays instead of {len(m)}"
    for f, known in (("fail", m.fkn), ("vig", m.vkn)):
        bad = (getattr(a, f) != getattr(m, f)) & known
        if bad.any():
            i = int(np.argmax(bad))
            return f"ray {i} {'is' if getattr(a, f)[i] else 'is not'} {dict(fail='failed', vig='vignetted')[f]}"
    if (a.wl != m.wl).any():
        return "wavelengths changed"
    fk = m.kn & m.fkn
    bad = fk & ~(np.abs(a.flux - m.flux) <= 1e-10 * np.abs(m.flux) + 1e-300)
    if bad.any():
        i = int(np.argmax(bad))
        return f"ray {i} flux {a.flux[i]!r} instead of {m.flux[i]!r}"
    k = m.kn & m.fkn & ~m.fail
    for f, what in (("r", "position"), ("v", "velocity"), ("t", "time")):
        x, y = getattr(a, f), getattr(m, f)
        sc = 1 + np.abs(m.r).max(1, initial=0) + np.abs(m.t)
        d = np.abs(x - y)
        d = d if d.ndim == 1 else d.max(1, initial=0)
        bad = k & ~(d <= TOL * sc)
        if bad.any():
            i = int(np.argmax(bad))
            return f"ray {i} {what} {x[i]} instead of {y[i]}"
    o, R = a.cs
    if np.abs(o - m.cs[0]).max() > 1e-12 * (1 + np.abs(o).max()) or np.abs(R - m.cs[1]).max() > 1e-12:
        return f"is in coordinate system at {o} instead of {m.cs[0]}"
    return None


def invariants(before, after):
    """Monotonicity for every ray, certain or not."""
    b, a = before, of(after)
    if len(a) != len(b):
        return "number of rays changed"
    if (b.fail & ~a.fail).any():
        return f"failed ray {int(np.argmax(b.fail & ~a.fail))} recovered"
    if (b.vig & ~a.vig).any():
        return f"vignetted ray {int(np.argmax(b.vig & ~a.vig))} recovered"
    new = a.fail & ~b.fail
    if (new & ~a.vig).any():
        return f"ray {int(np.argmax(new & ~a.vig))} failed but is not vignetted"
    if (a.wl != b.wl).any():
        return "wavelengths changed"
    if (a.flux > b.flux * (1 + 1e-12)).any():
        return f"flux of ray {int(np.argmax(a.flux > b.flux * (1 + 1e-12)))} grew"
    return None
