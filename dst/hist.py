"""Histories: sequences of in-place operations, derived bundles, host reads and writes, object births and deaths.

A step is one of
  ["!", op]              op acting in place on the bundle it names
  ["=", name, op]        the bundle(s) an op returns are kept under name
  ["?", op]              a query; its result is an observation
  ["read", rv, fields]   host reads of public fields; observations
  ["write", rv, field, index, value]   host write through the public array
  ["new", name, spec]    (re)create an object        ["del", name]     drop it
"""
import gc
import numpy as np
from . import world as W, ops as O

READS = ["x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed", "r", "v", "k", "omega", "coordSys", "len"]


def read(r, f):
    return len(r) if f == "len" else getattr(r, f)


def step(w, s):
    """Apply one step; returns what the user saw (canonical), or None."""
    k = s[0]
    with np.errstate(all="ignore"):
        if k == "new":
            w.o.pop(s[1], None)
            try:
                w.add(s[1], s[2])
            except O.EXC as e:
                return W.canon(e)
            return None
        if k == "del":
            w.o.pop(s[1], None)
            return None
        if k == "gc":
            gc.collect()
            return None
        if any(isinstance(x, str) and x in w.names and x not in w.o for x in O.flatten(s[2:] if k == "=" else s)):
            return "gone"
        if k == "read":
            return W.canon([read(w[s[1]], f) for f in s[2]])
        if k == "write":
            a = getattr(w[s[1]], s[2])
            if len(a):
                i = s[3] % len(a)
                a[i] = (not a[i]) if a.dtype == bool else s[4]
            return None
        if k == "?":
            return O.canon_op(w, s[1])
        if k == "!":
            w.inplace = True
            try:
                out = O.run_safe(w, s[1])
            finally:
                w.inplace = False
            return W.canon(out) if isinstance(out, Exception) else None
        if k == "=":
            out = O.run_safe(w, s[2])
            if isinstance(out, Exception):
                return W.canon(out)
            if isinstance(out, (tuple, list)):
                out = [x for x in O.flatten(out) if isinstance(x, W.B.RayVector)]
                out = out[s[3] % len(out)] if out else None
            if isinstance(out, W.B.RayVector):
                w.o[s[1]] = out
                return None
            return "no bundle"
    raise KeyError(k)


class HistGen(O.OpGen):
    """Histories over a world."""

    def inplace(self, ws, rvs):
        r = self.r
        rv = r.choice(rvs)
        k = self.pick("surf", "surf", "surf", "surf", "trace", "path", "part", "obscure", "toCS", "toCS", "prop", "optic", "ctR")
        if k == "surf":
            o = self.surfop(ws, self.pick("intersect", "reflect", "refract", "refract", "refractScreen"))
            o[3] = rv
            return o
        if k == "trace":
            return ["trace", "lens", rv, r.random() < .2]
        if k == "path":
            o = self.pathop(rv, True)
            o[2] = rv
            return o
        if k in ("part", "optic"):
            return ["partTrace", "tel" if k == "part" else "lens", r.randrange(50), rv, self.pick("interact", "intersect", "trace", "reflect", "refract"), r.random() < .2]
        if k == "obscure":
            return ["obscure", self.name(ws, "ob", "pg"), rv, self.pick("fn", "m")]
        if k == "toCS":
            return ["toCoordSys", rv, self.name(ws, "cs", "gcs")]
        if k == "ctR":
            return ["ctRays", self.name(ws, "cs"), self.name(ws, "cs", "gcs"), rv, r.random() < .6, self.pick("fn", "m")]
        return ["propagate", rv, self.u(-3, 6)]

    def derived(self, ws, rvs):
        r = self.r
        rv = r.choice(rvs)
        k = self.pick("slice", "slice", "copy", "concat", "concat", "index", "take", "mask", "pickle", "deep", "split", "tsplit", "full", "ctor")
        if k == "slice":
            return ["slice_", rv, self.pick(None, 0, 1), self.pick(None, 3, -1), self.pick(None, 2, -1)]
        if k == "copy":
            return ["rvcopy", rv]
        if k == "concat":
            return ["concat", rv] + [r.choice(rvs) for _ in range(self.pick(0, 1, 1, 2, 3))]
        if k == "take":
            return ["take", rv, self.pick("ints", "list", "bool", "neg", "npint", "iter"), r.randrange(1000)]
        if k == "index":
            return ["index", rv, r.randrange(50)]
        if k == "mask":
            return ["mask", rv]
        if k in ("pickle", "deep"):
            return [{"pickle": "roundtrip", "deep": "deep"}[k], rv]
        if k == "split":
            o = self.surfop(ws, "rSplit")
            o[3] = rv
            return o
        if k == "tsplit":
            return ["traceSplit", "lens", rv, self.pick(.2, .05)]
        if k == "full":
            return ["trace", self.pick("lens", "tel"), rv, False]
        return self.construct(ws)

    def observe(self, ws, rvs):
        r = self.r
        rv = r.choice(rvs)
        k = self.pick("read", "read", "read", "q", "sum", "eq")
        if k == "read":
            return ["read", rv, r.sample(READS, r.choice([1, 1, 2, 4]))]
        if k == "eq":
            return ["?", ["rveq", rv, r.choice(rvs)]]
        return ["?", self.pick(["positionAtTime", rv, self.u(-3, 3)], ["phase", rv, self.v3(1.), self.u(-1, 1)], ["amplitude", rv, self.v3(1.), self.u(-1, 1)], ["sumAmplitude", rv, self.v3(1.), self.u(-1, 1), r.random() < .5],
                               ["reprs", rv], ["fields", rv], ["trace", "lens", rv, False],
                               ["globalRays", "lens", rv, None, None], ["traceFull", "lens", rv, r.random() < .2])]

    def history(self, ws, n, write=.05, objects=.08, inplace=.4, derived=.17, query=None):
        r = self.r
        rvs = [nm for nm, _ in ws if nm.startswith("r")]
        out = []
        for i in range(n):
            x = r.random()
            if x < write:
                f = self.pick("x", "y", "t", "flux", "vignetted", "failed", "vx")
                v = self.u(-.5, .5) if f in "xyt" else self.u(0.1, 2) if f == "flux" else self.u(-.01, .01)
                out.append(["write", r.choice(rvs), f, r.randrange(100), v])
            elif x < write + objects:
                nm = r.choice([nm for nm, _ in ws if not nm.startswith(("tel", "rt", "gcs", "lat"))])
                out.append(["new", nm, self.fresh(nm)])
            elif x < write + objects + inplace:
                out.append(["!", self.inplace(ws, rvs)])
            elif x < write + objects + inplace + derived:
                new = f"r{self.pick('a', 'b', 'c', 'd')}"
                out.append(["=", new, self.derived(ws, rvs), r.randrange(4)])
                if new not in rvs:
                    rvs.append(new)
            elif query and r.random() < query:
                out.append(["?", self.query(ws)])
            else:
                out.append(self.observe(ws, rvs))
        return out, rvs

    def fresh(self, nm):
        if nm.startswith("rv"):
            return self.raydict(self.pick(1, 2, 5, 9, 17))
        if nm == "rl":
            return self.raydict(self.pick(3, 8), cs=False, z=1.0, slope=.05)
        if nm == "scr":
            return self.surface(("Zernike", "Bicubic", "Tilted"))
        if nm == "tm":
            return ["TableMedium", [300e-9, 450e-9, 600e-9, 1200e-9], [1.5, self.u(1.45, 1.5), 1.46, 1.4]]
        if nm == "pg":
            return self.obsc(kinds=("ObscPolygon",) * 5)
        if nm == "lens":
            return self.lensOptic()
        return {"s": self.surface, "m": self.medium, "c0": self.coating, "o": self.obsc, "cs": self.coordSys}[nm if nm == "c0" else "cs" if nm.startswith("cs") else nm[0]]()
