"""C15: over every history, bundles evolve as a one-ray-at-a-time model says, and only the bundle operated on changes."""
import numpy as np
from .. import world as W, ops as O, hist as H, model as M, inject
from ..harness import Violation, mix, threads
from . import c01

ID = "C15"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 3600, "thorough": 60000}
LIMITS = (60, 150)
SHRINK = ("hist",)
RULE = ("a case is one step of a history whose effect on every live bundle was compared with the reference model's; non-trivial when the model predicted at least one "
        "ray for certain; distinct by (history prefix)")
MEASURE = "hashes of the model's state of all bundles after each step"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy"]
STUB = ["OpenMP runtime: simulated, under a random schedule in three runs of ten", "interrupts: raised at seeded trace events"]


class Gen(H.HistGen):
    def query(self, ws):
        r = self.r
        if r.random() < .3:
            rv = r.choice([n for n, _ in ws if n.startswith("r")])
            k = self.pick("traceFull", "path", "globalRays")
            if k == "traceFull":
                return [k, self.pick("lens", "tel"), self.pick(rv, "rt0"), r.random() < .2]
            if k == "globalRays":
                return [k, "tel", self.pick("rt0", rv), self.pick(None, r.randrange(4)), self.pick(None, r.randrange(4, 20)), self.pick(None, "cs0")]
            return self.pathop(rv)
        return H.HistGen.query(self, ws, analyses=.02, derive=.05)


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    ws = c01.bundles(g, g.world(nrv=2, small=True), [1, 2, 3, 5, 8, 16], large=True)
    h, rvs = g.history(ws, r.choice([6, 15, 30, 40]), write=g.pick(0, .05), objects=g.pick(0, .06), inplace=.5, derived=.25, query=.5)
    out = []
    for s in h:
        if s[0] == "write" and s[2] not in ("t", "flux", "vignetted", "x"):
            continue
        if s[0] in "!=" and r.random() < .08:
            out.append(["abort", r.randrange(60), s])
            if r.random() < .5:
                out.append(s)
        else:
            out.append(s)
        if s[0] == "=" and s[2][0] == "surf" and s[2][1] == "rSplit" and r.random() < .5:
            out.append(["=", s[1], ["concat", s[1], s[2][3]], 0])
        if r.random() < .1:
            rv = r.choice(rvs)
            out.append(["split", g.pick(["traceSplit", "lens", "rl", g.pick(.2, .05), r.random() < .2], ["traceSplit", "tel", "rt0", g.pick(.01, .1)], ["traceSplit", "lens", rv, g.pick(.2, .05)])])
    return dict(world=ws, hist=out, rvs=rvs, sched=c01.sched(r) if r.random() < .3 else None, shown=r.random() < .7)


def part(w, o, idx):
    names = sorted(w[o].itemDict)
    return w[o][names[idx % len(names)]]


NONE = "unmodelled"


class Full(list):
    """Predicted result of a full trace."""

    def differs(self, out):
        if list(out) != [x[0] for x in self]:
            return f"stops {list(out)} instead of {[x[0] for x in self]}"
        for k, nm, a, b in self:
            if out[k]["name"] != nm:
                return f"stop {k} is named {out[k]['name']}"
            d = M.compare(a, out[k]["in"]) or M.compare(b, out[k]["out"])
            if d:
                return f"stop {k}: {d}"


class Global(tuple):
    """Predicted result of getGlobalRays."""

    def differs(self, out):
        xyz, ok, vis, vok = self
        if out[0].shape != xyz.shape or out[1].shape != vis.shape:
            return f"shapes {out[0].shape} {out[1].shape} instead of {xyz.shape} {vis.shape}"
        bad = ok & ~(np.abs(out[0] - xyz).max(1, initial=0) <= M.TOL * (1 + np.abs(xyz).max(1, initial=0)))
        if bad.any():
            i, j = np.argwhere(bad)[0]
            return f"vertex {j} of ray {i} at {out[0][i, :, j]} instead of {xyz[i, :, j]}"
        if (vok & (out[1] != vis)).any():
            return f"visible vertices {out[1]} instead of {vis}"


def predict(tw, op, st):
    """Model result of an op acting on the bundles' model states; a state, a list of states, or NONE."""
    k = op[0]
    if k == "surf":
        _, kind, s, rv, cs, coat, m1, m2, scr, _via = op
        return M.surface(st[rv], kind, tw[s], None if cs is None else M.frame(tw[cs]), tw[coat], tw[m1], tw[m2], tw[scr])
    if k == "trace":
        return M.trace(st[op[2]], tw[op[1]], bool(op[3]) if len(op) > 3 else False)
    if k == "tracePath":
        return M.tracePath(st[op[2]], tw[op[1]], O.stops(tw, op[1], op[3]))
    if k == "traceFull":
        return Full(M.traceFull(st[op[2]], tw[op[1]], bool(op[3]) if len(op) > 3 else False))
    if k == "traceFullPath":
        return Full(M.traceFullPath(st[op[2]], tw[op[1]], O.stops(tw, op[1], op[3])))
    if k == "globalRays":
        full = M.traceFull(st[op[2]], tw[op[1]])
        n = len(full)
        a, b = 0 if op[3] is None else op[3] % n, n - 1 if op[4] is None else op[4] % n
        return Global(M.globalRays(full, a, b, M.frame(tw[op[5]] if len(op) > 5 and op[5] else W.B.globalCoordSys))) if a <= b else None
    if k == "partTrace":
        _, o, idx, rv, meth, rev = op
        p = part(tw, o, idx)
        if isinstance(p, W.B.CompoundOptic):
            return M.trace(st[rv], p, rev) if meth == "trace" else None
        if meth == "rSplit":
            if rev and M.kindof(p) == "Detector":   # refused by Detector
                return None
            out = M.rsplit(st[rv], p, rev)
            return [x for x in out if x is not None]
        return M.interact(st[rv], p, rev, meth)
    if k == "obscure":
        return M.obscure(st[op[2]], tw[op[1]])
    if k == "toCoordSys":
        return M.toCoordSys(st[op[1]], M.frame(tw[op[2]]))
    if k == "ctRays":
        return M.transform(st[op[3]], M.frame(tw[op[1]]), M.frame(tw[op[2]]), op[4])
    if k == "propagate":
        return M.propagate(st[op[1]], op[2])
    if k in ("rvcopy", "roundtrip", "deep"):
        return st[op[1]].copy()
    if k == "slice_":
        return st[op[1]].take(slice(op[2], op[3], op[4] if len(op) > 4 else None))
    if k == "index":
        n = len(st[op[1]])
        return st[op[1]].take(op[2] % max(1, n)) if n else None
    if k == "mask":
        return st[op[1]].take(~st[op[1]].vig)
    if k == "concat":
        a = [st[n] for n in op[1:]]
        return M.S(**{f: np.concatenate([getattr(x, f) for x in a]) for f in M.S.F}, cs=a[0].cs, path=None)
    if k == "take":
        n, g = len(st[op[1]]), W.rs(op[3])
        if n and op[2] in ("ints", "list", "bool"):
            return st[op[1]].take(dict(ints=lambda: g.integers(-n, n, 5), list=lambda: g.integers(0, n, 3), bool=lambda: g.random(n) < .5)[op[2]]())
    return NONE


def predicted(tw, op, st):
    """predict(), where mistakes the model makes too are expected errors."""
    if op[0] in ("rvcopy", "roundtrip", "deep") and op[1] not in st:
        return NONE
    with np.errstate(all="ignore"):
        try:
            return predict(tw, op, st)
        except (AttributeError, KeyError, ZeroDivisionError, ValueError) as e:
            if op[0] in ("tracePath", "traceFullPath", "globalRays", "traceFull", "trace"):
                return None
            raise


def check_split(i, s, w, tw, st, rec):
    op = s[1]
    rv = op[2]
    if rv not in w.o:
        return
    with np.errstate(all="ignore"):
        out = O.run_safe(w, op)
        rev = bool(op[4]) if len(op) > 4 else False
        try:
            dropped = []
            start = st[rv].copy()
            start.path = None           # the operation acts on a plain copy
            want = M.traceSplit(start, tw[op[1]], op[3], rev, dropped)
        except OverflowError:
            return
        except AttributeError:
            want = None
    if isinstance(out, Exception):
        if want is None:
            return
        raise Violation(f"step {i} {s}: raised {out!r}", f"{op[0]} raised {type(out).__name__}")
    b = M.of(w[rv])
    live = ~b.vig & ~b.fail
    for lst in out:
        for x in lst:
            if (np.asarray(x.flux) < op[3]).any() or np.asarray(x.vignetted).any() or np.asarray(x.failed).any():
                raise Violation(f"step {i} {s}: dim, vignetted or failed rays on path {x.path}", "split keeps dead rays")
    if want is None:
        return
    sure = not dropped
    for k in range(2):
        got = {}
        for x in out[k]:
            p = tuple(x.path)
            if p in got:
                raise Violation(f"step {i} {s}: path {p} appears twice", "split path twice")
            got[p] = x
        exp = {tuple(y.path): y for y in want[k]}
        if set(exp) - set(got) or (sure and set(got) - set(exp)):
            raise Violation(f"step {i} {s}: {('forward', 'reverse')[k]} paths {sorted(set(got) ^ set(exp))[:3]} missing or unexpected", "split paths")
        for p in exp:
            if len(exp[p]) != len(got[p]) and not sure:
                if len(got[p]) < len(exp[p]):
                    raise Violation(f"step {i} {s}: path {p}: rays missing", "split rays missing")
                continue
            d = M.compare(exp[p], got[p])
            if d:
                raise Violation(f"step {i} {s}: path {p}: {d}", "split differs")
    rec.stats["split paths checked"] += sum(map(len, want)) if sure else 0
    rec.stats["splits unsure"] += not sure


def run(plan, rec, B, rt):
    sc = plan["sched"]
    w, tw = O.World(), O.World()
    specs = dict((n, s) for n, s in plan["world"])
    w.names = tw.names = set(specs) | set(plan["rvs"])
    rec.sample = dict(hist=plan["hist"][:4])
    rt.serial()
    threads(1)
    for n, s in plan["world"]:
        w.add(n, s)
        if not n.startswith("r"):
            tw.add(n, s)
    bun = lambda: [n for n in w.o if isinstance(w.o[n], B.RayVector)]
    st = {n: M.of(w.o[n]) for n in bun()}
    sigs = {n: W.digest(W.canon(w.o[n])) for n in bun()}

    def sim(k):
        if sc:
            c01.configure(rt, dict(sc, race=0), k)
            threads(sc["limit"])

    def calm():
        if sc:
            s_ = rt.stats()
            rec.faults["switches"] += s_["switches"]
            rt.reset_stats()
            rt.serial()
            threads(1)

    def fresh(n):
        w.o.pop(n, None)
        if n in specs:
            w.add(n, specs[n])

    for i, s in enumerate(plan["hist"]):
        k = s[0]
        if any(isinstance(x, str) and x in w.names and x not in w.o and not (k == "=" and x == s[1] and x not in O.flatten(s[2:])) for x in O.flatten(s[1:])):
            if k not in ("new",) and not (k == "abort" and s[2][0] == "=" and all(x in w.o or x not in w.names for x in O.flatten(s[2][2]) if isinstance(x, str))):
                continue
        rec.evals += 1
        rec.ops[k + (":" + (s[1][0] if k in "!?" or k == "split" else s[2][0] if k == "=" else "")) if k in ("!", "?", "=", "split") else k] += 1
        touched, made, pred, allowed = None, None, None, set()
        err = None
        if k == "split":
            check_split(i, s, w, tw, st, rec)
        elif k == "abort":
            inner = s[2]
            op = inner[1] if inner[0] == "!" else inner[2]

            def boom():
                raise KeyboardInterrupt
            tr = inject.Tracer(B, {s[1]: boom})
            tgt = {x for x in O.flatten(op) if x in w.o and isinstance(w.o[x], B.RayVector)} if inner[0] == "!" else set()
            sim(i)
            try:
                with np.errstate(all="ignore"):
                    w.inplace = inner[0] == "!"
                    out = tr.run(O.run_safe, w, op)
            except KeyboardInterrupt:
                pass
            finally:
                w.inplace = False
                calm()
            if tr.fired:
                rec.faults["interrupted operations"] += 1
            for n in tgt:           # what it was to modify may be in between: start it afresh
                fresh(n)
                allowed.add(n)
        elif k == "!":
            op = s[1]
            b4 = dict(st)
            tgt = [x for x in O.flatten(op) if isinstance(x, str) and x in st]
            pred = predicted(tw, op, st)
            with np.errstate(all="ignore"):
                w.inplace = True
                sim(i)
                try:
                    out = O.run_safe(w, op)
                finally:
                    w.inplace = False
                    calm()
            touched = tgt[0]
            allowed.add(touched)
            if isinstance(out, Exception):
                if pred is not None and pred is not NONE:
                    raise Violation(f"step {i} {s}: raised {out!r}", f"raised {type(out).__name__} in {op[0]}")
                fresh(touched)
            elif isinstance(out, str) or pred is None:
                pred = None
            if touched in w.o and not isinstance(out, Exception):
                d = M.invariants(b4[touched], w.o[touched])
                if d:
                    raise Violation(f"step {i} {s}: {d}", "invariant: " + d.split(" ray ")[0][:30])
                if pred is not None and pred is not NONE:
                    d = M.compare(pred, w.o[touched])
                    rec.stats["rays predicted"] += int((pred.kn & pred.fkn).sum())
                    rec.stats["rays unsure"] += int((~(pred.kn & pred.fkn)).sum())
                    if (pred.kn & pred.fkn & ~pred.fail).any():
                        rec.case(plan["hist"][:i + 1])
                    if d:
                        raise Violation(f"step {i} {s}: {d}", f"model: {op[0]} {op[1] if op[0] == 'surf' else ''}")
        elif k == "=" or k == "?" and s[1][0] not in ("positionAtTime", "phase"):
            op = s[2] if k == "=" else s[1]
            pred = predicted(tw, op, st)
            with np.errstate(all="ignore"):
                sim(i)
                try:
                    out = O.run_safe(w, op)
                finally:
                    calm()
            if isinstance(out, Exception):
                if pred is not None and pred is not NONE:
                    raise Violation(f"step {i} {s}: raised {out!r}", f"raised {type(out).__name__} in {op[0]}")
            else:
                outs = [x for x in O.flatten(out) if isinstance(x, B.RayVector)]
                if isinstance(pred, (Full, Global)):
                    d = pred.differs(out)
                    if d:
                        raise Violation(f"step {i} {s}: {d}", f"model: {op[0]}")
                    rec.stats["full traces compared"] += 1
                elif isinstance(out, str):      # no such method
                    pass
                elif pred is not None and pred is not NONE:
                    preds = list(pred) if isinstance(pred, (tuple, list)) else [pred]
                    if len(preds) != len(outs):
                        raise Violation(f"step {i} {s}: {len(outs)} bundles instead of {len(preds)}", f"model: {op[0]} bundles")
                    for p, x in zip(preds, outs):
                        d = M.compare(p, x)
                        if d:
                            raise Violation(f"step {i} {s}: {d}", f"model: {op[0]} {op[1] if op[0] == 'surf' else ''}")
                        if (p.kn & p.fkn & ~p.fail).any():
                            rec.case(plan["hist"][:i + 1])
                if outs and k == "=":
                    w.o[s[1]] = outs[s[3] % len(outs)]
                    allowed.add(s[1])
        elif k == "new":
            H.step(w, s)
            if not s[1].startswith("r"):
                H.step(tw, s)
            else:
                specs[s[1]] = s[2]
            allowed.add(s[1])
        elif k == "write":
            H.step(w, s)
            allowed.add(s[1])
        elif k == "?" and s[1][0] == "positionAtTime":
            with np.errstate(all="ignore"):
                got = O.run_safe(w, s[1])
                m = st[s[1][1]]
                r, v = M.local(m, m.cs)
                want = r + v * (s[1][2] - m.t)[:, None]
            ok = ~m.fail & m.kn
            if isinstance(got, Exception) or got.shape != want.shape or not (np.abs(got - want)[ok] <= 1e-9 * (1 + np.abs(want[ok]))).all():
                raise Violation(f"step {i} {s}: positions {got} instead of {want}", "positionAtTime")
        elif k == "?" and s[1][0] == "phase":
            with np.errstate(all="ignore"):
                got = O.run_safe(w, s[1])
                m = st[s[1][1]]
                r, v = M.local(m, m.cs)
                want = (((np.array(s[1][2]) - r) * v).sum(1) / (v * v).sum(1) - (s[1][3] - m.t)) * 2 * np.pi / m.wl
            ok = ~m.fail & m.kn
            if isinstance(got, Exception) or got.shape != want.shape or not (np.abs(got - want)[ok] <= 1e-4).all():
                raise Violation(f"step {i} {s}: phases {got} instead of {want}", "phase")
        else:
            sim(i)
            try:
                H.step(w, s)
            finally:
                calm()
        # no other bundle shows anything of it
        live = bun()
        now = {}
        for n in live:
            now[n] = W.digest(W.canon(w.o[n]))
            if n not in allowed and n in sigs and now[n] != sigs[n]:
                raise Violation(f"step {i} {s}: bundle {n} changed", f"other bundle changed by {k}")
        for n in live:
            if n in allowed or n not in st:
                st[n] = M.of(w.o[n])
        for n in set(st) - set(live):
            del st[n]
        if plan.get("shown", True):
            for n in live:
                if n in allowed:
                    shown(w.o[n], i, s, n)
        sigs = now
        rec.state(sorted(now.items()))
        rec.see(i, sorted(now.items()))


def shown(b, i, s, n):
    """What is computed from a bundle when it is asked for goes with its rays as they are."""
    with np.errstate(all="ignore"):
        v = np.stack([b.vx, b.vy, b.vz], axis=1)
        want = dict(r=np.stack([b.x, b.y, b.z], axis=1), v=v, k=2 * np.pi * v / b.wavelength[:, None] / (v * v).sum(1)[:, None], omega=2 * np.pi / b.wavelength)
        got = {f: getattr(b, f) for f in want}
        for j, f in enumerate(("kx", "ky", "kz")):
            want[f] = want["k"][:, j]
            got[f] = getattr(b, f)
    for f, x in want.items():
        if got[f].shape != x.shape or not np.allclose(got[f], x, rtol=1e-12, atol=0, equal_nan=True):
            raise Violation(f"step {i} {s}: {f} of bundle {n} is {got[f][:3]} instead of {x[:3]}", f"shown {f}")


def simplify(plan):
    if plan["sched"]:
        yield dict(plan, sched=None)
    used = c01.names_in(plan["hist"], set()) | {"gcs"}
    for n, s in plan["world"]:
        if n in used and s[0] not in ("rays",):
            c01.names_in(s, used)
    ws = [x for x in plan["world"] if x[0] in used]
    if len(ws) < len(plan["world"]):
        yield dict(plan, world=ws)
    for i, (n, s) in enumerate(plan["world"]):
        if s[0] == "rays" and s[1]["n"] > 1:
            for m in {s[1]["n"] // 2, s[1]["n"] - 1}:
                w = [list(x) for x in plan["world"]]
                w[i] = [n, ["rays", dict(s[1], n=m)]]
                yield dict(plan, world=w)
