"""C02: summed amplitudes count every eligible ray once, under seeded worker schedules."""
import math
import numpy as np
from .. import world as W, ops as O
from ..harness import Violation, threads
from .c01 import sched, configure, race_text, drop_objects
from . import c01

ID = "C02"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 5000, "thorough": 60000}
LIMITS = (60, 150)
SHRINK = ("ops",)
SCRIPTED = True
RULE = ("a case is one sum over one bundle under one schedule compared with the sum of its rays' individual amplitudes; non-trivial when at least two workers ran "
        "and at least one ray was eligible; distinct by (bundle, arguments, schedule hash)")
MEASURE = "hashes of (region, worker switched to, access count at the switch) sequences, one per sum"
REAL = c01.REAL
STUB = c01.STUB
ASSUME = ["reference: exactly rounded sum (math.fsum) of flux times exp(i(k.(r-r0)-(t-t0)omega)) evaluated ray by ray with numpy from the bundle's public arrays"]
SIZES = [0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65, 100, 128, 129, 257]


def plan(seed, tier):
    g = O.OpGen(seed)
    r = g.r
    big = r.random() < .03
    sc = sched(r)
    ws, ops = [], []
    for i in range(3):
        n = g.pick(1000, 1024, 1025, 4097) if big else g.pick(*SIZES)
        ws.append((f"rv{i}", g.raydict(n, pvig=g.pick(0., .1, .5, 1.), pfail=g.pick(0., .05, .5, 1.))))
    if big:
        sc.update(race=0, gap=max(200, sc["gap"]))
    for _ in range(3 if big else 10):
        rv = g.name(ws, "rv")
        k = g.pick("sum", "sum", "sum", "slice", "concat", "repeat", "mask")
        ops.append([k, rv, g.v3(g.pick(1e-5, 1.)), g.u(-1, 1), r.random() < .5, g.pick(None, 0, 1, 5), g.pick(None, 3, -1), g.pick(None, 2, -1), g.name(ws, "rv")])
    if r.random() < .12 and not big:
        ws.append(("tel", g.optic()))
        ops = [["psf", dict(g.field(), nx=g.pick(4, 5, 6), nxOut=g.pick(2, 3), reference=g.pick("chief", "mean"))]] + ops[:3]
    elif big and r.random() < .35:
        ws.append(("tel", g.optic()))
        ops = [["psf", dict(g.field(), nx=g.pick(33, 65, 66, 71), nxOut=2, reference=g.pick("chief", "mean"))]] + ops[:1]
    return dict(world=ws, ops=ops, sched=sc, script=None)


def expected(rv, r, t, ign):
    """(sum, tolerance)"""
    x, y, z, vx, vy, vz, t0, w, f, vig, fail = (np.array(getattr(rv, k)) for k in W.RV_FIELDS)
    ok = ~fail
    if ign:
        ok &= ~vig
    x, y, z, vx, vy, vz, t0, w, f = (a[ok].astype(np.longdouble) for a in (x, y, z, vx, vy, vz, t0, w, f))
    v2 = vx * vx + vy * vy + vz * vz
    terms = ((r[0] - x) * vx, (r[1] - y) * vy, (r[2] - z) * vz)
    k = 2 * np.longdouble("3.14159265358979323846") / w
    ph = (((terms[0] + terms[1] + terms[2]) / v2) - (t - t0)) * k
    size = k * (sum(abs(q) for q in terms) / v2 + abs(t) + abs(t0))
    re, im = np.cos(ph) * f, np.sin(ph) * f
    tol = float(np.sum(abs(f) * (size * 1e-14 + 1e-13))) + 1e-300
    return complex(math.fsum(map(float, re)), math.fsum(map(float, im))), tol, int(ok.sum()), len(ok)


def run(plan, rec, B, rt):
    sc = plan["sched"]
    w, w2 = O.World(plan["world"]), O.World(plan["world"])
    rec.sample = dict(sched=sc, ops=plan["ops"][:3])
    for k, o in enumerate(plan["ops"]):
        rt.reset_stats()
        threads(1)
        if o[0] != "psf":
            rv = w[o[1]]
            if o[0] == "slice":
                rv = rv[o[5]:o[6]:o[7]]
            elif o[0] == "concat":
                rv = B.concatenateRayVectors([rv, w[o[8]].copy().toCoordSys(rv.coordSys), rv])
            elif o[0] == "mask":
                rv = rv[~rv.vignetted]
            ref = rv.copy()
        record = bool(plan.get("record"))
        configure(rt, sc, k, [e[1:] for e in plan["script"] if e[0] == k] if plan.get("script") else None, log=record)
        threads(sc["limit"])
        try:
            with np.errstate(all="ignore"):
                if o[0] == "psf":
                    got = O.run_safe(w, ["huygensPSF", "tel", o[1]])
                else:
                    got = [rv.sumAmplitude(np.array(o[2]), o[3], ignoreVignetted=o[4]) for _ in range(2 if o[0] == "repeat" else 1)]
        finally:
            st = rt.stats()
            races = race_text(rt) if st["races"] else ""
            if record:
                rec.script += [[k] + list(e) for e in rt.log()]
            rt.serial()
            threads(1)
        rec.evals += 1
        rec.ops[o[0]] += 1
        rec.steps += st["steps"]
        for f in ("reduced_grants", "switches", "stalls"):
            rec.faults[f] += st[f]
        for f in ("regions", "parallel_regions", "barriers", "atomics", "locks"):
            rec.stats[f] += st[f]
        if races:
            raise Violation(f"{o}: workers race: {races}", "race in " + o[0])
        if o[0] == "psf":
            with np.errstate(all="ignore"):
                a, b = O.run_safe(w2, ["huygensPSF", "tel", o[1]]), got
            rec.see(k, W.digest(W.canon(b)), st["sched_hash"])
            d = W.diff(W.canon(a), W.canon(b), rtol=1e-6)
            if d:
                raise Violation(f"huygensPSF({o[1]}) with {sc['limit']} workers differs from one worker: {d}", "psf differs")
            if isinstance(got, B.Lattice):
                whole_psf(B, w2["tel"], o[1], got)
            if st["parallel_regions"]:
                rec.case(o, st["sched_hash"])
                rec.state(st["sched_hash"])
            continue
        e, tol, n, m = expected(ref, o[2], o[3], o[4])
        rec.see(k, st["sched_hash"], n)
        for q in got:
            if not abs(q - e) <= tol:
                raise Violation(f"sumAmplitude of {m} rays ({n} eligible, ignoreVignetted={o[4]}) with {sc['limit']} workers: {q}, individual amplitudes sum to {e} "
                                f"(tolerance {tol:.2g})", "sum differs")
        if st["parallel_regions"] and n:
            rec.case(o, st["sched_hash"])
            rec.state(st["sched_hash"])


def whole_psf(B, tel, k, got):
    """Every pixel is the squared sum over every eligible ray, as documented."""
    with np.errstate(all="ignore"):
        nx = k["nx"]
        rays = B.RayVector.asGrid(optic=tel, wavelength=k["wavelength"], dirCos=B.utils.fieldToDirCos(k["theta_x"], k["theta_y"], projection=k.get("projection", "postel")), nx=nx)
        tel.trace(rays)
        pos, vig, fail = np.array(rays.r), np.array(rays.vignetted), np.array(rays.failed)
        c = pos[~vig].mean(axis=0) if k.get("reference") == "mean" else pos[(nx // 2) * nx + nx // 2 if nx % 2 == 0 else (nx * nx - 1) // 2]
        if not (np.isfinite(c[:2]).all() and np.isfinite(got.primitiveVectors).all()):
            return
        pv = np.array(got.primitiveVectors)
        n, m = got.array.shape
        ts = np.array(rays.t)
        ts = ts[~(vig | fail) & np.isfinite(ts)]
        t = float(ts[0]) if len(ts) else 0.
        top = float(np.sum(np.abs(np.array(rays.flux))[~(vig | fail)]))**2
        for iy in range(n):
            for ix in range(m):
                r = (ix - m // 2) * pv[0] + (iy - n // 2) * pv[1]
                a, tol, q, _ = expected(rays, [r[0] + c[0], r[1] + c[1], 0.], t, True)
                e, g = abs(a)**2, got.array[iy, ix]
                if not abs(g - e) <= 2 * abs(a) * tol + tol * tol + 1e-9 * top + 1e-300:
                    raise Violation(f"huygensPSF({k})[{iy}, {ix}] is {g}, the amplitudes of its {q} eligible rays give {e}", "psf value")


def simplify(plan):
    yield from c01.simplify(plan)
