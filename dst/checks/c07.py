"""C07: an operation cut short at any instant leaves everything else as it was and can be repeated."""
import gc, hashlib, linecache, os, pickle, random, sys, warnings
import numpy as np
from .. import world as W, ops as O, hist as H, inject, zygote as Z
from ..harness import Violation, mix, threads
from . import c01

ID = "C07"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 2800, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("ops",)
RULE = ("a case is one operation cut short by one fault: the error that surfaced, the state of every object, setting and generator afterwards and the result of repeating it were checked; "
        "non-trivial when the fault really struck inside the operation; distinct by (operation, fault kind, place it struck)")
MEASURE = "hashes of (operation, fault kind, source line or allocation index struck)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy", "galsim"]
STUB = ["signal delivery (exception raised at a trace event)", "allocators (numpy's data allocator, C++ operator new)", "OpenMP runtime (simulated, one worker)"]
KINDS = ("ki", "ki", "ki-op", "ki-op", "mem", "np", "np", "np", "new", "new")


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


@O.op()
def build(w, spec):
    return w.make(spec)


@O.op()
def bad(w, kind, o, rv):
    """Calls that fail by themselves."""
    B = W.B
    if kind == "lookup":
        return w["tel"]["no such part"]
    if kind == "shift":
        return w["tel"].withGloballyShiftedOptic("no such part", [0, 0, 1])
    if kind == "rot":
        return w["tel"].withLocallyRotatedOptic("no such part", np.eye(3))
    if kind == "insert":
        return w["tel"].withInsertedOptic("no such part", W.build(["optic", dict(type="Baffle", surface=["Plane"], name="q")]))
    if kind == "remove":
        return w["tel"].withRemovedOptic("no such part")
    if kind == "coords":
        return B.RayVector.asGrid(optic=w["tel"], wavelength=5e-7, nx=3)
    if kind == "shape":
        return w["s0"].sag(np.zeros(3), np.zeros((2, 2)))
    if kind == "poly":
        return B.ObscPolygon([0., 1.], [0., 1., 2.])
    if kind == "rays":
        return B.RayVector([0., 1.], [0.], [0.], [0.], [0.], [1.])
    if kind == "medium":
        return B.refract(w["s0"], w.cp(rv), None, None)
    if kind == "path":
        return w["lens"].trace(w.cp(rv), path=["S0", "nowhere"])
    if kind == "yaml":
        return B.Optic.fromYaml("no_such_file.yaml")
    if kind == "parse":
        return B.parse.parse_optic(dict(type="Mirror", name="x", surface=dict(type="Nope")))
    if kind == "perturb":
        return w["tel"].withPerturbedSurface("no such part", w["scr"])
    if kind == "wl":
        return B.RayVector.asPolar(optic=w["tel"], theta_x=0, theta_y=0, nrad=2, naz=6)


BAD = ("lookup", "shift", "rot", "insert", "remove", "coords", "shape", "poly", "rays", "medium", "path", "yaml", "parse", "perturb", "wl")


class Gen(H.HistGen):
    def op(self, ws, rvs):
        r = self.r
        x = r.random()
        if x < .16:
            n, s = r.choice([q for q in ws if q[0] not in ("rt0",)])
            return ["build", s]
        if x < .24:
            return ["bad", self.pick(*BAD), "tel", self.name(ws, "rv", "rl")]
        if x < .36:
            return self.construct(ws)
        if x < .42:
            return ["project", self.pick(*self.PROJ), r.choice([1, 2, 5]), r.randrange(1000)]
        return self.query(ws, analyses=.2, derive=.2)


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    ws = g.world(small=True)
    rvs = [n for n, _ in ws if n.startswith("r")]
    ops = []
    for _ in range(r.choice([4, 8])):
        inpl = r.random() < .25
        o = g.inplace(ws, rvs) if inpl else g.op(ws, rvs)
        ops.append(dict(op=o, inplace=inpl, faults=[[r.choice(KINDS), round(r.random(), 6)] for _ in range(r.choice([1, 2, 3]))]))
    return dict(world=ws, ops=ops, limit=g.pick(1, 3, 8, 16), cold=r.random() < .5)


def entering(B, place):
    """Whether the fault struck at a with statement itself, which Python cannot make atomic."""
    d = os.path.dirname(B.__file__)
    return any(f == place[0] and linecache.getline(os.path.join(p, f), place[2]).lstrip().startswith("with ") for p, _, fs in os.walk(d) for f in fs)


def quiet(*a):
    pass


def settings(B):
    gv = {k: v for k, v in vars(B.global_vars).items() if not k.startswith("__")}
    return dict(globals=repr(sorted(gv.items(), key=lambda x: x[0])), numpy_random=hashlib.md5(pickle.dumps(np.random.get_state())).hexdigest(),
                python_random=hashlib.md5(repr(random.getstate()).encode()).hexdigest(), errstate=repr(np.geterr()), printoptions=repr(np.get_printoptions()),
                cwd=os.getcwd(), environ=hashlib.md5(repr(sorted(os.environ.items())).encode()).hexdigest(), warnings=repr(warnings.filters), recursion=sys.getrecursionlimit(),
                gc=gc.isenabled(), stdout=id(sys.stdout), stderr=id(sys.stderr), trace=repr(sys.gettrace()), modules=None)


def undisturbed(plan, w, rt, B):
    """Per operation: its result, and how many instants a fault can strike at."""
    for p in plan["ops"]:
        yield undisturbed_one(p, w, rt, B)


def undisturbed_one(p, w, rt, B):
    o, cnt = p["op"], {}
    tr = inject.Tracer(B, {})
    ref = W.canon(tr.run(O.run_safe, w, o))
    cnt["ki"] = cnt["mem"] = tr.n
    if any(k == "ki-op" for k, _ in p["faults"]):
        tr = inject.Tracer(B, {}, opcodes=True)
        tr.run(O.run_safe, w, o)
        cnt["ki-op"] = tr.n
    n0, m0 = rt.lib.dst_np_count(), rt.new_count()
    O.run_safe(w, o)
    cnt["np"], cnt["new"] = rt.lib.dst_np_count() - n0, rt.new_count() - m0
    return ref, cnt


def elsewhere(plan):
    """The same in another process, so that nothing is warm in this one when the first fault strikes."""
    rt, B = Z.RT, Z.BATOID
    rt.serial()
    threads(plan.get("limit", 1))
    rt.np_allocator()
    with np.errstate(all="call", call=quiet):
        return list(undisturbed(plan, O.World(plan["world"]), rt, B))


def run(plan, rec, B, rt):
    rt.serial()
    threads(plan.get("limit", 1))
    rt.np_allocator()
    ws = plan["world"]
    w, tw = O.World(ws), O.World(ws)
    specs = dict((n, s) for n, s in ws)
    rec.sample = dict(ops=plan["ops"][:2])
    refs = undisturbed(plan, tw, rt, B)     # on the twins
    if plan.get("cold"):
        rep = Z.call(Z.zyg("host"), __name__, "elsewhere", plan)
        if rep["status"] != 0:
            raise Violation(f"an undisturbed run of {plan['ops']} failed: {rep['status']} {rep['err'][-300:]}", "undisturbed run")
        refs = iter(rep["result"])
        rec.stats["runs struck in a process that had done nothing yet"] += 1
    dig = lambda: {n: W.digest(W.canon(o)) for n, o in w.o.items()}
    base = dig()

    def fresh(n):
        w.o.pop(n)
        w.add(n, specs[n])

    with np.errstate(all="call", call=quiet):     # a setting that nobody's temporary one equals
        for i, p in enumerate(plan["ops"]):
            o = p["op"]
            ref, cnt = next(refs)
            tgt = [x for x in O.flatten(o) if isinstance(x, str) and x in w.o and isinstance(w.o[x], B.RayVector)][:1] if p["inplace"] else []
            for kind, frac in p["faults"]:
                n = cnt.get(kind, 0)
                rec.evals += 1
                rec.ops[o[0]] += 1
                if n <= 0:
                    rec.stats["nothing to strike"] += 1
                    continue
                k = min(n - 1, int(frac * n))
                before = settings(B)
                err = out = None
                struck, place, gagged = False, None, []
                w.inplace = p["inplace"]
                try:
                    if kind in ("ki", "ki-op", "mem"):
                        def boom():
                            raise (NoMemory if kind == "mem" else Interrupt)("injected")
                        tr = inject.Tracer(B, {k: boom}, opcodes=kind == "ki-op")
                        try:
                            out = tr.run(O.run, w, o)
                        finally:
                            struck, place = tr.fired > 0, tr.where
                    elif kind == "np":
                        real = np.array_equal

                        def array_equal(*a, **kw):      # answers False when it gets no memory, whoever asks
                            f0 = rt.lib.dst_np_failed()
                            e = real(*a, **kw)
                            if rt.lib.dst_np_failed() > f0:
                                gagged.append(1)
                            return e
                        np.array_equal = array_equal
                        rt.np_fail(k)
                        try:
                            out = O.run(w, o)
                        finally:
                            np.array_equal = real
                            struck, place = rt.lib.dst_np_failed() > 0, k
                            rt.np_fail(-1)
                    else:
                        f0 = rt.stats()["new_fail"]
                        rt.new_fail(k)
                        try:
                            out = O.run(w, o)
                        finally:
                            rt.new_fail(-1)
                            struck, place = rt.stats()["new_fail"] > f0, k
                except (KeyboardInterrupt, MemoryError) as e:
                    err = e
                except BaseException as e:
                    err = e
                finally:
                    w.inplace = False
                what = f"op {i} {o} {'in place ' if tgt else ''}cut short by {kind} at {place}"
                rec.faults[{"ki": "interrupt at a line", "ki-op": "interrupt at an opcode", "mem": "MemoryError at a line", "np": "failed array allocation", "new": "failed C++ allocation"}[kind]] += struck
                if struck:
                    rec.case(o, kind, place)
                    rec.state(o[0], kind, place)
                rec.see(i, kind, k, type(err).__name__, struck)
                c = W.canon(err) if err is not None else W.canon(out)
                same = O.diff_op(o, ref, c) is None if not p["inplace"] or err is not None else True
                if struck and not same:
                    want = Interrupt if kind.startswith("ki") else MemoryError
                    if err is None and kind == "np" and gagged:
                        rec.stats["failed allocations hidden by numpy.array_equal"] += 1
                        err = NoMemory()
                    if err is None:
                        raise Violation(f"{what}: the fault was swallowed and the result is {O.diff_op(o, ref, c)}", f"swallowed {kind} in {o[0]}")
                    if not isinstance(err, want) and not chained(err, want) and not (kind == "np" and binding(err)):
                        raise Violation(f"{what}: surfaced as {err!r}", f"surfaced as {type(err).__name__} in {o[0]}")
                    if kind in ("np", "new") and isinstance(err, MemoryError):
                        rec.stats["memory errors surfaced"] += 1
                elif not struck and not same:
                    raise Violation(f"{what}: not struck, but differs: {O.diff_op(o, ref, c)}", f"differs {o[0]}")
                err = out = None
                after = settings(B)
                for q in after:
                    if after[q] != before[q]:
                        if q == "errstate" and isinstance(place, tuple) and entering(B, place):
                            rec.stats["interrupts between a with statement and its block"] += 1
                            np.seterr(all="call")
                            continue
                        raise Violation(f"{what}: {q} changed from {before[q]} to {after[q]}", f"{q} changed")
                now = dig()
                for n_ in tgt:
                    if now[n_] == base[n_]:
                        rec.stats["targets left untouched"] += 1
                        continue    # repeat it on the very same bundle
                    if struck and not same:
                        relabelled(w.o[n_], O.World([(n_, specs[n_])]).o[n_] if specs[n_][0] == "rays" else tw_rays(specs, n_), what, o, rec)
                    fresh(n_)
                    now[n_] = W.digest(W.canon(w.o[n_]))
                for n_ in now:
                    if now[n_] != base[n_]:
                        raise Violation(f"{what}: {n_} changed", f"{n_[0]} changed by aborted {o[0]}")
                w.inplace = p["inplace"]
                try:
                    again = W.canon(O.run_safe(w, o))
                finally:
                    w.inplace = False
                d = O.diff_op(o, ref, again)
                if d:
                    raise Violation(f"{what}: repeating it gives another result: {d}", f"retry differs {o[0]}")
                for n_ in tgt:
                    fresh(n_)
    now = dig()
    for n_ in now:
        if now[n_] != base[n_]:
            raise Violation(f"{n_} changed", f"{n_[0]} changed")
    rec.steps += len(plan["ops"])


def tw_rays(specs, n):
    return O.World([("tel", specs["tel"]), (n, specs[n])]).o[n]


def relabelled(got, was, what, o, rec):
    """A bundle whose rays are untouched must not claim to be in another coordinate system."""
    for f in ("x", "y", "z", "vx", "vy", "vz", "t"):
        if getattr(got, f).tobytes() != getattr(was, f).tobytes():
            return
    if got.coordSys == was.coordSys:
        return
    rec.stats["targets with another coordinate system only"] += 1
    moved = was.copy().toCoordSys(got.coordSys)
    live = ~was.failed & ~got.failed      # failed rays mean nothing and may be left as they are
    d = max((float(np.nanmax(np.abs(getattr(moved, f) - getattr(was, f))[live], initial=0)) for f in ("x", "y", "z", "vx", "vy", "vz")), default=0)
    if d > 1e-9:
        raise Violation(f"{what}: the rays are as before but labelled as being in {got.coordSys!r} instead of {was.coordSys!r}", f"relabelled by aborted {o[0]}")


def binding(e):
    # pybind11 turns a failed array conversion into its overload error
    return isinstance(e, TypeError) and "incompatible" in str(e) and "Invoked with" in str(e)


def chained(e, want):
    seen = 0
    while e is not None and seen < 8:
        if isinstance(e, want):
            return True
        e = e.__cause__ or e.__context__
        seen += 1
    return False


def simplify(plan):
    for i, p in enumerate(plan["ops"]):
        for j in range(len(p["faults"])):
            if len(p["faults"]) > 1:
                yield dict(plan, ops=plan["ops"][:i] + [dict(p, faults=p["faults"][j:j + 1])] + plan["ops"][i + 1:])
    yield from c01.drop_objects(dict(plan, ops=plan["ops"] + [["tel", "gcs"]])) if False else []
