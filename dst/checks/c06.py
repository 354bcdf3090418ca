"""C06: deriving systems from systems never changes the originals and changes only what was asked."""
import copy, gc, pickle
import numpy as np
from .. import world as W, ops as O, inject
from ..harness import Violation, threads

ID = "C06"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 1500, "thorough": 40000}
LIMITS = (60, 150)
SHRINK = ("steps",)
RULE = ("a case is one derivation (or use) inside a history of systems derived from systems, possibly cut short by a fault: every living system was compared with what it was at birth, and the derived one "
        "with the original changed by an independent model of the request; non-trivial when it made a new system or was really cut short; distinct by (derivation, kind of part, fault, depth of derivation)")
MEASURE = "hashes of (derivation, kind and depth of the part, use before it, fault kind)"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy"]
STUB = ["signal delivery (exception raised at a trace event)", "numpy's data allocator", "OpenMP runtime (simulated, one worker)"]


class Interrupt(KeyboardInterrupt):
    pass


class NoMemory(MemoryError):
    pass


KINDS = ("withGlobalShift", "withLocalShift", "withGlobalRotation", "withLocalRotation", "withGlobalRotationAbout", "withLocalRotationAbout",
         "withGloballyShiftedOptic", "withGloballyShiftedOptic", "withLocallyShiftedOptic", "withLocallyShiftedOptic", "withLocallyRotatedOptic", "withLocallyRotatedOptic",
         "withLocallyRotatedOpticAbout", "withSurface", "withSurface", "withPerturbedSurface", "withPerturbedSurface", "withInsertedOptic", "withInsertedOptic", "withRemovedOptic", "withRemovedOptic",
         "part.withGlobalShift", "part.withLocalShift", "part.withGlobalRotation", "part.withLocalRotationAbout", "part.withSurface", "part.withPerturbedSurface")
USES = ("trace", "traceFull", "lookup", "lookup", "names", "eqhash", "repr", "pickle", "gc", "radii", "analysis", "drop", "part", "traceSplit")


def plan(seed, tier):
    g = W.Gen(seed)
    r = g.r
    systems = []
    for i in range(r.choice([1, 1, 2])):
        systems.append([f"a{i}", ["yaml", r.choice(W.YAMLS)] if r.random() < .35 else g.telescope() if r.random() < .8 else g.lensOptic()])
    for _, s in systems:
        if s[0] == "optic" and r.random() < .3:
            same_names(r, s[1], [])
    steps, live = [], [n for n, _ in systems]
    for k in range(r.choice([4, 7, 11])):
        src = live[-1] if r.random() < .5 else r.choice(live)
        if r.random() < .45:
            steps.append(["use", src, r.choice(USES), r.randrange(50)])
        kind = r.choice(KINDS)
        s = 1e-3
        v = [g.u(-s, s) for _ in range(3)]
        if "Rot" in kind:
            v = [g.u(-.02, .02) for _ in range(3)]
        if kind.endswith("About"):
            v = v + [g.u(-1, 1) for _ in range(3)] + [g.u(-1, 1) for _ in range(3)] + [g.u(-.5, .5) for _ in range(3)]
            q = r.random()
            v = v[:6] if q < .25 else v[:3] + [0, 0, 0] + v[6:] if q < .35 else v       # a centre in the default system; a system's origin
        spec = None
        if kind.endswith(("withSurface", "withPerturbedSurface")):
            spec = g.pick(["Zernike", [0, 0, 0, 0, g.u(-1e-6, 1e-6), g.u(-1e-6, 1e-6)], 4.2, 0.0], ["Bicubic", 5, 6, 4.5, 4.5, 1e-7, 7, "zero"], ["Tilted", g.u(-1e-5, 1e-5), 0.0],
                          ["Paraboloid", g.u(15, 25)])
        if kind == "withInsertedOptic":
            spec = g.pick(["optic", dict(type="CompoundOptic", name=f"ins{k}", items=[["optic", dict(type="Interface", surface=["Plane"], name=g.pick("D", "M1", "L1", "PM", "FocalPlane"))]])],
                          ["optic", dict(type="Baffle", surface=["Plane"], name=f"ins{k}", coordSys=g.coordSys(), obscuration=["ObscCircle", .05])],
                          ["optic", dict(type="OPDScreen", surface=["Plane"], name=f"ins{k}", coordSys=["CoordSys", [0, 0, 7.]], screen=["Tilted", 1e-6, 2e-6])],
                          ["optic", dict(type="CompoundOptic", name=f"ins{k}", items=[["optic", dict(type="Interface", surface=["Plane"], name=f"insa{k}")],
                                                                                   ["optic", dict(type="Baffle", surface=["Plane"], name=f"insb{k}", obscuration=["ObscCircle", .05])]])])
        fault = [g.pick("ki", "ki-op", "mem", "np"), round(r.random(), 6)] if r.random() < .3 else None
        new = f"d{k}"
        steps.append(["derive", src, new, kind, r.randrange(1000), g.pick(*("short", "full")), v, spec, fault])
        if not kind.startswith("part."):
            live.append(new)
    return dict(systems=systems, steps=steps)


def same_names(r, d, outer):
    """Gives some parts inside parts the name of a part further out."""
    names = [i[1]["name"] for i in d["items"]]
    for k, (_, i) in enumerate(d["items"]):
        free = [n for n in outer if n not in names]
        if free and r.random() < .6:
            i["name"] = names[k] = r.choice(free)
    for _, i in d["items"]:
        if "items" in i:
            same_names(r, i, outer + names)


# ------------------------------------------------------------------ the reference model
def snap(o):
    """What a system is: a tree of plain values."""
    B = W.B
    a = {k: v for k, v in W._attrs(o).items() if k not in ("coordSys", "items", "stopSurface", "path")}
    d = dict(type=type(o).__name__, name=o.name, cs=(np.array(o.coordSys.origin), np.array(o.coordSys.rot)), attrs={k: W.canon(v) for k, v in a.items()})
    if isinstance(o, B.CompoundOptic):
        d["items"] = [snap(i) for i in o.items]
    if "stopSurface" in vars(o):
        d["stop"] = snap(o.stopSurface)
    d["path"] = list(o.path)
    return d


def canon_tree(t):
    return tuple(sorted(((k, v) for k, v in t.items() if k not in ("items", "stop", "attrs", "cs")), key=lambda x: x[0]).__repr__()
                 for _ in (0,)) + (tuple(W._arr(x) for x in t["cs"]), tuple((k, t["attrs"][k]) for k in sorted(t["attrs"])),
                                   tuple(canon_tree(i) for i in t.get("items", ())), canon_tree(t["stop"]) if "stop" in t else None)


def difference(want, got, path="", rtol=0.0):
    """None or what differs between two trees."""
    p = path + "/" + str(want["name"])
    for k in ("type", "name"):
        if want[k] != got[k]:
            return f"{p}: {k} {want[k]} vs {got[k]}"
    for i, what in enumerate(("position", "orientation")):
        x, y = want["cs"][i], got["cs"][i]
        if rtol:
            if not np.allclose(x, y, rtol=rtol, atol=rtol * max(1., np.abs(x).max())):
                return f"{p}: {what} {x.tolist()} vs {y.tolist()}"
        elif x.tobytes() != y.tobytes():
            return f"{p}: {what} {x.tolist()} vs {y.tolist()}"
    if set(want["attrs"]) != set(got["attrs"]):
        return f"{p}: attributes {sorted(set(want['attrs']) ^ set(got['attrs']))} appeared or vanished"
    for k in want["attrs"]:
        d = W.diff(want["attrs"][k], got["attrs"][k], path=f"{p}.{k}")
        if d:
            return d
    if ("items" in want) != ("items" in got):
        return f"{p}: items"
    if "items" in want:
        a, b = [i["name"] for i in want["items"]], [i["name"] for i in got["items"]]
        if a != b:
            return f"{p}: parts {a} vs {b}"
        for i, j in zip(want["items"], got["items"]):
            d = difference(i, j, p, rtol)
            if d:
                return d
    if ("stop" in want) != ("stop" in got):
        return f"{p}: stop surface"
    if "stop" in want:
        d = difference(want["stop"], got["stop"], p + ".stop", rtol)
        if d:
            return d
    if path_of(want) != got["path"]:
        return f"{p}: path {path_of(want)} vs {got['path']}"
    return None


def path_of(t):
    return [n for i in t["items"] for n in path_of(i)] if "items" in t else [t["name"]]


def move(t, f):
    """A tree with every coordinate system in it moved by f."""
    t = dict(t, cs=f(*t["cs"]))
    if "items" in t:
        t["items"] = [move(i, f) for i in t["items"]]
    if "stop" in t:
        t["stop"] = move(t["stop"], f)
    return t


def shift(v):
    v = np.array(v, float)
    return lambda o, R: (o + v, R)


def rotate(rot, c):
    return lambda o, R: (rot @ (o - c) + c, rot @ R)


def at(t, where, f):
    """A tree with the part at index path `where` replaced by f(part)."""
    if not where:
        return f(t)
    items = list(t["items"])
    items[where[0]] = at(items[where[0]], where[1:], f)
    return dict(t, items=items)


def names(t, pre=""):
    """[(fully qualified name, index path, tree)] of every part."""
    out = [(pre + t["name"], (), t)]
    for i, it in enumerate(t.get("items", ())):
        out += [(n, (i,) + w, x) for n, w, x in names(it, pre + t["name"] + ".")]
    return out


def unique(tree):
    """{any unique trailing part of a qualified name: index path}"""
    cnt = {}
    for n, w, _ in names(tree):
        tok = n.split(".")
        for k in range(len(tok)):
            cnt.setdefault(".".join(tok[k:]), set()).add(w)
    return {k: next(iter(v)) for k, v in cnt.items() if len(v) == 1}


def objs(o, where=()):
    out = {where: o}
    if isinstance(o, W.B.CompoundOptic):
        for i, it in enumerate(o.items):
            out.update(objs(it, where + (i,)))
    return out


def rebuild(o):
    """The same system assembled afresh through constructors, nothing cached."""
    B = W.B
    a = {k: v for k, v in W._attrs(o).items() if k not in ("path", "inRadius", "outRadius")}
    kw = {k: v for k, v in a.items() if k not in ("items", "surface", "screen", "stopSurface")}
    kw["coordSys"] = B.CoordSys(np.array(o.coordSys.origin), np.array(o.coordSys.rot))
    if "stopSurface" in a:
        kw["stopSurface"] = rebuild(a["stopSurface"])
    if isinstance(o, B.CompoundOptic):
        return type(o)([rebuild(i) for i in o.items], **kw)
    if isinstance(o, B.OPDScreen):
        return type(o)(o.surface, o.screen, **kw)
    return type(o)(o.surface, **kw)


# ------------------------------------------------------------------ one derivation
def request(B, o, tree, kind, idx, style, v, spec):
    """(callable making the derivation, expected tree or None when it must be refused)"""
    tgt, where = tree, ()
    onpart = kind.startswith("part.")
    base = kind[5:] if onpart else kind
    allp = names(tree)
    leaf = [p for p in allp if "items" not in p[2]]
    compound = "items" in tree
    if base in ("withSurface", "withPerturbedSurface"):
        n, where, tgt = leaf[idx % len(leaf)]
    elif base in ("withInsertedOptic", "withRemovedOptic"):
        ins = [p for p in allp[1:] if p[1] and names(tree)[0][2] is not p[2]]
        # mostly direct parts, sometimes parts of parts; a Lens always keeps its two
        ok = [p for p in ins if parent(tree, p[1])["type"] != "Lens"]
        if not ok:
            return None, None, None, None
        top = [p for p in ok if len(p[1]) == 1]
        n, where, tgt = (top if idx % 3 and top else ok)[idx % len(top if idx % 3 and top else ok)]
        if base == "withRemovedOptic" and len(parent(tree, where)["items"]) < 2:
            return None, None, None, None
    elif base.endswith(("Optic", "OpticAbout")):
        n, where, tgt = allp[idx % len(allp)]
    elif onpart:
        n, where, tgt = allp[1:][idx % len(allp[1:])] if len(allp) > 1 else allp[0]
    else:
        n = None
    if n is not None:
        short = [k for k, w in unique(tree).items() if w == where]
        name = n if style == "full" or not short else sorted(short, key=len)[idx % len(short)]
    part = objs(o)[where]
    oo, RR = tgt["cs"]
    rot = W.rotm(v[:3]) if "Rot" in kind else None
    about = ()
    if len(v) == 12:
        about = (v[3:6] if any(v[3:6]) else None, B.CoordSys(W.arr(v[6:9]), W.rotm(v[9:12])))
        gc_ = np.array(v[6:9]) + W.rotm(v[9:12]) @ np.array(v[3:6])
    elif len(v) == 6:
        about = (v[3:6],)
        gc_ = np.array(v[3:6]) if "Global" in kind else oo + RR @ np.array(v[3:6])
    else:
        gc_ = np.zeros(3) if "Global" in kind else oo
    rec = part if onpart else o
    if base == "withGlobalShift":
        f, e = (lambda: rec.withGlobalShift(v)), (lambda t: move(t, shift(v)))
    elif base == "withLocalShift":
        f, e = (lambda: rec.withLocalShift(v)), (lambda t: move(t, shift(RR @ np.array(v))))
    elif base.startswith("withGlobalRotation"):
        f = lambda: rec.withGlobalRotation(rot, *about)
        e = lambda t: move(t, rotate(rot, gc_))
    elif base.startswith("withLocalRotation"):
        f = lambda: rec.withLocalRotation(rot, *about)
        e = lambda t: move(t, rotate(RR @ rot @ RR.T, gc_))
    elif base == "withGloballyShiftedOptic":
        f, e = (lambda: o.withGloballyShiftedOptic(name, v)), (lambda t: move(t, shift(v)))
    elif base == "withLocallyShiftedOptic":
        f, e = (lambda: o.withLocallyShiftedOptic(name, v)), (lambda t: move(t, shift(RR @ np.array(v))))
    elif base.startswith("withLocallyRotatedOptic"):
        f = lambda: o.withLocallyRotatedOptic(name, rot, *about)
        e = lambda t: move(t, rotate(RR @ rot @ RR.T, gc_))
    elif base == "withSurface":
        s = W.build(spec)
        f = (lambda: part.withSurface(s)) if onpart or not compound else (lambda: o.withSurface(name, s))
        e = lambda t: dict(t, attrs=dict(t["attrs"], surface=W.canon(s)))
    elif base == "withPerturbedSurface":
        s = W.build(spec)
        f = (lambda: part.withPerturbedSurface(s)) if onpart or not compound else (lambda: o.withPerturbedSurface(name, s))
        e = lambda t: dict(t, attrs=dict(t["attrs"], surface=W.canon(B.Sum([part.surface, s]))))
    elif base == "withInsertedOptic":
        it = W.build(spec)
        f = lambda: o.withInsertedOptic(name, it)
        pos = where[-1]
        return f, at(tree, where[:-1], lambda t: dict(t, items=t["items"][:pos] + [snap(it)] + t["items"][pos:])), it, len(where) > 1
    elif base == "withRemovedOptic":
        pos = where[-1]
        f = lambda: o.withRemovedOptic(name)
        return f, at(tree, where[:-1], lambda t: dict(t, items=t["items"][:pos] + t["items"][pos + 1:])), None, len(where) > 1
    else:
        raise KeyError(kind)
    return f, (e(tgt) if onpart else at(tree, where, e)), part, len(where) > 1


def parent(tree, where):
    for i in where[:-1]:
        tree = tree["items"][i]
    return tree


def rays(B, o, tree):
    if "pupilSize" in tree["attrs"] and "backDist" in tree["attrs"]:
        try:
            return B.RayVector.asPolar(optic=o, wavelength=620e-9, theta_x=.002, theta_y=-.001, nrad=2, naz=6)
        except Exception:
            pass
    return W.rays(dict(n=7, seed=5, z=2., slope=.02, pvig=0., pfail=0.))


def behaviour(B, o, rv):
    """What a system does: traces in both forms."""
    out = []
    for f in (lambda: o.trace(rv.copy()), lambda: o.traceFull(rv.copy()) if isinstance(o, B.CompoundOptic) else None, lambda: o.trace(rv.copy(), reverse=True)):
        try:
            x = f()
            out.append(W.canon([[k, v["in"], v["out"]] for k, v in x.items()] if isinstance(x, dict) else x))
        except Exception as e:
            out.append(W.canon(e))
    for p in objs(o).values():
        if isinstance(p, B.Interface):
            out.append(W.canon([p.name, getattr(p, "R_outer", 0), getattr(p, "R_inner", 0), p.inRadius, p.outRadius]))
    return tuple(out)


def use(B, o, tree, kind, idx):
    if kind in ("trace", "traceFull", "traceSplit"):
        rv = rays(B, o, tree)
        if kind == "trace":
            o.trace(rv)
        elif isinstance(o, B.CompoundOptic) or kind == "traceSplit":
            try:
                getattr(o, kind)(rv, **({"minFlux": .1} if kind == "traceSplit" else {}))
            except Exception:
                pass
    elif kind == "lookup" and isinstance(o, B.CompoundOptic):
        a = sorted(unique(tree))
        for j in range(3):
            o[a[(idx + j) % len(a)]]
    elif kind == "names" and isinstance(o, B.CompoundOptic):
        o.itemDict
        try:
            o["no such part"]
        except ValueError:
            pass
    elif kind == "eqhash":
        o == o
        try:
            hash(o)
        except TypeError:
            pass
    elif kind == "repr":
        repr(o)
    elif kind == "pickle":
        pickle.loads(pickle.dumps(o))
        copy.deepcopy(o)
    elif kind == "gc":
        gc.collect()
    elif kind == "radii":
        for p in objs(o).values():
            getattr(p, "R_outer", None), getattr(p, "R_inner", None)
    elif kind == "part":
        ps = list(objs(o).values())
        p = ps[idx % len(ps)]
        p.trace(W.rays(dict(n=3, seed=idx, z=1.)))
    elif kind == "analysis" and "pupilSize" in tree["attrs"]:
        try:
            B.wavefront(o, 1e-3, 0., 620e-9, nx=5)
        except Exception:
            pass


def run(plan, rec, B, rt):
    rt.serial()
    threads(1)
    rt.np_allocator()
    pool, birth, trees, depth = {}, {}, {}, {}
    rec.sample = dict(steps=plan["steps"][:3])
    used = {}

    def add(n, o, d):
        pool[n], depth[n] = o, d
        trees[n] = snap(o)
        birth[n] = W.digest(canon_tree(trees[n]))

    def unchanged(why):
        for n, o in pool.items():
            t = snap(o)
            if W.digest(canon_tree(t)) != birth[n]:
                d = difference(trees[n], t) or "something"
                raise Violation(f"{why}: existing system {n} changed: {d}", f"original changed by {why.split()[0]}")

    with np.errstate(all="ignore"):
        for n, s in plan["systems"]:
            add(n, W.build(s), 0)
        first = {n: behaviour(B, o, rays(B, o, trees[n])) for n, o in pool.items()}
        for i, st in enumerate(plan["steps"]):
            rec.steps += 1
            if st[1] not in pool:
                continue
            o, tree = pool[st[1]], trees[st[1]]
            if st[0] == "use":
                if st[2] == "drop":
                    if depth[st[1]]:
                        for q in (pool, birth, trees, depth):
                            q.pop(st[1])
                        o = None
                        gc.collect()
                    continue
                use(B, o, tree, st[2], st[3])
                used.setdefault(st[1], set()).add(st[2])
                unchanged(f"use {st[2]} of {st[1]}")
                continue
            _, src, new, kind, idx, style, v, spec, fault = st
            if "items" not in tree and kind.endswith(("Optic", "OpticAbout")):
                continue
            f, want, aux, nested = request(B, o, tree, kind, idx, style, v, spec)
            if f is None:
                continue
            what = f"{kind} {src}->{new} {v if spec is None else spec[:2]}"
            aux0 = W.digest(W.canon(aux)) if aux is not None else None
            fk = None
            if fault:
                twin = request(B, *(lambda q: (q, tree))(rebuild(o)), kind, idx, style, v, spec)[0]
                tr = inject.Tracer(B, {}, opcodes=fault[0] == "ki-op")
                n0 = rt.lib.dst_np_count()
                tr.run(twin)
                n = rt.lib.dst_np_count() - n0 if fault[0] == "np" else tr.n
                if n > 0:
                    k = min(n - 1, int(fault[1] * n))
                    err, struck = None, False
                    try:
                        if fault[0] == "np":
                            rt.np_fail(k)
                            try:
                                f()
                            finally:
                                struck = rt.lib.dst_np_failed() > 0
                                rt.np_fail(-1)
                        else:
                            def boom():
                                raise (NoMemory if fault[0] == "mem" else Interrupt)("injected")
                            tr = inject.Tracer(B, {k: boom}, opcodes=fault[0] == "ki-op")
                            try:
                                tr.run(f)
                            finally:
                                struck = tr.fired > 0
                    except BaseException as e:
                        err = type(e).__name__
                    if struck:
                        fk = fault[0]
                        rec.faults[{"ki": "interrupt at a line", "ki-op": "interrupt at an opcode", "mem": "MemoryError at a line", "np": "failed array allocation"}[fk]] += 1
                    unchanged(f"{what} cut short by {fault[0]} ({err})")
            try:
                d = f()
            except Exception as e:
                raise Violation(f"{what} (part named {style}) raised {e!r}", f"{kind} raised {type(e).__name__}")
            rec.evals += 1
            rec.ops[kind] += 1
            got = snap(d)
            diff = difference(want, got, rtol=1e-12)
            if diff and kind in ("withInsertedOptic", "withRemovedOptic") and nested and difference(tree, got) is None:
                rec.find(f"{kind} of a nested part is ignored", f"{what}: the part is not a direct one and the request is silently ignored")
                diff, want = None, tree
            if diff:
                raise Violation(f"{what}: the derived system is not the original with the requested change: {diff}", f"{kind}: wrong result")
            if aux is not None and W.digest(W.canon(aux)) != aux0:
                raise Violation(f"{what}: the part passed in changed", f"{kind}: argument changed")
            unchanged(what)
            lookups(B, d, got, what, kind)
            rv = rays(B, d, got)
            x, y = behaviour(B, d, rv), behaviour(B, rebuild(d), rv)
            dd = W.diff(y, x)
            if dd:
                raise Violation(f"{what}: the derived system does not trace like a system assembled with those parts: {dd}", f"{kind}: behaviour")
            if kind.startswith("part."):
                rec.case(kind, type(d).__name__, fk, depth[src])
            else:
                rec.case(kind, want["type"], len(want.get("items", ())), style, fk, depth[src])
                add(new, d, depth[src] + 1)
            rec.state(kind, aux.__class__.__name__, sorted(used.get(src, ())), fk, depth[src])
            rec.see(i, birth.get(new), fk)
    for n, b in first.items():
        if n in pool:
            dd = W.diff(b, behaviour(B, pool[n], rays(B, pool[n], trees[n])))
            if dd:
                raise Violation(f"system {n} traces differently at the end of the history: {dd}", "original behaves differently")
    unchanged("end of history")


def lookups(B, d, tree, what, kind):
    if not isinstance(d, B.CompoundOptic):
        return
    ob = objs(d)
    full = [n for n, _, _ in names(tree)]
    dup = {n for n in full if full.count(n) > 1}
    for n, w, _ in names(tree):
        if n not in dup and d[n] is not ob[w]:
            raise Violation(f"{what}: derived[{n!r}] is not the part the system traces through", f"{kind}: lookup")
    if {k for k in d.itemDict} != set(full):
        raise Violation(f"{what}: the derived system lists parts {sorted(set(d.itemDict) ^ set(full))[:3]}", f"{kind}: lookup")
    for k, w in unique(tree).items():
        try:
            x = d[k]
        except ValueError:
            raise Violation(f"{what}: derived[{k!r}] is not found", f"{kind}: lookup")
        if x is not ob[w]:
            raise Violation(f"{what}: derived[{k!r}] is not the part the system traces through", f"{kind}: lookup")
