"""C11: loading a model yields that file's content or an error, whatever the disk does."""
import copy, ctypes, gc, io, os, random, shutil, tempfile
import numpy as np
from .. import world as W, ops as O, inject, zygote as Z
from ..harness import Violation, mix, threads

ID = "C11"
ZYGOTES = {"host": dict(flavour="host", disk=True)}
SEEDS = {"quick": 5000, "thorough": 60000}
LIMITS = (60, 150)
SHRINK = ("events",)
RULE = ("a case is one load (Optic.fromYaml or TableMedium.fromTxt) on the simulated disk whose outcome was compared with the content of the file in the directory at that moment, computed from memory, and whose open files were counted; "
        "non-trivial when a fault fired, the name was loaded before, or its file changed; distinct by (kind, state of the name here and among the packaged files, faults that fired, loads of that name before)")
MEASURE = "hashes of (kind, file state, faults fired and file calls made)"
REAL = ["batoid Python package", "PyYAML", "numpy.loadtxt", "CPython io and glob", "batoid C++ (instrumented build)"]
STUB = ["the file calls of libc below Python (interposed: open, read, stat, opendir, readdir, ... with faults by rule)", "packaged data directory (redirected to a scratch mirror)", "signal delivery (exception raised at a trace event)"]

OPEN, READ, STAT, DIR, READDIR, FSTAT, ANY = 0, 1, 2, 3, 4, 5, 6
FAIL, SHORT, RENAME, UNLINK = range(4)
ERRS = dict(EACCES=13, EIO=5, EMFILE=24, ENFILE=23, ENOMEM=12, EINTR=4, ELOOP=40, ESTALE=116, EPERM=1, ENAMETOOLONG=36, EOVERFLOW=75)
USER_Y = ("mine.yaml", "AuxTel.yaml", "tel.yaml")
PACK_Y = ("AuxTel.yaml", "tel.yaml", "HSC.yaml", "other.yaml", "mine.yaml.yaml", "Tel.yaml", "xtel.yaml")
USER_T = ("glass.txt", "silica_dispersion.txt")
PACK_T = ("silica_dispersion.txt", "silicon_dispersion.txt", "glass.txt.txt", "xsilica_dispersion.txt")
DIRS = ("home", "work")


class Interrupt(KeyboardInterrupt):
    pass


# ------------------------------------------------------------------ contents
def text_y(ver):
    """A description file; versions of the same class have the same length."""
    g = random.Random(ver)
    big = ver % 4
    R, z, w = g.uniform(10, 20), g.uniform(5, 6), g.uniform(.3, .9)
    t = "# description \u00e9\u4e2d %08d\n" % ver
    t += "opticalSystem:\n  type: CompoundOptic\n  name: V%08d\n  inMedium: 1.0\n  backDist: %.6f\n  items:\n" % (ver, z * 2)
    n = (1, 1, 3, 40)[big]
    for i in range(n):
        t += "    -\n      type: Mirror\n      name: M%d\n      surface:\n        type: Paraboloid\n        R: %.6f\n      obscuration:\n        type: ClearCircle\n        radius: %.6f\n" % (i, R + i, w)
        t += "      coordSys:\n        z: %.6f\n" % (i * .1)
        t += "    # %s\n" % ("\u4e2d" * (30 if big == 2 else 7))
    t += "    -\n      type: Detector\n      name: D\n      surface:\n        type: Plane\n      coordSys:\n        x: %.6f\n        z: %.6f\n" % (w, z)
    return t


def text_t(ver):
    g = random.Random(ver)
    n = (3, 8, 60, 900)[ver % 4]
    t = "# wavelength index\n" if ver // 4 % 3 else ""
    for i in range(n):
        t += "%.9f %.9f\n" % (.3 + .9 * i / (n - 1), g.uniform(1.4, 1.5))
    return t


BAD = ("opticalSystem: [1, 2", "", "something: 1\n", "opticalSystem:\n  type: Nonsense\n", "0.5 1.4\n0.6\n", "not a table\n", "\t: :\n- x")


def text(name, ver):
    if ver <= -16:
        return damage(name, -ver)
    if ver < 0:
        return BAD[-ver % len(BAD)]
    return (text_y if name.endswith(".yaml") else text_t)(ver)


def damage(name, v):
    """A good file after an accident: cut short, with a bad line, a missing or an additional one, or two files run together."""
    t = text(name, v)
    g = random.Random(v)
    lines = t.splitlines(True)
    k = g.choice(("cut", "cut", "line", "line", "first", "first", "column", "twice", "blank", "crlf", "tail", "lost"))
    first = next(i for i, l in enumerate(lines) if not l.startswith("#"))
    i = g.randrange(first, len(lines))
    if k == "cut":
        a = len("".join(lines[:first + 2]))
        return t[:g.randrange(a, len(t))]
    if k == "first":
        lines[first] = g.choice(("wavelength index\n", "um n\n", "0.3\n", "- oops: [\n", "0.1 0.2 0.3\n"))
    elif k == "line":
        lines[i] = g.choice(("--\n", "0.3\n", "???\n", "\t}\n", "<<<<<<< HEAD\n"))
    elif k == "column":
        lines[i] = lines[i].rstrip("\n") + " 1.5\n"
    elif k == "twice":
        return t + ("---\n" if name.endswith(".yaml") and g.random() < .5 else "") + t
    elif k == "blank":
        lines.insert(i, "\n")
    elif k == "crlf":
        lines = [l.replace("\n", "\r\n") for l in lines]
    elif k == "tail":
        return t.rstrip("\n") + g.choice(("", "\n\n", " # end", "\n# end\n", "\nend\n"))
    elif len(lines) > first + 3:
        del lines[i]
    return "".join(lines)


def rows(t, skip):
    lines = [l.split("#")[0] for l in t.replace("\r\n", "\n").split("\n")[skip:]]
    return [[float(x) for x in l.split()] for l in lines if l.strip()]


def meaning(name, t, skip=0):
    """What a file with this text describes (canonical), or None if it describes nothing."""
    B = W.B
    import yaml
    try:
        if name.endswith(".yaml"):
            return W.canon(B.parse.parse_optic(yaml.safe_load(io.StringIO(t))["opticalSystem"]))
        table = rows(t, skip)
        if not table or len(set(map(len, table))) != 1 or len(table[0]) != 2:
            return None
        w, n = np.array(table).T.copy()
        return W.canon(B.TableMedium(w * 1e-6, n.copy()))
    except Exception:
        return None


# ------------------------------------------------------------------ plans
def plan(seed, tier):
    g = W.Gen(seed)
    r = g.r
    v = lambda: r.randrange(1, 1 << 20) * 4 + r.choice([0, 0, 1, 1, 2, 3])
    pack = [[d, n, v()] for d, n in [("A", n) for n in PACK_Y if r.random() < .8] + [("media", n) for n in PACK_T if r.random() < .8]]
    pack += [["LSST", "README.txt", 1], ["LSST", "r.yaml", v()]]
    ev = []
    names = USER_Y + ("HSC.yaml", "other.yaml", "nowhere.yaml") + USER_T + ("silicon_dispersion.txt", "nowhere.txt")
    focus = r.sample(names, r.choice([1, 2, 4]))
    for _ in range(r.choice([4, 7, 12])):
        n = r.choice(focus) if r.random() < .9 else r.choice(names)
        d = r.choice(DIRS)
        k = g.pick("load", "load", "load", "load", "load", "put", "put", "put", "rm", "cd", "mutate", "mkdir", "pack")
        if k == "put":
            ev.append([k, d, n, -r.randrange(1, 8) if r.random() < .08 else -v() - 16 if r.random() < .25 else v(), g.pick("rename", "inplace"), r.random() < .6])
        elif k in ("rm", "mkdir"):
            ev.append([k, d, n])
        elif k == "cd":
            ev.append([k, d])
        elif k == "mutate":
            ev.append([k, r.randrange(100), r.randrange(3)])
        elif k == "pack":
            ev.append([k, r.randrange(100), v() if r.random() < .7 else 0])
        else:
            ev.append(["load", n, g.pick("bare", "bare", "bare", "dot", "abs", "absother", "up"), faults(g), r.randrange(1, 1 << 30) if r.random() < .8 else 0, round(r.random(), 6) if r.random() < .08 else None, r.choice([0, 0, 0, 0, 1, 2, 3]) if n.endswith(".txt") else 0])
    return dict(pack=pack, events=ev)


def faults(g):
    r = g.r
    if r.random() < .35:
        return []
    out = []
    for _ in range(r.choice([1, 1, 2, 3])):
        k = g.pick("open", "open", "read", "read", "short", "short", "stat", "stat", "dir", "readdir", "fstat", "eintr", "eintr", "swap", "swap", "unlink")
        e = g.pick("EACCES", "EIO", "EIO", "EMFILE", "ENFILE", "ENOMEM", "ELOOP", "ESTALE", "EPERM")
        n = r.choice([0, 0, 0, 1, 1, 2, 3, 5])
        if k == "short":
            for j in range(r.choice([1, 4, 30])):
                out.append([READ, n + j, SHORT, None, r.choice([1, 2, 7, 100, 1000]), None])
        elif k == "eintr":
            out += [[r.choice([OPEN, READ]), n + j, FAIL, "EINTR", 0, None] for j in range(r.choice([1, 1, 3]))]
        elif k == "swap":
            out.append([ANY, r.randrange(14), RENAME, None, 0, r.randrange(1, 1 << 20) * 4 + r.choice([0, 1, 2, 3])])
        elif k == "unlink":
            out.append([ANY, r.randrange(14), UNLINK, None, 0, None])
        else:
            op = dict(open=OPEN, read=READ, stat=STAT, dir=DIR, readdir=READDIR, fstat=FSTAT)[k]
            out.append([op, n, FAIL, e, 0, None])
            x = r.random()
            if x < .25:      # the disk stays broken
                out[-1][1] = -1
            elif x < .45:    # a directory or file that may not be used
                out[-1] = [ANY, -1, FAIL, e, 0, g.pick("dir", "file", "data", "sub")]
            elif x < .6:     # broken for a while
                out += [[op, n + j, FAIL, e, 0, None] for j in range(1, 6)]
    return out[:60]


# ------------------------------------------------------------------ running
class Disk:
    def __init__(self):
        self.lib = ctypes.CDLL(None)
        self.lib.dstfs_begin.argtypes = [ctypes.c_ulonglong]
        self.lib.dstfs_rule.argtypes = [ctypes.c_int] * 4 + [ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p]
        self.root = tempfile.mkdtemp(prefix="disk", dir=os.path.dirname(Z.zyg("host")))
        self.lib.dstfs_reset()
        self.lib.dstfs_watch(self.root.encode())
        self.lib.dstfs_redirect(os.path.realpath(W.B.datadir).encode(), (self.root + "/data").encode())
        self.tmp = 0

    def rules(self, fs, seed, target):
        self.lib.dstfs_begin(seed)
        for op, nth, act, err, arg, ver in fs:
            a = b = b""
            if act == RENAME:
                a, b = self.stage(target, ver).encode(), target.encode()
            elif act == UNLINK:
                a = target.encode()
            elif act == FAIL and ver:
                a = {"dir": os.path.dirname(target), "file": target, "data": self.root + "/data", "sub": self.root + "/data/media"}[ver].encode()
            self.lib.dstfs_rule(op, nth, act, ERRS.get(err, 0), arg, a, b)

    def stage(self, target, ver):
        self.tmp += 1
        p = f"{self.root}/tmp/{self.tmp}"
        with open(p, "w", encoding="utf8", newline="") as f:
            f.write(text(os.path.basename(target), ver))
        os.utime(p, ns=(10**18, 10**18))
        return p

    def fired(self, fs):
        return [f for i, f in enumerate(fs) if self.lib.dstfs_rule_fired(i)]

    def close(self):
        self.lib.dstfs_reset()
        os.chdir("/")
        shutil.rmtree(self.root, ignore_errors=True)


def run(plan, rec, B, rt):
    rt.serial()
    threads(1)
    rec.sample = dict(events=plan["events"][:5])
    os.environ["PYTHONUTF8"] = "1"
    D = Disk()
    try:
        history(plan, rec, B, D)
    finally:
        D.close()


def history(plan, rec, B, D):
    files, pack = {}, {}            # path relative to the root -> version; 'dir' for a directory
    for d in DIRS + ("tmp", "data"):
        os.mkdir(f"{D.root}/{d}")
    for d, n, v in plan["pack"]:
        os.makedirs(f"{D.root}/data/{d}", exist_ok=True)
        put(D, f"data/{d}/{n}", v if not n.startswith("README") else -6, "rename", True)
        pack[n] = (f"data/{d}/{n}", v)
    cwd = DIRS[0]
    os.chdir(f"{D.root}/{cwd}")
    loaded, seen = [], {}
    cache = {}
    kw = {}
    lone = set()

    def mean(n, v):
        skip = kw.get("skiprows", 0)
        if (n, v, skip) not in cache:
            cache[n, v, skip] = c = meaning(n, text(n, v), skip)
            if c is not None and n.endswith(".txt") and len(rows(text(n, v), skip)) == 1:
                lone.add(id(c))     # numpy.loadtxt makes scalars of a single row: it may be refused
        return cache[n, v, skip]

    for i, e in enumerate(plan["events"]):
        k = e[0]
        rec.steps += 1
        rec.ops[k] += 1
        if k == "put":
            p = f"{e[1]}/{e[2]}"
            if files.get(p) == "dir":
                os.rmdir(f"{D.root}/{p}")
            put(D, p, e[3], e[4] if p in files and files[p] != "dir" else "rename", e[5])
            files[p] = e[3]
            continue
        if k == "rm" or k == "mkdir":
            p = f"{e[1]}/{e[2]}"
            if files.get(p) == "dir":
                os.rmdir(f"{D.root}/{p}")
            elif p in files:
                os.unlink(f"{D.root}/{p}")
            files.pop(p, None)
            if k == "mkdir":
                os.mkdir(f"{D.root}/{p}")
                files[p] = "dir"
            continue
        if k == "pack":
            n = sorted(pack)[e[1] % len(pack)]
            p, v = pack[n]
            if n.startswith("README"):
                continue
            if e[2]:
                put(D, p, e[2], "rename", True)
                pack[n] = (p, e[2])
            else:
                os.unlink(f"{D.root}/{p}")
                del pack[n]
            rec.faults["packaged file replaced or removed between loads"] += 1
            continue
        if k == "cd":
            cwd = e[1]
            os.chdir(f"{D.root}/{cwd}")
            continue
        if k == "mutate":
            if loaded:
                o = loaded[e[1] % len(loaded)]
                if isinstance(o, B.Optic):
                    if e[2] == 0:
                        o.clearObscuration()
                    elif e[2] == 1:
                        o.items[0].skip = True
                        o.name = "changed"
                    else:
                        o.items[-1].coordSys = B.CoordSys([1., 2., 3.])
                else:
                    for q in (o.ns, o.wavelengths):
                        if q.flags.writeable:
                            q[...] = q[::-1].copy() if e[2] else 2.
                rec.faults["loaded object changed by its owner"] += 1
            continue
        # ---- load
        n, how, fs, lseed, intr = e[1:6]
        kw = dict(skiprows=e[6]) if len(e) > 6 and e[6] else {}
        d = cwd if how in ("bare", "dot", "abs") else DIRS[1 - DIRS.index(cwd)]
        arg = {"bare": n, "dot": "./" + n, "abs": f"{D.root}/{d}/{n}", "absother": f"{D.root}/{d}/{n}", "up": f"../{d}/{n}"}[how]
        p = f"{d}/{n}"
        here = files.get(p)
        if here == "dir":
            fs = [f for f in fs if f[2] not in (RENAME, UNLINK)]
        f = B.Optic.fromYaml if n.endswith(".yaml") else B.TableMedium.fromTxt
        D.rules(fs, lseed, f"{D.root}/{p}")
        tr = None
        if intr is not None:
            def boom():
                raise Interrupt
            tr = inject.Tracer(B, {int(intr * (40 if n.endswith(".txt") else 400)): boom})
        out = err = None
        D.lib.dstfs_arm(1)
        try:
            out = tr.run(lambda: f(arg, **kw)) if tr else f(arg, **kw)
        except (Exception, Interrupt) as x:
            err = x
        finally:
            D.lib.dstfs_arm(0)
        fired = D.fired(fs)
        hard = [x for x in fired if x[2] == FAIL and x[3] != "EINTR"]
        swaps = [x for x in fired if x[2] == RENAME]
        gone = [x for x in fired if x[2] == UNLINK]
        what = f"event {i}: loading {arg!r}{' ' + str(kw) if kw else ''} ({'directory' if here == 'dir' else 'missing' if here is None else 'version %d' % here}) with {fired} fired"
        ename = type(err).__name__ if err is not None else None
        etext = str(err)
        interrupted = isinstance(err, Interrupt)
        err = None
        # what may come out
        if here == "dir":
            ok, must = [], False
        else:
            vers = ([here] if here is not None else []) + [x[5] for x in swaps]
            ok = [mean(n, v) for v in vers]
            fallback = here is None or gone
            if fallback and how == "bare" and n in pack:
                ok.append(mean(n, pack[n][1]))
            must = bool(ok) and all(x is not None and id(x) not in lone for x in ok) and not (fallback and not (how == "bare" and n in pack))
            if here is None and swaps:      # it came while we looked: not finding it is fair
                must = False
        rec.evals += 1
        for x in fired:
            rec.faults[{FAIL: f"{x[3]} at {('open', 'read', 'stat', 'opendir', 'readdir', 'fstat', 'any')[x[0]]}", SHORT: "short read", RENAME: "file replaced during the load", UNLINK: "file removed during the load"}[x[2]]] += 1
        rec.faults["interrupt"] += interrupted
        rec.faults["listing permuted"] += bool(lseed) and D.lib.dstfs_count(READDIR) > 0
        if out is not None:
            c = W.canon(out)
            if not any(x is not None and W.same(c, x) for x in ok):
                near = next((x for x in ok if x is not None), None)
                raise Violation(f"{what}: returned something else: {W.diff(near, c) if near is not None else str(c)[:300]}", f"other content {f.__name__}")
            loaded.append(out)
            out = None
        elif not interrupted:
            if must and not hard:
                raise Violation(f"{what}: raised {ename}: {etext[:200]} although nothing failed", f"refused {f.__name__}")
            if here is None and not hard and not fired and not (how == "bare" and n in pack) and ename != "FileNotFoundError":
                raise Violation(f"{what}: raised {ename}: {etext[:200]}, not FileNotFoundError", f"other error {f.__name__}")
        gc.collect(0)
        if D.lib.dstfs_nopen() or D.lib.dstfs_ndirs():
            raise Violation(f"{what}: {D.lib.dstfs_nopen()} files and {D.lib.dstfs_ndirs()} directories left open", f"left open {f.__name__}")
        if swaps or gone:
            # whatever the order was, see what is there now
            last = [x for x in fired if x[2] in (RENAME, UNLINK)][-1] if True else None
            if os.path.lexists(f"{D.root}/{p}"):
                with open(f"{D.root}/{p}", encoding="utf8", newline="") as q:
                    t = q.read()
                files[p] = next((x[5] for x in swaps if text(n, x[5]) == t), here)
            else:
                files.pop(p, None)
        if fired or interrupted or n in seen:
            rec.case(f.__name__, len(kw), here is not None and mean(n, here) is not None if here != "dir" else "dir", n in pack, [[*x[:4], x[5] if x[2] == FAIL else None] for x in fired], seen.get(n), how)
        rec.state(f.__name__, str(here is None), ename, [x[:4] for x in fired], [D.lib.dstfs_count(q) for q in range(7)])
        seen[n] = seen.get(n, 0) + 1
        rec.see(i, ename, [x[:5] for x in fired], W.digest(c) if ename is None else None, [D.lib.dstfs_count(q) for q in range(7)])
        # ---- the next load, once faults stop
        if fired or interrupted:
            D.lib.dstfs_begin(lseed)
            now = files.get(p)
            want = mean(n, now) if isinstance(now, int) else mean(n, pack[n][1]) if now is None and how == "bare" and n in pack else None
            D.lib.dstfs_arm(1)
            try:
                c = W.canon(f(arg, **kw))
            except Exception as x:
                c, et = None, repr(x)
            finally:
                D.lib.dstfs_arm(0)
            rec.evals += 1
            if (c is None) != (want is None) and not (c is None and id(want) in lone):
                raise Violation(f"{what}; the next load without faults {'raised ' + et if c is None else 'returned something where there is nothing'}", f"next load {f.__name__}")
            if c is not None and not W.same(c, want):
                raise Violation(f"{what}; the next load without faults differs: {W.diff(want, c)}", f"next load {f.__name__}")


def put(D, p, ver, mode, keep):
    path = f"{D.root}/{p}"
    t = text(os.path.basename(p), ver)
    if mode == "rename":
        tmp = D.root + "/tmp/new"
        with open(tmp, "w", encoding="utf8", newline="") as f:
            f.write(t)
        os.replace(tmp, path)
    else:
        with open(path, "w", encoding="utf8", newline="") as f:
            f.write(t)
    if keep:
        os.utime(path, ns=(10**18, 10**18))     # a store with coarse or preserved time stamps


def simplify(plan):
    for i, e in enumerate(plan["events"]):
        if e[0] == "load" and e[3]:
            for j in range(len(e[3])):
                yield dict(plan, events=plan["events"][:i] + [[*e[:3], e[3][:j] + e[3][j + 1:], *e[4:]]] + plan["events"][i + 1:])
    for j in range(len(plan["pack"])):
        if len(plan["pack"]) > 1:
            yield dict(plan, pack=plan["pack"][:j] + plan["pack"][j + 1:])
