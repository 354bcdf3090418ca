"""Builds batoid's extension from /repo's working tree against the simulated runtime.

Two flavours, each one a Python extension module called _batoid:
  host : -fopenmp, the loops run on the simulated OpenMP runtime (rt/simrt.cpp)
  gpu  : -fopenmp -DBATOID_GPU, the loops run on the simulated discrete accelerator

Objects are cached by content under $DST_BUILD (default /verif/.build), so a source change
recompiles what it touches.  Nothing is written to /repo.
"""
import hashlib, os, subprocess, sys, sysconfig, glob, fcntl, shutil, json
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("DST_REPO", "/repo")
BUILD = os.environ.get("DST_BUILD", os.path.join(VERIF, ".build"))
PY = "/opt/venv/bin/python"


def h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()[:32]


def read(p):
    with open(p, "rb") as f:
        return f.read()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout[-6000:])


def atomically(cmd, out):
    """cmd is a function of the output path."""
    tmp = f"{out}.{os.getpid()}.tmp"
    run(cmd(tmp))
    os.replace(tmp, out)


RENAME_SRC = ["_Znwm", "_Znam", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "malloc", "free", "calloc", "realloc"]
RENAME_PY = RENAME_SRC[:6]


def build(flavour):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    src = sorted(glob.glob(REPO + "/src/*.cpp"))
    pysrc = sorted(glob.glob(REPO + "/pysrc/*.cpp"))
    if not src or not pysrc:
        raise BuildError("no sources under " + REPO)
    hdr_files = sorted(glob.glob(REPO + "/include/**/*", recursive=True)) + sorted(
        p for d in ("src", "pysrc") for p in glob.glob(f"{REPO}/{d}/*") if not p.endswith(".cpp"))
    hdrs = h(*[x for p in hdr_files if os.path.isfile(p) for x in (os.path.relpath(p, REPO), read(p))])
    import pybind11
    inc = ["-I" + REPO + "/include", "-I" + sysconfig.get_paths()["include"], "-I" + pybind11.get_include()]
    base = ["g++", "-std=c++14", "-g1", "-fPIC", "-fvisibility=hidden", "-fopenmp", "-w", "-ffp-contract=off"]
    if flavour == "gpu":
        base += ["-DBATOID_GPU", "-foffload=disable"]
    jobs, objs = [], []

    def add(srcfile, flags, renames, prefix):
        key = h(read(srcfile), hdrs, os.path.basename(srcfile), flags, renames, prefix)
        obj = os.path.join(BUILD, "obj", key + ".o")
        objs.append(obj)
        if os.path.exists(obj):
            return

        def job():
            raw = f"{obj}.{os.getpid()}.raw.o"
            run(flags + ["-c", srcfile, "-o", raw])
            atomically(lambda t: ["objcopy"] + [f"--redefine-sym={s}={prefix}{s}" for s in renames] + [raw, t], obj)
            os.unlink(raw)
        jobs.append(job)

    for f in src:
        add(f, base + ["-O1", "-fsanitize=thread"] + inc[:1] + inc[1:], RENAME_SRC, "dst_src_")
    for f in pysrc:
        add(f, base + ["-O0"] + inc, RENAME_PY, "dst_py_")
    rt = os.path.join(HERE, "rt", "simrt.cpp")
    rtkey = h(read(rt))
    rtobj = os.path.join(BUILD, "obj", rtkey + ".rt.o")
    if not os.path.exists(rtobj):
        jobs.append(lambda: atomically(lambda t: ["g++", "-std=c++20", "-O2", "-g1", "-fPIC", "-fvisibility=hidden", "-w", "-c", rt, "-o", t], rtobj))
    with ThreadPoolExecutor(8) as ex:
        for fut in [ex.submit(j) for j in jobs]:
            fut.result()
    sokey = h(*objs, rtobj, flavour)
    sodir = os.path.join(BUILD, f"{flavour}-{sokey}")
    so = os.path.join(sodir, "_batoid" + sysconfig.get_config_var("EXT_SUFFIX"))
    if not os.path.exists(so):
        os.makedirs(sodir, exist_ok=True)
        wraps = ["pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_trylock",
                 "__cxa_guard_acquire", "__cxa_guard_release", "__cxa_guard_abort"]
        atomically(lambda t: ["g++", "-shared", "-o", t] + objs + [rtobj, "-Wl,-Bsymbolic", "-Wl,--no-undefined-version",
                   "-lpthread"] + [f"-Wl,--wrap={w}" for w in wraps], so)
        r = subprocess.run(["nm", "-D", "-u", so], stdout=subprocess.PIPE, text=True)
        bad = [l.split()[-1] for l in r.stdout.splitlines() if l.split() and
               (l.split()[-1].startswith(("GOMP_", "GOACC", "omp_", "__tsan", "dst_")))]
        if bad:
            os.unlink(so)
            raise BuildError("symbols the simulated runtime does not provide: " + ", ".join(bad))
    return so


def build_fs():
    """The simulated disk, a preloaded library."""
    src = os.path.join(HERE, "rt", "fs.c")
    so = os.path.join(BUILD, "obj", h(read(src)) + ".fs.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        atomically(lambda t: ["gcc", "-O1", "-g1", "-shared", "-fPIC", "-fvisibility=hidden", "-w", "-o", t, src, "-ldl"], so)
    return so


def build_all(flavours=("host", "gpu")):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        out = {f: build(f) for f in flavours}
        prune([*out.values(), build_fs()])
        return out


def prune(keep, limit=1_500_000_000):
    """Bound the cache: drop the oldest files when it grows beyond limit."""
    files = []
    for root, _, names in os.walk(BUILD):
        for n in names:
            p = os.path.join(root, n)
            try:
                st = os.stat(p)
            except OSError:
                continue
            files.append((st.st_mtime, st.st_size, p))
    tot = sum(f[1] for f in files)
    for m, s, p in sorted(files):
        if tot <= limit:
            break
        if p in keep or p.endswith("lock"):
            continue
        os.unlink(p)
        tot -= s


if __name__ == "__main__":
    try:
        for k, v in build_all(sys.argv[1:] or ("host", "gpu")).items():
            print(k, v)
    except BuildError as e:
        print("build failed:", e, file=sys.stderr)
        sys.exit(3)
