"""A process that has batoid loaded on one simulator build and forks a fresh child for every request.

Usage: python -m dst.zygote FLAVOUR SOCKET
Request (pickle): dict(mod, func, args, cpu, wall).  Reply: dict(status, result, err, rusage).
Every child starts from the same state, so its execution is a function of the request alone.
"""
import ctypes, gc, io, os, pickle, resource, select, signal, socket, struct, sys, time, importlib

PR_SET_PDEATHSIG = 1


def pdeath():
    ctypes.CDLL(None).prctl(PR_SET_PDEATHSIG, 9, 0, 0, 0)


def send(s, o):
    b = pickle.dumps(o, protocol=5)
    s.sendall(struct.pack("<Q", len(b)) + b)


def recvn(s, n):
    out = bytearray()
    while len(out) < n:
        b = s.recv(min(1 << 20, n - len(out)))
        if not b:
            raise EOFError
        out += b
    return bytes(out)


def recv(s):
    return pickle.loads(recvn(s, struct.unpack("<Q", recvn(s, 8))[0]))


def call(addr, mod, func, *args, cpu=60, wall=150):
    """Run mod.func(*args) in a fresh child of the zygote at addr."""
    s = socket.socket(socket.AF_UNIX)
    try:
        for i in range(50):
            try:
                s.connect(addr)
                break
            except (BlockingIOError, ConnectionRefusedError):
                time.sleep(0.02 * (i + 1))
        s.settimeout(wall * 2 + 60)
        send(s, dict(mod=mod, func=func, args=args, cpu=cpu, wall=wall))
        return recv(s)
    finally:
        s.close()


def runner(req, fd, efd):
    import random
    os.setpgid(0, 0)
    pdeath()
    resource.setrlimit(resource.RLIMIT_CPU, (req["cpu"], req["cpu"] + 5))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.dup2(efd, 2)
    n = os.open("/dev/null", os.O_RDWR)
    os.dup2(n, 0)
    os.dup2(n, 1)
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)
    try:
        f = getattr(importlib.import_module(req["mod"]), req["func"])
        out = ("ok", f(*req["args"]))
    except BaseException as e:
        import traceback
        out = ("exc", traceback.format_exc()[-4000:])
    try:
        b = pickle.dumps(out, protocol=5)
    except Exception as e:
        b = pickle.dumps(("exc", "unpicklable result: %r" % e))
    with os.fdopen(fd, "wb", closefd=False) as f:
        f.write(b)
    os._exit(0)


def monitor(conn):
    pdeath()
    req = recv(conn)
    fd, efd = os.memfd_create("res"), os.memfd_create("err")
    t0 = time.time()
    pid = os.fork()
    if pid == 0:
        conn.close()
        try:
            runner(req, fd, efd)
        finally:
            os._exit(98)
    pfd = os.pidfd_open(pid)
    r, _, _ = select.select([pfd], [], [], req["wall"])
    timed = not r
    if timed:
        try:
            os.killpg(pid, 9)
        except OSError:
            os.kill(pid, 9)
    _, st, ru = os.wait4(pid, 0)
    try:
        os.killpg(pid, 9)       # whatever the run left behind
    except OSError:
        pass
    rep = dict(rusage=ru.ru_utime + ru.ru_stime, wall=time.time() - t0, timeout=timed, result=None, maxrss=ru.ru_maxrss)
    os.lseek(efd, 0, 0)
    rep["err"] = os.read(efd, 1 << 20).decode(errors="replace")[-3000:]
    if os.WIFSIGNALED(st):
        rep["status"] = -os.WTERMSIG(st)
    else:
        rep["status"] = os.WEXITSTATUS(st)
    if rep["status"] == 0:
        os.lseek(fd, 0, 0)
        with os.fdopen(fd, "rb", closefd=False) as f:
            k, rep["result"] = pickle.loads(f.read())
        if k == "exc":
            rep["status"], rep["err"], rep["result"] = "exc", rep["result"], None
    send(conn, rep)
    os._exit(0)


ENV = {}        # addresses of the zygotes of this session, by name; set by the orchestrator through $DST_ZYGOTES
BATOID = RT = None


def zyg(name):
    import json
    return json.loads(os.environ["DST_ZYGOTES"])[name]


def main(flavour, path):
    global BATOID, RT
    import __main__
    sys.modules["dst.zygote"] = __main__ if __name__ == "__main__" else sys.modules[__name__]
    pdeath()
    from . import simload, world as W
    BATOID, RT = simload.load(flavour)
    W.init(BATOID)
    import galsim, yaml, scipy.spatial, scipy.linalg, numpy as np   # noqa
    from . import ops, harness  # noqa
    import glob
    d = os.path.dirname(os.path.abspath(__file__)) + "/checks"
    for f in sorted(glob.glob(d + "/c*.py")):
        importlib.import_module("dst.checks." + os.path.basename(f)[:-3])
    for n in W.YAMLS:
        try:
            W.config(n)
        except Exception:
            pass
    gc.collect()
    gc.freeze()
    gc.disable()
    s = socket.socket(socket.AF_UNIX)
    s.bind(path)
    s.listen(256)
    signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    print("READY", flush=True)
    while True:
        try:
            c, _ = s.accept()
        except InterruptedError:
            continue
        if os.fork() == 0:
            signal.signal(signal.SIGCHLD, signal.SIG_DFL)
            s.close()
            try:
                monitor(c)
            except (EOFError, BrokenPipeError, ConnectionResetError):
                pass
            finally:
                os._exit(0)
        c.close()


if __name__ == "__main__":
    main(*sys.argv[1:])
