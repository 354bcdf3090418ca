"""Loads /repo's batoid package with its extension replaced by the simulator build."""
import ctypes, importlib.abc, importlib.machinery, importlib.util, os, sys, types
from . import build as _build

REPO = _build.REPO
SERIAL, RANDOM, PCT, RR, PERM, SCRIPT = range(6)


class Cfg(ctypes.Structure):
    _fields_ = [("seed", ctypes.c_uint64)] + [(n, ctypes.c_int32) for n in (
        "strategy", "grant", "gap", "race", "memchk", "hidden_cap", "maxsteps", "teams")]


STAT_NAMES = ("regions parallel_regions requested granted reduced_grants steps switches races poison "
              "max_requested max_granted barriers atomics locks stalls sched_hash deadlocks tgt_kernels "
              "tgt_maps tgt_h2d tgt_d2h tgt_bytes tgt_viol teams team_hash new_calls new_fail nested "
              "dyn_chunks guard_inits").split()


class Stats(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in STAT_NAMES]


class Ev(ctypes.Structure):
    _fields_ = [("region", ctypes.c_uint32), ("to", ctypes.c_uint32), ("step", ctypes.c_uint64), ("kind", ctypes.c_uint64)]


class Race(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ("pc1", "pc2", "addr")] + [(n, ctypes.c_uint32) for n in (
        "tid1", "tid2", "w1", "w2", "region", "size")]


class Viol(ctypes.Structure):
    _fields_ = [(n, ctypes.c_uint64) for n in ("kind", "pc", "addr", "size", "info")]


VIOL_KINDS = {11: "access to freed memory", 12: "access outside an allocation",
              20: "device code touched host memory of a mapped array", 21: "device code touched a host object",
              22: "host code touched device memory", 30: "mapping extends beyond an existing mapping",
              31: "mapping overlaps an existing mapping"}


class Runtime:
    """The simulated runtime linked into one extension module."""

    def __init__(self, so):
        self.so = so
        L = self.lib = ctypes.PyDLL(so) if False else ctypes.CDLL(so)
        L.dst_sizes.restype = ctypes.c_uint64
        for f in ("dst_log", "dst_races", "dst_viols"):
            getattr(L, f).restype = ctypes.c_uint64
            getattr(L, f).argtypes = [ctypes.c_void_p, ctypes.c_uint64]
        L.dst_script.argtypes = [ctypes.c_void_p, ctypes.c_uint64]
        L.dst_mem.argtypes = [ctypes.c_int, ctypes.c_uint32] + [ctypes.c_int] * 4
        L.dst_new_fail.argtypes = [ctypes.c_long]
        L.dst_new_count.restype = L.dst_np_count.restype = L.dst_np_failed.restype = ctypes.c_long
        L.dst_np_fail.argtypes = [ctypes.c_long]
        L.dst_np_handler.restype = ctypes.c_void_p
        L.dst_base.restype = ctypes.c_uint64
        for i, t in enumerate((Cfg, Stats, Ev, Race, Viol)):
            assert L.dst_sizes(i) == ctypes.sizeof(t), (i, t)
        self.serial()

    def config(self, seed=0, strategy=SERIAL, grant=0, gap=50, race=0, memchk=0, cap=8, teams=2, log=False):
        c = Cfg(seed & (2**64 - 1), strategy, grant, gap, race, memchk, cap, 0, teams)
        self.lib.dst_config(ctypes.byref(c))
        self.lib.dst_logging(1 if log else 0)

    def serial(self):
        self.config()

    def stats(self):
        s = Stats()
        self.lib.dst_stats(ctypes.byref(s))
        return {n: getattr(s, n) for n in STAT_NAMES}

    def reset_stats(self):
        self.lib.dst_reset_stats()

    def _arr(self, fn, T):
        n = fn(None, 0)
        a = (T * n)()
        if n:
            fn(ctypes.byref(a), n)
        return a

    def log(self):
        return [(e.region, e.to, e.step, e.kind) for e in self._arr(self.lib.dst_log, Ev)]

    def races(self):
        return list(self._arr(self.lib.dst_races, Race))

    def viols(self):
        return list(self._arr(self.lib.dst_viols, Viol))

    def script(self, evs):
        a = (Ev * max(1, len(evs)))(*[Ev(*e) for e in evs])
        self.lib.dst_script(ctypes.byref(a), len(evs))

    def mem(self, enabled=1, fill_seed=0, fill=0, guard=0, quarantine=0, freepoison=0):
        self.lib.dst_mem(enabled, fill_seed & 0xffffffff, fill, guard, quarantine, freepoison)

    def live(self):
        """Blocks and bytes allocated at present by batoid's C++ and numpy (while mem() is on); blocks of device memory; mappings."""
        a = (ctypes.c_uint64 * 4)()
        self.lib.dst_live(a)
        return tuple(a)

    def new_fail(self, at):
        self.lib.dst_new_fail(at)

    def new_count(self):
        return self.lib.dst_new_count()

    def np_fail(self, at):
        """Make the at-th array allocation from now on fail (-1: none)."""
        self.lib.dst_np_fail(at)

    def np_allocator(self):
        """Route numpy's array memory through the simulated allocator (NEP 49), in this thread."""
        import numpy as np
        api = np._core._multiarray_umath._ARRAY_API
        py = ctypes.pythonapi
        py.PyCapsule_GetPointer.restype = ctypes.c_void_p
        py.PyCapsule_GetPointer.argtypes = [ctypes.py_object, ctypes.c_char_p]
        tab = ctypes.cast(py.PyCapsule_GetPointer(api, None), ctypes.POINTER(ctypes.c_void_p))
        py.PyCapsule_New.restype = ctypes.py_object
        py.PyCapsule_New.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
        cap = py.PyCapsule_New(self.lib.dst_np_handler(), b"mem_handler", None)
        set_ = ctypes.PYFUNCTYPE(ctypes.py_object, ctypes.py_object)(tab[304])
        old = set_(cap)
        assert np._core.multiarray.get_handler_name() == "dst_sim_allocator"
        return old

    def track(self, on):
        self.lib.dst_track(on)

    def where(self, pc):
        """Source position of a code address (best effort, for reports only)."""
        import subprocess
        try:
            out = subprocess.run(["addr2line", "-C", "-f", "-s", "-e", self.so, hex((pc - 1 + self._vbase()) & (2**64 - 1))],
                                 stdout=subprocess.PIPE, text=True, timeout=20).stdout.split("\n")
            return f"{out[0]} {out[1]}"
        except Exception:
            return hex(pc)

    def _vbase(self):
        if not hasattr(self, "_vb"):
            import subprocess
            self._vb = 0
            try:
                for l in subprocess.run(["nm", self.so], stdout=subprocess.PIPE, text=True, timeout=20).stdout.splitlines():
                    p = l.split()
                    if p[-1] == "__dso_handle":
                        self._vb = int(p[0], 16)
            except Exception:
                pass
        return self._vb


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, so):
        self.so = so

    def find_spec(self, name, path=None, target=None):
        if name == "batoid._batoid":
            loader = importlib.machinery.ExtensionFileLoader(name, self.so)
            return importlib.util.spec_from_file_location(name, self.so, loader=loader)
        if name == "batoid._version" and not os.path.exists(REPO + "/batoid/_version.py"):
            return importlib.machinery.ModuleSpec(name, _VersionLoader())
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, m):
        m.__version__ = m.version = "0.7.0"
        m.__version_tuple__ = m.version_tuple = (0, 7, 0)


def load(flavour="host", so=None):
    """Import batoid from /repo on top of the simulator build; returns (batoid, Runtime)."""
    if "batoid" in sys.modules:
        raise RuntimeError("batoid is already loaded")
    if so is None:
        so = os.environ.get("DST_SO_" + flavour.upper()) or _build.build_all((flavour,))[flavour]
    sys.dont_write_bytecode = True
    rt = Runtime(so)
    sys.meta_path.insert(0, _Finder(so))
    sys.path.insert(0, REPO)
    import batoid
    assert os.path.realpath(batoid.__file__).startswith(os.path.realpath(REPO)), batoid.__file__
    assert os.path.realpath(batoid._batoid.__file__) == os.path.realpath(so)
    return batoid, rt
