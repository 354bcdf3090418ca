"""Plans, runs, verdicts: what every check shares."""
import hashlib, json, os, pickle, struct
from collections import Counter
from . import world as W


def mix(*a):
    """A 63-bit seed from any values."""
    return int.from_bytes(hashlib.sha256(repr(a).encode()).digest()[:8], "little") >> 1


class Violation(Exception):
    """The property is broken: what, and a signature that identifies the failure."""

    def __init__(self, what, sig=None):
        super().__init__(what)
        self.what, self.sig = what, sig or what


class Rec:
    """What one run covered."""

    def __init__(self):
        self.evals = 0
        self.keys = set()           # distinct non-trivial cases, by the check's rule
        self.faults = Counter()
        self.ops = Counter()
        self.states = set()         # distinct interleavings/states by the check's measure
        self.steps = 0
        self.stats = Counter()
        self.sample = None
        self.script = []
        self.h = hashlib.sha256()   # digest of everything observed: the identity of the execution
        self.violation = None
        self.finds = {}             # {signature: what}: failures that the findings file may list; anything else is a violation

    def see(self, *x):
        self.h.update(repr(x).encode())

    def case(self, *x):
        self.keys.add(hashlib.md5(repr(x).encode()).hexdigest()[:16])

    def state(self, *x):
        self.states.add(hashlib.md5(repr(x).encode()).hexdigest()[:16])

    def find(self, sig, what):
        self.finds.setdefault(sig, what)
        self.see("F", sig)

    def out(self):
        return dict(evals=self.evals, keys=self.keys, faults=dict(self.faults), ops=dict(self.ops), states=self.states,
                    steps=self.steps, stats=dict(self.stats), sample=self.sample, script=self.script, digest=self.h.hexdigest(), violation=self.violation, finds=self.finds)


def execute(mod, plan):
    """Entry point in a zygote child: run a plan of check module mod; returns Rec.out()."""
    import importlib
    from . import zygote as Z
    m = importlib.import_module(mod)
    rec = Rec()
    rec.sample = None
    try:
        m.run(plan, rec, Z.BATOID, Z.RT)
    except Violation as v:
        rec.violation = dict(what=v.what, sig=v.sig)
        rec.see("V", v.sig)
    return rec.out()


def threads(n):
    """Set the configured limit."""
    W.B.global_vars._batoid_max_threads = n


def tb_where(e):
    import traceback
    t = traceback.extract_tb(e.__traceback__)
    return f"{os.path.basename(t[-1].filename)}:{t[-1].name}" if t else "?"
