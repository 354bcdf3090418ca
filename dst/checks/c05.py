"""C05: several caller threads using batoid at once get the answers each would get alone."""
import collections, gc, os, random, sys, threading, types
import numpy as np
from .. import world as W, ops as O, hist as H, zygote as Z
from ..harness import Violation, mix, threads

ID = "C05"
ZYGOTES = {"host": dict(flavour="host")}
SEEDS = {"quick": 2800, "thorough": 30000}
LIMITS = (60, 150)
SHRINK = ("tasks",)
SCRIPTED = True
RULE = ("a case is one caller thread's step whose execution was interleaved with other threads' and whose observation was compared with the same thread running alone; "
        "non-trivial when at least one context switch fell inside the step; distinct by (step, steps of other threads it overlapped)")
MEASURE = "hashes of the sequence of (thread, source function) at context switches"
REAL = ["batoid Python package", "batoid C++ (instrumented build)", "numpy", "galsim", "CPython threads (real, released one at a time)"]
STUB = ["thread scheduling (a seeded scheduler passes the right to run at trace events inside batoid)", "signal delivery", "OpenMP runtime (simulated, one worker)"]


class Interrupt(KeyboardInterrupt):
    pass


class Sched:
    """Exactly one caller thread runs at a time; at every trace event inside batoid the scheduler may pass the turn."""

    def __init__(self, B, n, spec, faults):
        self.dir = os.path.dirname(os.path.realpath(B.__file__)) + os.sep
        self.n, self.spec = n, spec
        self.r = random.Random(spec["seed"])
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.cur = 0
        self.ev = 0                     # events so far, all threads
        self.tev = [0] * n
        self.switches = []              # (event, from, to, place)
        self.inside = [0] * n           # switches that fell inside the current step
        self.prio = list(range(n))
        self.r.shuffle(self.prio)
        self.low = -1
        self.change = {self.r.randrange(spec.get("horizon", 4000)) for _ in range(spec.get("depth", 3))}
        self.seen = set()
        self.faults = faults            # {thread: {event of that thread: action}}
        self.fired = collections.Counter()
        self.finished = threading.Semaphore(0)
        self.script = None              # {event: thread to pass the turn to}
        self.stolen = 0
        self.tid = threading.local()
        self.mine_ = {}

    def mine(self, f):
        m = self.mine_.get(f)
        if m is None:
            m = self.mine_[f] = os.path.realpath(f).startswith(self.dir)
        return m

    def choose(self, me, code, line):
        live = [t for t in range(self.n) if not self.done[t]]
        if self.script is not None:
            to = self.script.get(self.ev, me)
            return to if to in live else me
        s = self.spec["kind"]
        if s == "random":
            return self.r.choice(live) if self.r.random() < self.spec["p"] else me
        if s == "rr":
            if self.ev % self.spec["quantum"] == 0:
                return min([t for t in live if t > me] or live)
            return me
        if s == "novel":                # a place this thread has not been at before
            k = (me, code, line)
            if k in self.seen:
                return me
            self.seen.add(k)
            return self.r.choice(live)
        if self.ev in self.change:      # pct: priorities that drop at a few random points
            self.prio[me] = self.low
            self.low -= 1
        return max(live, key=lambda t: self.prio[t])

    def point(self, me, code, where):
        if self.cur != me:              # came back from waiting for a lock of the code under test
            self.wait(me)
        k = self.tev[me]
        self.tev[me] += 1
        to = self.choose(me, code, where)
        self.ev += 1
        if to != me:
            self.switches.append((self.ev - 1, me, to, (code.co_name, where)))
            self.inside[me] += 1
            self.cur = to
            self.sem[to].release()
            self.wait(me)
        a = self.faults.get(me, {}).get(k)
        if a:
            self.fired[me] += 1
            a()

    def wait(self, me):
        """Until it is my turn; a holder that makes no progress for a second is blocked and loses the turn."""
        last = None
        while True:
            if self.sem[me].acquire(timeout=1.0 + .1 * me):
                if self.cur == me:
                    return
                continue
            now = (self.ev, self.cur)
            if now == last and not self.done[self.cur]:
                self.stolen += 1
                self.cur = me
                return
            last = now

    def body(self, me, f):
        self.tid.n = me
        self.wait(me)
        try:
            f()
        finally:
            self.tid.n = None
            self.done[me] = True
            live = [t for t in range(self.n) if not self.done[t]]
            if live:
                to = live[mix(self.spec["seed"], me, self.ev) % len(live)]
                self.cur = to
                self.sem[to].release()
            else:
                self.finished.release()

    def run(self, fs):
        M = sys.monitoring
        M.use_tool_id(4, "dst")
        E = M.events.INSTRUCTION if self.spec["opcodes"] else M.events.LINE

        def cb(code, where):
            me = getattr(self.tid, "n", None)
            if me is not None:
                self.point(me, code, where)
        M.register_callback(4, E, cb)
        # instrumented once, before any thread runs: CPython crashes when code is re-instrumented under a running thread
        for c in self.codes():
            M.set_local_events(4, c, E)
        ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fs)]
        for t in ts:
            t.start()
        self.cur = mix(self.spec["seed"], "first") % self.n
        self.sem[self.cur].release()
        self.finished.acquire()
        for t in ts:
            t.join()
        for c in self.codes():
            M.set_local_events(4, c, 0)
        M.register_callback(4, E, None)
        M.free_tool_id(4)

    def codes(self):
        out, todo, seen = set(), [], set()
        objs = [m for n, m in list(sys.modules.items()) if n.split(".")[0] == "batoid"]
        while objs:
            o = objs.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, types.ModuleType) and self.mine(getattr(o, '__file__', None) or '/') or isinstance(o, type) and o.__module__.split(".")[0] == "batoid":
                objs += list(vars(o).values())
            for n in ("fget", "fset", "func", "__func__", "__wrapped__"):
                if getattr(o, n, None) is not None and not isinstance(o, types.ModuleType):
                    objs.append(getattr(o, n))
            if isinstance(o, types.FunctionType):
                todo.append(o.__code__)
        while todo:
            c = todo.pop()
            if self.mine(c.co_filename) and id(c) not in out:
                out.add(id(c))
                yield c
                todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]


class Gen(H.HistGen):
    pass


SHARED_Q = ("q0", "q1")


def plan(seed, tier):
    g = Gen(seed)
    r = g.r
    ws = g.world(small=True)
    ws += [["q0", g.raydict(6)], ["q1", g.raydict(3, cs=False, z=1.0, slope=.05)]]
    n = r.choice([2, 2, 3, 4])
    tasks = []
    same = r.random() < .35
    rival = None if r.random() < .6 else g.analysis() if r.random() < .5 else g.query(ws, analyses=0, derive=.2)
    if rival and r.random() < .2:
        rival = g.pick(["traceSplit", "lens", "q1", .05, False], ["partTrace", "lens", r.randrange(50), "q1", g.pick("rSplit", "rSplit", "interact", "trace"), False],
                       ["trace", g.pick("lens", "tel"), g.pick("q0", "q1"), False], ["traceFull", g.pick("lens", "tel"), g.pick("q0", "q1"), False])
    for t in range(n):
        m = r.choice([1, 2, 3, 5])
        st = []
        if same and tasks:
            st = [s for s in tasks[0]["steps"]]
        if rival:       # every thread at the same thing, with arguments of its own
            m = r.choice([1, 1, 2])
            st = [["?", g.rival(ws, rival)] for _ in range(m)]
        while len(st) < m:
            x = r.random()
            if x < .4:
                o = g.query(ws, analyses=.25, derive=.25)
                st.append(["?", o])
            elif x < .55:
                st.append(["?", g.pick(["lookup", "tel", r.randrange(50)], ["trace", "lens", "q1", False], ["fields", "q0"], ["phase", "q0", [0, 0, 1.], .1], ["traceFull", "lens", "q1"],
                                       ["reprs", "q0"], ["derive", "tel", "withLocallyShiftedOptic", r.randrange(50), [1e-4, 0, 0], None], ["eqhash", "tel"], ["latcoords", "lat"],
                                       ["partTrace", "tel", r.randrange(50), "q0", "trace", False], ["index", "q0", r.randrange(50)], ["roundtrip", "tel"], ["concat", "q0", "q0"], ["rveq", "q0", "q1"])])
            else:
                st += [s for s in g.history(ws, 1, write=.05, objects=0, inplace=.5, derived=.2, query=.3)[0]]
        tasks.append(dict(steps=st, fault=[g.pick("ki", "gc"), round(r.random(), 6)] if r.random() < .15 else None))
    kind = g.pick("random", "random", "random", "rr", "novel", "pct", "pct")
    return dict(world=ws, tasks=tasks, cold=r.random() < .7, elsewhere=r.random() < .4,
                sched=dict(kind=kind, seed=r.randrange(1 << 40), p=g.pick(.01, .1, .5, 1.0), quantum=g.pick(1, 2, 7, 40), depth=g.pick(1, 2, 3, 6), horizon=g.pick(200, 2000, 8000),
                           opcodes=r.random() < .35))


def view(specs, shared):
    """A thread's world: shared models, private bundles."""
    w = O.World()
    w.o = collections.ChainMap({}, shared)
    for n, s in specs:
        if n.startswith("r"):
            w.add(n, s)
    w.names = {n for n, _ in specs}
    return w


def make(ws):
    return O.World([(n, s) for n, s in ws if not n.startswith("r")]).o


def alone(plan):
    """What each thread sees when it runs by itself."""
    Z.RT.serial()
    threads(1)
    gc.disable()
    refs = []
    with np.errstate(all="ignore"):
        twin = make(plan["world"])
        for t in plan["tasks"]:
            w = view(plan["world"], twin)
            refs.append([H.step(w, s) for s in t["steps"]])
    return refs


def run(plan, rec, B, rt):
    ws = plan["world"]
    rec.sample = dict(tasks=plan["tasks"][:1], sched=plan["sched"])
    tasks = plan["tasks"]
    if plan.get("elsewhere"):       # in another process, so that here everything happens for the first time
        rep = Z.call(Z.zyg("host"), __name__, "alone", plan)
        if rep["status"] != 0:
            raise RuntimeError(f"reference failed: {rep['status']} {rep['err']}")
        refs = rep["result"]
    else:
        refs = alone(plan)
    rt.serial()
    threads(1)
    gc.disable()
    with np.errstate(all="ignore"):
        shared = make(ws)
        if not plan["cold"]:
            for n in ("tel", "lens"):
                W.canon(shared[n].itemDict)
        before = {n: W.digest(W.canon(o)) for n, o in shared.items()}
        views = [view(ws, shared) for _ in tasks]
    got = [[] for _ in tasks]
    inside = [[] for _ in tasks]
    now = [None] * len(tasks)
    overlap = [[] for _ in tasks]
    faults = {}
    for i, t in enumerate(tasks):
        if t["fault"]:
            k = int(t["fault"][1] * 600)
            if t["fault"][0] == "ki":
                def boom():
                    raise Interrupt("injected")
                faults[i] = {k: boom}
            else:
                faults[i] = {k: gc.collect}
    s = Sched(B, len(tasks), plan["sched"], faults)
    if plan.get("script") is not None and plan["sched"].get("strategy") == "script":
        s.script = {e[0]: e[1] for e in plan["script"]}

    def body(i):
        def f():
            for st in tasks[i]["steps"]:
                now[i] = st
                s.inside[i] = 0
                overlap[i].append([now[j] for j in range(len(tasks)) if j != i and not s.done[j]])
                try:
                    x = H.step(views[i], st)
                except KeyboardInterrupt:
                    got[i].append("interrupted")
                    return
                except BaseException as e:
                    x = W.canon(e)
                got[i].append(x)
                inside[i].append(s.inside[i])
        return f
    s.run([body(i) for i in range(len(tasks))])
    rec.steps += s.ev
    if plan.get("record"):
        rec.script += [[e, to, fr, list(pl), 0] for e, fr, to, pl in s.switches]
    rec.stats["context switches"] += len(s.switches)
    rec.stats["turns taken from a blocked thread"] += s.stolen
    rec.faults["context switch"] += len(s.switches)
    for i in s.fired:
        rec.faults[{"ki": "interrupt in one thread", "gc": "garbage collection"}[tasks[i]["fault"][0]]] += 1
    h = mix(*[(a, b, p) for _, a, b, p in s.switches])
    if s.switches:
        rec.state(h)
    rec.see(h, s.ev)
    what = f"{len(tasks)} threads, {plan['sched']['kind']} schedule, {len(s.switches)} switches"
    for i, t in enumerate(tasks):
        for j, x in enumerate(got[i]):
            if x == "interrupted":
                break
            st = t["steps"][j]
            rec.evals += 1
            rec.ops[st[0] + (st[1][0] if st[0] in "?!" else "")] += 1
            o = st[1] if st[0] in "?!" else st
            d = O.diff_op(o, refs[i][j], x) if st[0] == "?" else W.diff(refs[i][j], x)
            if d:
                raise Violation(f"{what}: thread {i} step {j} {st} differs from running alone: {d}", f"differs {o[0] if isinstance(o[0], str) else st[0]}")
            if j < len(inside[i]) and inside[i][j]:
                rec.case(st, overlap[i][j])
    for n, o in shared.items():
        if W.digest(W.canon(o)) != before[n]:
            raise Violation(f"{what}: shared {n} changed", f"shared {n[0]} changed")
    rec.see([W.digest(x) if x is not None else None for g_ in got for x in g_])
    gc.enable()


def simplify(plan):
    for i, t in enumerate(plan["tasks"]):
        for j in range(len(t["steps"])):
            if len(t["steps"]) > 1:
                yield dict(plan, tasks=plan["tasks"][:i] + [dict(t, steps=t["steps"][:j] + t["steps"][j + 1:])] + plan["tasks"][i + 1:])
    if plan["sched"]["opcodes"]:
        yield dict(plan, sched=dict(plan["sched"], opcodes=False))
    if any(t["fault"] for t in plan["tasks"]):
        yield dict(plan, tasks=[dict(t, fault=None) for t in plan["tasks"]])
