"""C04: the accelerator build and the CPU build never disagree, for any history of operations and host reads."""
import numpy as np
from .. import world as W, ops as O, hist as H, zygote as Z
from ..harness import Violation, mix, threads
from . import c01

ID = "C04"
ZYGOTES = {"gpu": dict(flavour="gpu"), "host": dict(flavour="host")}
SEEDS = {"quick": 2400, "thorough": 60000}
LIMITS = (60, 150)
SHRINK = ("hist",)
RULE = ("a case is one observation (host read, query result, final state) of a history executed on the simulated accelerator, compared with the CPU build's; non-trivial when "
        "kernels ran and data moved between host and device since the previous observation; distinct by (history prefix, observation)")
MEASURE = "hashes of (kernels, transfers in, transfers out, live mappings) after every step of a history"
REAL = ["batoid Python package", "batoid C++ compiled with BATOID_GPU", "numpy"]
STUB = ["accelerator and offload runtime (libgomp target calls): separate simulated memory, transfers, teams executed in a seeded order",
        "OpenMP runtime (simulated)"]
ASSUME = ["the simulated device copies exactly what the map/update clauses ask for; device memory starts as seeded garbage and is scrambled when freed",
          "host addresses that are mapped, and host heap objects, are off limits to device code (a discrete accelerator)"]


def plan(seed, tier):
    g = H.HistGen(seed)
    r = g.r
    ws = c01.bundles(g, g.world(nrv=2, small=True), [1, 2, 3, 5, 8, 13], large=True)
    h, rvs = g.history(ws, r.choice([8, 15, 30, 30]), objects=g.pick(.05, .15, .3))
    if r.random() < .15:
        h.append(["?", g.analysis()])
    return dict(world=ws, hist=h, rvs=rvs, sched=dict(seed=r.randrange(1 << 60), strategy=g.pick("serial", "perm", "random", "pct"), teams=g.pick(1, 2, 3, 5), gap=g.pick(20, 300)))


def perform(plan, note=None):
    w = O.World()
    w.names = {n for n, _ in plan["world"]} | set(plan["rvs"])
    out = []
    for n, s in plan["world"]:
        w.add(n, s)
    for i, s in enumerate(plan["hist"]):
        out.append(H.step(w, s))
        if note:
            note(i, s)
    for n in plan["rvs"]:
        out.append(W.canon(w[n]) if n in w.o else None)
        if note:
            note(len(out), ["final", n])
    return out


def remote(plan):
    Z.RT.serial()
    threads(1)
    return perform(plan)


def run(plan, rec, B, rt):
    sc = plan["sched"]
    rec.sample = dict(hist=plan["hist"][:4])
    threads(1)
    rt.track(1)
    rt.config(seed=sc["seed"], strategy=dict(c01.STRATS, serial=0)[sc["strategy"]], grant=1, gap=sc["gap"], race=1, memchk=2, cap=4, teams=sc["teams"])
    rt.reset_stats()
    states = []

    def note(i, s):
        st = rt.stats()
        states.append((st["tgt_kernels"], st["tgt_h2d"], st["tgt_d2h"], st["tgt_maps"]))
        v = rt.viols()
        if v:
            from ..simload import VIOL_KINDS
            raise Violation(f"step {i} {s}: " + "; ".join(f"{VIOL_KINDS.get(q.kind, q.kind)} at {rt.where(q.pc)}" for q in v[:3]), f"device memory {v[0].kind}")
        if st["races"]:
            raise Violation(f"step {i} {s}: device threads race: {c01.race_text(rt)}", "device race")
    got = perform(plan, note)
    rt.serial()
    rep = Z.call(Z.zyg("host"), __name__, "remote", plan)
    if rep["status"] != 0:
        raise RuntimeError(f"CPU reference failed: {rep['status']} {rep['err']}")
    want = rep["result"]
    st = rt.stats()
    rec.steps += st["steps"]
    for a, b in (("tgt_kernels", "kernels"), ("tgt_h2d", "transfers to device"), ("tgt_d2h", "transfers to host"), ("tgt_maps", "mappings"), ("teams", "teams"), ("switches", "switches")):
        rec.stats[b] += st[a]
    steps = plan["hist"] + [["final", n] for n in plan["rvs"]]
    last = None
    for i, (s, e, c) in enumerate(zip(steps, want, got)):
        rec.ops[s[0] + (":" + s[1][0] if s[0] in "!?" else "")] += 1
        if s[0] == "new":
            rec.faults["object dropped and recreated"] += 1
        if s[0] == "write":
            rec.faults["host write"] += 1
        rec.state(states[i])
        if e is None and c is None:
            continue
        rec.evals += 1
        rec.see(i, W.digest(c))
        if s[0] == "?":
            d = O.diff_op(s[1], e, c)
            if d and s[1][0] == "sumAmplitude":
                d = W.diff(e, c, rtol=1e-6, atol=1e-9)
        else:
            d = W.diff(e, c)
        if d:
            raise Violation(f"step {i} {s}: CPU vs accelerator: {d}", f"differs {s[0]} {s[1][0] if s[0] == '?' else ''}")
        if states[i] != last and states[i][0]:
            rec.case(plan["hist"][:i + 1])
            last = states[i]
    rec.faults["device teams reordered"] += st["teams"]


def simplify(plan):
    used = c01.names_in(plan["hist"], set()) | {"gcs"}
    rvs = [n for n in plan["rvs"] if n in used]
    if len(rvs) < len(plan["rvs"]):
        yield dict(plan, rvs=rvs)
    for i in range(len(plan["rvs"])):
        yield dict(plan, rvs=plan["rvs"][:i] + plan["rvs"][i + 1:])
    for n, s in plan["world"]:
        if n in used and s[0] not in ("rays",):
            c01.names_in(s, used)
    w = [x for x in plan["world"] if x[0] in used | set(plan["rvs"])]
    if len(w) < len(plan["world"]):
        yield dict(plan, world=w)
