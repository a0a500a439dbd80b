"""Nothing is held any more once the results of calls are dropped."""
import array
import copy
import ctypes
import gc
import os
import sys
import threading

from .. import core, jobs
from . import c07, c10

LEVEL = "exploration"
RUNS = (400, 10000)
RULE = ("Each run makes a random sequence of propagations and backpropagations (completed, abandoned, retained, second "
        "derivatives, with failing storage, failing callbacks, exceptions at arbitrary lines, lost files, invalid "
        "arguments, in other threads), drops their results, and repeats the sequence; after a few repetitions each further one must "
        "leave the process with as many open files, blocks of the compiled code, tensors, threads, temporary files and "
        "bytes of heap as the one before.")
KINDS = ["full", "full", "abandon", "retain", "double", "cbF", "cbB", "line", "line", "io", "io", "io", "damage", "badargs", "thread",
         "nested", "keep", "grads"]
WARM, MEAS, MORE = 2, 3, 150


class Boom(Exception):
    pass


def gen(rng, tier):
    steps = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        k = rng.choice(KINDS)
        j = jobs.gen_job(rng, double=False, prop="scalar" if k == "double" else None, max_shots=5, small=True, long_ok=False)
        r = rng.random()
        if k == "io" or k == "damage" or r < 0.45:
            j["store"] = {"mode": "disk", "compress": rng.random() < 0.4}
        elif r < 0.6:
            j["store"] = {"mode": "device", "compress": True}
        elif r < 0.66:
            j["store"] = {"mode": "none", "compress": False}
        elif r < 0.7 and j["dtype"] == "double" and k in ("full", "abandon", "cbF", "grads"):
            j["backend"] = "eager"
            j["nt"] = min(j["nt"], 4)
            j["interval"] = 1
        if k not in ("abandon", "badargs") and not any(j["rg"]["models"]):
            j["rg"]["models"][0] = True
        s = {"kind": k, "job": j, "frac": rng.random(), "sched": core.gen_sched(rng, 6)}
        if k == "io":
            ph = rng.choice("FB")
            s["rules"] = [c07.gen_rule(rng, ph) for _ in range(rng.choice([1, 1, 2]))]
            s["phase"] = ph
        if k == "damage":
            s["damage"] = rng.choice(c07.DAMAGE)
        steps.append(s)
    return {"steps": steps, "useed": rng.getrandbits(20), "vary": rng.random() < 0.5}


class Mallinfo2(ctypes.Structure):
    _fields_ = [(n, ctypes.c_size_t) for n in
                "arena ordblks smblks hblks hblkhd usmblks fsmblks uordblks fordblks keepcost".split()]


def heap(libc=[]):
    if not libc:
        libc.append(ctypes.CDLL(None))
        libc[0].mallinfo2.restype = Mallinfo2
    m = libc[0].mallinfo2()
    return m.uordblks + m.hblkhd


NAMES = ["open files", "blocks of the compiled code", "tensors", "bytes of tensors", "objects of the package", "threads",
         "temporary files", "bytes of heap", "blocks of Python"]
LEAST = {"bytes of heap": 256, "blocks of Python": 200}  # growth that the harness itself may cause


def measure(sim, st, out):
    torch = sim.torch
    h = heap()
    ts = nb = own = 0
    for o in gc.get_objects():
        t = type(o)
        if t.__module__.startswith("deepwave"):
            own += 1
        if issubclass(t, torch.Tensor):
            ts += 1
            nb += o.numel() * o.element_size()
    fds = len(os.listdir("/proc/self/fd"))
    tmp = sum(len(d) + len(f) for _, d, f in os.walk(st))
    gc.collect()
    blocks = sys.getallocatedblocks()
    for i, v in enumerate((fds, sim.stat(11), ts, nb, own, threading.active_count(), tmp, h, blocks)):
        out[i] = v


def step(s, sim, st, ops):
    """One call; everything it creates is dropped on return."""
    torch = sim.torch
    k = s["kind"]
    j = copy.deepcopy(s["job"])
    j["store"]["path"] = st

    def bwd(outs, T, **kw):
        lv = jobs.leaves(T)
        l = jobs.loss(j, outs)
        if lv and isinstance(l, torch.Tensor) and l.requires_grad:
            return torch.autograd.grad(l, list(lv.values()), allow_unused=True, **kw)
        return None

    def full(**over):
        T = jobs.build(j)
        return bwd(jobs.call(j, T, **over), T)

    if k == "full":
        full()
    elif k == "grads":
        T = jobs.build(j)
        l = jobs.loss(j, jobs.call(j, T))
        if isinstance(l, torch.Tensor) and l.requires_grad:
            l.backward()
    elif k == "thread":
        t = threading.Thread(target=full)
        t.start()
        t.join()
    elif k == "abandon":
        jobs.call(j, jobs.build(j))
    elif k in ("retain", "keep"):
        T = jobs.build(j)
        outs = jobs.call(j, T)
        for i in range(1 + int(3 * s["frac"])):
            bwd(outs, T, retain_graph=True)
        if k == "keep":
            bwd(outs, T)
    elif k == "double":
        T = jobs.build(j)
        g = bwd(jobs.call(j, T), T, create_graph=True)
        if g is not None and s["frac"] < 0.8:
            use = [x for x in g if x is not None and x.requires_grad]
            if use:
                bwd(use, T)
    elif k == "badargs":
        T = jobs.build(j)
        try:
            jobs.call(j, T, **[{"callback_frequency": 0}, {"accuracy": 5}, {"pml_width": -1}, {"storage_mode": "nowhere"},
                               {"callback_frequency": "x"}][int(5 * s["frac"])])
        except Exception:  # noqa: BLE001
            pass
    elif k == "nested":
        jb = copy.deepcopy(j)

        def cb(state):
            with torch.enable_grad():
                full()
        jobs.call(jb, jobs.build(jb), forward_callback=cb, callback_frequency=max(1, int(s["frac"] * j["nt"])))
    elif k in ("cbF", "cbB"):
        n = [0]

        def boom(state):
            n[0] += 1
            if n[0] > s["frac"] * j["nt"] / 2:
                raise Boom
        try:
            full(**{"forward_callback" if k == "cbF" else "backward_callback": boom})
        except Boom:
            sim.probe("callback raised")
    elif k == "line":
        with c10.Lines(sim, ops, Boom if s["frac"] < 0.7 else MemoryError) as ln:
            try:
                full()
            except (Boom, MemoryError):
                sim.probe("exception at a line")
        if ln.near_mkdir:
            raise core.Skip("struck between creating a directory and taking charge of it")
        if sys.exc_info()[0] is not None:
            # CPython 3.12 keeps the handled exception when a trace function
            # raises within a comprehension in an except block
            raise core.Skip("interpreter keeps the exception")
        return ln.n
    elif k == "io":
        T = jobs.build(j)
        try:
            if s["phase"] == "F":
                sim.rules(ops)
            outs = jobs.call(j, T)
            if s["phase"] == "B":
                sim.rules(ops)
            bwd(outs, T)
        except RuntimeError:
            sim.probe("storage failed")
        finally:
            sim.rules([])
    elif k == "damage":
        T = jobs.build(j)
        outs = jobs.call(j, T)
        n = c07.damage({"damage": s["damage"], "dshot": int(s["frac"] * 8), "dfrac": s["frac"]}, st)
        try:
            bwd(outs, T)
        except RuntimeError:
            sim.probe("loading failed")
        sim.fault("damage:" + s["damage"], n)


def run(spec, sim):
    st = os.path.join(sim.scratch, "st")
    steps = spec["steps"]
    # what each fault strikes is found by counting operations once
    plans, caps = [], []
    os.mkdir(st)
    sim.fs_seen = 0
    real_mkdir = os.mkdir

    def mkdir(*a, **k):
        r = real_mkdir(*a, **k)
        sim.fs_seen += 1
        return r
    os.mkdir = mkdir
    for s in steps:
        j = copy.deepcopy(s["job"])
        j["store"]["path"] = st
        sim.begin(None)
        if s["kind"] == "line":
            n = jobs.guarded("counting", step, s, sim, st, None)
            plans.append(int(s["frac"] * n))
        elif s["kind"] == "io":
            T = jobs.build(j)
            outs = jobs.guarded("counting", jobs.call, j, T)
            c0 = {op: sim.op_count(op) for op in core.OPS}
            l = jobs.loss(j, outs)
            if not isinstance(l, float) and l.requires_grad:
                sim.torch.autograd.grad(l, list(jobs.leaves(T).values()), allow_unused=True)
            c1 = {op: sim.op_count(op) for op in core.OPS}
            rules = []
            for r in s["rules"]:
                n = c0[r["op"]] if s["phase"] == "F" else c1[r["op"]] - c0[r["op"]]
                import errno
                rules.append({"op": r["op"], "action": r["action"], "err": getattr(errno, r["err"]), "nth": int(r["frac"] * n),
                              "arg": r["arg"], "persist": r["persist"]})
            plans.append(rules)
            del T, outs, l
        else:
            jobs.guarded("counting", step, s, sim, st, None) if s["kind"] != "damage" else jobs.guarded("counting", jobs.full, j)
            plans.append(None)
        caps.append(sim.end() * 60 + 50_000_000)
    seen = [array.array("q", [0] * len(NAMES)) for _ in range(WARM + MEAS + MORE)]
    threads = any(s["kind"] == "thread" for s in steps)

    def grows(a, b):
        """What grew in every repetition from a to b."""
        return [i for i, n in enumerate(NAMES) if not (n == "bytes of heap" and threads)  # a thread's own storage comes and goes
                and all(y[i] - x[i] >= LEAST.get(n, 1) for x, y in zip(seen[a:b], seen[a + 1:b + 1]))]

    gc.collect()
    gc.disable()
    try:
        for rep in range(WARM + MEAS + MORE):
            # A memory of limited size for what was computed before is no leak
            if rep >= WARM + MEAS and not (spec.get("vary") and grows(WARM - 1, rep - 1)):
                break
            for s, plan, cap in zip(steps, plans, caps):
                s = {**s, "job": {**s["job"], "seed": s["job"]["seed"] + rep}}  # other values each time
                if spec.get("vary"):
                    s["job"]["vary"] = rep
                sim.begin(s["sched"], cap)
                jobs.guarded(s["kind"], step, s, sim, st, plan)
                sim.end()
                if s["kind"] == "damage":
                    for d in os.listdir(st):
                        core._real["rmdir"] and __import__("shutil").rmtree(os.path.join(st, d), ignore_errors=True)
            measure(sim, st, seen[rep])
    finally:
        gc.enable()
    seen = seen[:rep + (rep == WARM + MEAS + MORE - 1)]
    bad = grows(WARM - 1, len(seen) - 1)
    if bad:
        i = bad[0]
        raise core.Violation("leak", f"{NAMES[i]}: {[m[i] for m in seen[:WARM + MEAS]]} after each repetition of "
                                     f"{[s['kind'] for s in steps]}" + (f", {seen[-1][i]} after {len(seen)}" if len(seen) > WARM + MEAS else ""))
    sim.note([list(m[:-2]) for m in seen[:WARM + MEAS]])


def shrink(spec):
    if spec.get("vary"):
        yield {**spec, "vary": False}
    st = spec["steps"]
    for i in range(len(st)):
        if len(st) > 1:
            yield {**spec, "steps": st[:i] + st[i + 1:]}
    for i, s in enumerate(st):
        if s["sched"]["strategy"] != core.SEQ:
            yield {**spec, "steps": [*st[:i], {**s, "sched": {"strategy": core.SEQ, "threads": [1]}}, *st[i + 1:]]}
        if len(s.get("rules", [])) > 1:
            yield {**spec, "steps": [*st[:i], {**s, "rules": s["rules"][:1]}, *st[i + 1:]]}
        for j in jobs.shrink_job(s["job"]):
            yield {**spec, "steps": [*st[:i], {**s, "job": j}, *st[i + 1:]]}
