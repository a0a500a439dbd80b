"""Compiled code touches nothing but live memory that belongs to the call."""
import copy
import errno
import gc
import os

from .. import core, jobs

LEVEL = "exploration"
HEAP = True
RUNS = (1000, 15000)
RULE = ("Each run executes forward passes, backward passes (also repeated, late, second derivatives), with callbacks, every "
        "storage mode, failing file operations or allocations and concurrent callers under a seeded schedule, on a heap "
        "whose blocks have known bounds: every load, store, block operation and file transfer of compiled code is checked "
        "against the blocks alive at that instant.")
ASSUME = ["Accesses within the bounds of another live block are not noticed here (red zones keep blocks apart by 96 bytes or more).",
          "Freed blocks stay unusable until 96 MB of others have been freed."]
ERRS = ["EIO", "ENOSPC", "EACCES", "EINTR", "ENOMEM"]


def gen_one(rng):
    j = jobs.gen_job(rng, max_shots=7)
    r = rng.random()
    if r < 0.35:
        j["store"] = {"mode": rng.choice(["disk", "device", "device"]), "compress": rng.random() < 0.7}
        if rng.random() < 0.5:  # whole and broken compression blocks
            d = rng.randrange(j["ndim"])
            hi = {1: 40, 2: 20, 3: 9}[j["ndim"]]
            want = rng.choice([k for k in (7, 8, 9, 15, 16, 17, 24, 33) if k <= hi])
            own = j["pml"][2 * d] + j["pml"][2 * d + 1] + (j["acc"] if j["prop"] in ("scalar", "born") else j["acc"] - 1)
            j["shape"][d] = max(4, want - own)
    elif r < 0.42:
        j["store"] = {"mode": "none", "compress": False}
    if rng.random() < 0.1:
        j["nsrc"] = j["nrec"] = rng.randint(5, 12)
    if rng.random() < 0.1:  # boundary wider than what is inside
        j["pml"] = [rng.randint(0, 6 if j["ndim"] < 3 else 3) for _ in j["pml"]]
    if rng.random() < 0.06:
        j["nt"] = rng.choice([1, 2, 3])
    return jobs.fix(j)


def gen(rng, tier):
    js = [gen_one(rng) for _ in range(rng.choices([1, 2], [75, 25])[0])]
    ops = []
    for i in range(len(js)):
        seq = [["F", i]] + [["B", i]] * rng.choices([0, 1, 2], [6, 74, 20])[0] + [["D", i]]
        for o in seq:
            if rng.random() < 0.3:
                ops.append(["G", i])
            ops.append(o)
    if rng.random() < 0.4:
        a, b = [o for o in ops if o[1] == 0], [o for o in ops if o[1] == 1]
        ops = []
        while a or b:
            s = a if a and (not b or rng.random() < 0.5) else b
            ops.append(s.pop(0))
    rules = []
    if rng.random() < 0.3:
        for _ in range(rng.choice([1, 1, 2])):
            for j in js:
                if rng.random() < 0.8 and j["store"]["mode"] == "device":
                    j["store"] = {"mode": "disk", "compress": rng.random() < 0.5}
            rules.append({"op": rng.choice(["open", "write", "write", "read", "read", "seek", "close", "alloc"]),
                          "nth": rng.choice([0, 1, 1, 2, 3, 5, 9, 20]),
                          "action": rng.choice(["fail", "fail", "short"]), "err": rng.choice(ERRS), "arg": rng.randint(0, 99),
                          "persist": rng.random() < 0.3})
    return {"jobs": js, "ops": ops, "sched": core.gen_sched(rng, 16), "rules": rules, "useed": rng.getrandbits(20),
            "cb": [rng.choice([None, None, "f", "b", "fb"]), rng.randint(1, 4)], "clients": rng.random() < 0.15,
            "byte": rng.choice([None, 0xFF, 0x5A])}


def run(spec, sim):
    torch = sim.torch
    if not sim.L.dwsim_heap_on(1):
        raise RuntimeError("the heap with known bounds is not loaded")
    st = os.path.join(sim.scratch, "st")
    os.mkdir(st)
    js = copy.deepcopy(spec["jobs"])
    for j in js:
        j["store"]["path"] = st
    over = {}
    if spec["cb"][0]:
        over["callback_frequency"] = spec["cb"][1]

        def look(s):
            for n in jobs.shown(s)[0]:
                s.get_wavefield(n).sum()
        if "f" in spec["cb"][0]:
            over["forward_callback"] = look
        if "b" in spec["cb"][0]:
            over["backward_callback"] = look
    live = {}
    left = [sum(1 for o in spec["ops"] if o == ["B", i]) for i in range(len(js))]
    faulty = bool(spec["rules"])

    def attempt(what, f):
        """Faults may make it fail; where there are none nothing may."""
        try:
            return f()
        except Exception as e:  # noqa: BLE001
            e.__traceback__ = None
            if not (faulty and sim.stat(5)):
                raise core.Violation("unexpected-exception", f"{what}: {type(e).__name__}: {str(e)[:300]}") from e
            sim.probe("raised")
            return None

    def perform(o, i):
        j = js[i]
        if o == "F":
            T = jobs.build(j)
            outs = attempt("forward", lambda: jobs.call(j, T, **over))
            if outs is not None:
                live[i] = (T, outs)
        elif o == "B":
            left[i] -= 1
            if i in live:
                T, outs = live[i]
                res = {}
                lv = jobs.leaves(T)
                tot = jobs.loss(j, outs)
                if lv and isinstance(tot, torch.Tensor) and tot.requires_grad:
                    attempt("backward", lambda: jobs.derive(j, tot, lv, res, keep=left[i] > 0))
                    if not faulty:
                        jobs.note(res)
        elif o == "D":
            live.pop(i, None)
        else:
            # the caller lets go of everything but the results, and uses memory for other things
            if i in live:
                outs = live[i][1]
                sim.note(len(outs))
            gc.collect()
            x = [torch.randn(k) for k in (3, 50, 700, 9000)]
            del x

    if spec["byte"] is not None:
        sim.perturb(spec["byte"])
    sim.begin(spec["sched"])
    sim.rules(spec["rules"] and [dict(r, err=getattr(errno, r["err"])) for r in spec["rules"]])
    if spec["clients"] and not faulty:
        def caller(i):
            def f():
                for o, k in spec["ops"]:
                    if k == i:
                        perform(o, k)
            return f
        for r in sim.clients([caller(i) for i in range(len(js))]):
            if r[0] == "exc":
                raise r[1]
    else:
        for o, i in spec["ops"]:
            perform(o, i)
    sim.rules([])
    sim.end()
    live.clear()
    sim.probe("accesses checked", sim.stat(12))


def shrink(spec):
    if spec["rules"]:
        yield {**spec, "rules": []}
        for i in range(len(spec["rules"])):
            yield {**spec, "rules": spec["rules"][:i] + spec["rules"][i + 1:]}
    for k, v in (("clients", False), ("byte", None), ("cb", [None, 1])):
        if spec[k] != v:
            yield {**spec, k: v}
    ops = spec["ops"]
    for i in range(len(ops)):
        if len(ops) > 1:
            yield {**spec, "ops": ops[:i] + ops[i + 1:]}
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for i in range(len(spec["jobs"])):
        for j in jobs.shrink_job(spec["jobs"][i]):
            c = copy.deepcopy(spec)
            c["jobs"][i] = j
            yield c
        if spec["jobs"][i]["store"]["mode"] != "device" or spec["jobs"][i]["store"]["compress"]:
            c = copy.deepcopy(spec)
            c["jobs"][i]["store"] = {"mode": "device", "compress": False}
            yield c
