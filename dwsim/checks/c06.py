"""Where and how intermediate data is kept never changes results."""
import copy
import os

from .. import core, jobs

LEVEL = "exploration"
RUNS = (800, 12000)
RULE = ("Each run keeps one to four propagations alive with random storage settings over shared, nested, relative or "
        "oddly named directories, runs their forwards and backwards (also repeated) in a random interleaving under seeded "
        "schedules, and compares each with the same propagation alone, kept in memory.")
NAMES = [".", "a", "a/b", "sp ace", "ünï", "./a/../a", "a/", "rel:a", "rel:.", "deep/er/and/deeper", "%s%d", "a\tb"]


def gen_store(rng):
    return {"mode": rng.choices(["disk", "device", "cpu", "none"], [62, 18, 10, 10])[0], "compress": rng.random() < 0.45,
            "name": rng.choice(NAMES)}


def gen_quality(rng):
    prop, js = rng.choice(jobs.PROPS), []
    for _ in range(rng.randint(24, 36)):
        j = jobs.gen_job(rng, prop=prop, ndim=rng.choice([1, 2, 2]), max_shots=2, small=True, long_ok=False, ratio=False,
                         double=False, module=False, batched=False)
        j["nt"] = rng.randint(4, 12)
        j["rg"] = {"models": [True] * len(j["rg"]["models"]), "amps": False, "init": False}
        js.append(jobs.fix(j))
    return {"quality": js, "sched": core.gen_sched(rng, 16), "useed": rng.getrandbits(20),
            "mode": rng.choice(["device", "disk", "cpu"])}


def quality(spec, sim):
    """What compression loses must be noise, and little of it: half of the gradients of a set have less than
    a given bias (projection on the true gradient) and deviation."""
    bias, dev = [], []
    for j in copy.deepcopy(spec["quality"]):
        sim.begin(None)
        y = jobs.guarded("in memory", jobs.full, j)
        sim.end()
        j["store"] = {"mode": spec["mode"], "compress": True, "path": os.path.join(sim.scratch, "q")}
        sim.begin(spec["sched"])
        x = jobs.guarded("compressed", jobs.full, j)
        sim.end()
        jobs.note(x)
        for n in x:
            a, b = x[n].double(), y[n].double()
            if not n.startswith("g:model") or not bool((b != 0).any()) or not bool(sim.torch.isfinite(b).all()):
                continue
            bias.append(float((a * b).sum() / (b * b).sum()) - 1)
            dev.append(float(((a - b) ** 2).sum() / (b * b).sum()) ** 0.5)
    if len(bias) < 20:
        raise core.Skip("few gradients")
    bias.sort()
    dev.sort()
    b, d = bias[len(bias) // 2], dev[len(dev) // 2]
    sim.probe("sets of gradients compared")
    if not abs(b) <= BIAS:
        raise core.Violation("compression", f"half of {len(bias)} compressed gradients are off by more than {b:.3g} of the true ones")
    if not d <= DEV:
        raise core.Violation("compression", f"half of {len(bias)} compressed gradients deviate by more than {d:.3g} (relative)")


BIAS, DEV = 0.004, 0.015  # seen in 200 sets: 0.0009, 0.0075


def gen(rng, tier):
    if rng.random() < 0.05:
        return gen_quality(rng)
    n = rng.choices([1, 2, 3, 4], [25, 40, 25, 10])[0]
    base = jobs.gen_job(rng, max_shots=5)
    js = []
    for i in range(n):
        if i and rng.random() < 0.6:
            j = copy.deepcopy(base)  # same geometry, other data
            j["seed"] = rng.getrandbits(40)
        else:
            j = base if i == 0 else jobs.gen_job(rng, max_shots=4)
        if not any(j["rg"]["models"]):
            j["rg"]["models"][rng.randrange(len(j["rg"]["models"]))] = True
        if rng.random() < 0.1 and j["ndim"] == 1:
            # more than one compression block per dimension
            j["shape"] = [rng.randint(15, 40)]
        elif rng.random() < 0.12 and j["ndim"] == 2:
            j["shape"] = [rng.randint(4, 12), rng.randint(8, 20)]
        j["store"] = gen_store(rng)
        js.append(jobs.fix(j))
    ops = []
    for i in range(n):
        ops.append([("F", i)] + [("B", i)] * rng.choices([1, 2, 3], [60, 30, 10])[0] + [("D", i)])
    seq = []
    while ops:
        k = rng.randrange(len(ops))
        seq.append(ops[k].pop(0))
        if not ops[k]:
            ops.pop(k)
    return {"jobs": js, "ops": [list(o) for o in seq], "sched": core.gen_sched(rng, 16),
            "threads2": rng.randint(1, 8), "useed": rng.getrandbits(20), "base": rng.choice(NAMES[:7])}


def where(sim, spec, name):
    base = os.path.join(sim.scratch, "st", spec["base"].replace("rel:", ""))
    if name.startswith("rel:"):
        return name[4:]
    return os.path.join(base, name)


def backward(j, T, outs, keep):
    torch = core.SIM.torch
    res = jobs.outcome(j, outs)
    lv = jobs.leaves(T)
    tot = jobs.loss(j, outs)
    if isinstance(tot, torch.Tensor) and tot.requires_grad:
        jobs.derive(j, tot, lv, res, keep=keep)
    return res


def lossy_bound(j, a, b, what):
    """Model gradients with compression are near those without."""
    torch = core.SIM.torch
    for n in a:
        if not n.startswith("g:model"):
            continue
        x, y = a[n], b[n]
        if not bool(torch.isfinite(y).all()):
            continue
        if not bool(torch.isfinite(x).all()):
            raise core.Violation("compression", f"{what}: {n} is not finite with compression")
        m = float(y.abs().max())
        d = float((x - y).abs().max())
        core.SIM.probe("compressed gradients compared")
        if j["nt"] > 30:  # (with many steps in few cells the sum may nearly cancel)
            continue
        if m and d > LOSSY * m:
            raise core.Violation("compression", f"{what}: {n} differs by {d / m:.3g} of its maximum from the gradient without compression")


LOSSY = 0.5  # largest seen in 12,000 gradients: 0.144


def run(spec, sim):
    if "quality" in spec:
        return quality(spec, sim)
    js = copy.deepcopy(spec["jobs"])
    os.makedirs(os.path.join(sim.scratch, "cwd"))
    os.chdir(os.path.join(sim.scratch, "cwd"))
    refs, clock = [], 0
    for j in js:
        st = dict(j["store"])
        j["store"] = {"mode": "device", "compress": False}
        sim.begin(None)
        plain = jobs.guarded("in memory", jobs.full, j)
        clock += sim.end()
        ref = plain
        if st["compress"] and st["mode"] != "none":
            j["store"] = {"mode": "device", "compress": True}
            sim.begin(None)
            ref = jobs.guarded("compressed in memory", jobs.full, j)
            sim.end()
            jobs.compare(ref, plain, jobs.tol_of(j), "compressed in memory", kind="compression",
                         only=lambda n: not n.startswith(("g:model", "h:")))
            lossy_bound(j, ref, plain, "compressed in memory")
        refs.append(ref)
        j["store"] = {"mode": st["mode"], "compress": st["compress"], "path": where(sim, spec, st["name"])}
        # the caller's directory: made by it, or left to the package
        if len(st["name"]) % 2 == 0:
            os.makedirs(j["store"]["path"], exist_ok=True)
        sim.probe("mode:" + st["mode"] + ("+c" if st["compress"] else ""))
    live = {}
    left = [sum(1 for o in spec["ops"] if o == ["B", i]) for i in range(len(js))]
    sim.begin(spec["sched"], clock * 100 + 100_000_000)
    for op, i in spec["ops"]:
        j = js[i]
        if op == "F":
            T = jobs.build(j)
            live[i] = [T, jobs.guarded("forward", jobs.call, j, T)]
        elif op == "B":
            left[i] -= 1
            T, outs = live[i]
            got = jobs.guarded("backward", backward, j, T, outs, left[i] > 0)
            jobs.note(got)
            only = None
            if j["store"]["mode"] == "none":
                only = lambda n: not n.startswith(("g:model", "h:"))  # noqa: E731
            jobs.compare(got, refs[i], jobs.tol_of(j), f"propagation {i} kept in {j['store']['mode']}"
                         f"{' compressed' if j['store']['compress'] else ''}", kind="storage-dependence", only=only)
        else:
            live.pop(i)
    sim.end()
    sim.probe("alive together", len(js))


def shrink(spec):
    if "quality" in spec:
        js = spec["quality"]
        if len(js) > 24:
            yield {**spec, "quality": js[:24]}
            yield {**spec, "quality": js[-24:]}
        if spec["mode"] != "device":
            yield {**spec, "mode": "device"}
        return
    n = len(spec["jobs"])
    for i in range(n):
        if n > 1:
            c = copy.deepcopy(spec)
            c["jobs"].pop(i)
            c["ops"] = [[o, k - (k > i)] for o, k in c["ops"] if k != i]
            yield c
    for k, (o, i) in enumerate(spec["ops"]):
        if o == "B" and sum(1 for x in spec["ops"] if x == [o, i]) > 1:
            c = copy.deepcopy(spec)
            c["ops"].pop(k)
            yield c
    for i in range(n):
        for name in (".", "a"):
            if spec["jobs"][i]["store"]["name"] != name and len(spec["jobs"][i]["store"]["name"]) > 1:
                c = copy.deepcopy(spec)
                c["jobs"][i]["store"]["name"] = name
                yield c
    if spec["base"] != ".":
        yield {**spec, "base": "."}
    if spec["sched"]["threads"] != [2]:
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for i in range(n):
        for j in jobs.shrink_job(spec["jobs"][i]):
            if not any(j["rg"]["models"]):
                continue
            c = copy.deepcopy(spec)
            c["jobs"][i] = j
            yield c
