"""The same call gives the same bits whatever memory held and whatever ran before."""
import copy
import os
import sys

from .. import core, jobs

LEVEL = "exploration"
RUNS = (600, 12000)
RULE = ("Each run makes one propagation and backpropagation (also second derivatives, also with callbacks that read all "
        "fields) several times with the same number of workers, each time under another schedule, with other content in "
        "all memory that is handed out uninitialised (by the allocator, torch.empty and the C code's malloc), and after "
        "another history of calls (other equations, failed, interrupted); all results must agree bit for bit.")
PATCH = [None, None, float("nan"), float("nan"), float("inf"), 0.0, 1e30, -7.25, 1e-300, 3.0]
BYTES = [None, 0x00, 0x40, 0x7f, 0xfe, 0xaa, 0x01, 0xc0]


class Boom(Exception):
    pass


def gen(rng, tier):
    j = jobs.gen_job(rng, double=False, max_shots=6, long_ok=False)
    if rng.random() < 0.5:
        j["store"] = {"mode": rng.choice(["disk", "device", "device", "none"]), "compress": rng.random() < 0.5}
    elif rng.random() < 0.1 and j["dtype"] == "double":
        j["backend"] = "eager"
        j["nt"] = min(j["nt"], 5)
        j["interval"] = 1
    s0 = core.gen_sched(rng, 8)
    envs = []
    for k in range(rng.choice([2, 3, 3, 4])):
        s = core.gen_sched(rng, 8)
        s["threads"] = s0["threads"]
        s.pop("limit", None)
        if "limit" in s0:
            s["limit"] = s0["limit"]
        before = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            b = {"kind": rng.choice(["full", "full", "failF", "failB", "line", "fill", "same"]), "frac": rng.random()}
            if b["kind"] not in ("fill", "same"):
                b["job"] = jobs.gen_job(rng, double=False, max_shots=4, small=True, long_ok=False)
                if rng.random() < 0.3:
                    b["job"]["store"] = {"mode": rng.choice(["disk", "device"]), "compress": rng.random() < 0.5}
            before.append(b)
        envs.append({"sched": s, "patch": rng.choice(PATCH), "byte": rng.choice(BYTES), "cbyte": rng.choice(BYTES), "before": before})
    sp = {"job": j, "envs": envs, "threads": s0["threads"], "limit": s0.get("limit", 0), "useed": rng.getrandbits(20),
          "double": j["prop"] == "scalar" and not j.get("backend") and rng.random() < 0.4}
    if rng.random() < 0.4:
        sp["cb"] = [rng.choice(["f", "b", "fb"]) if not j.get("backend") else "f", rng.choice([1, 2, 3]),
                    rng.choice(["full", "pml", "inner"])]
    return sp


def measure(spec, j, torch):
    T = jobs.build(j)
    seen = {}
    over = {}
    if spec.get("cb"):
        which, freq, view = spec["cb"]

        def cb(ph):
            def f(st):
                fields, models, grads = jobs.shown(st)
                for n in fields:
                    seen[f"c:{ph}{st.step}:{n}"] = st.get_wavefield(n, view).detach().clone()
                for n in grads:
                    if st.get_gradient(n, "full").numel() == 0:  # not wanted
                        continue
                    seen[f"c:{ph}{st.step}:grad {n}"] = st.get_gradient(n, view).detach().clone()
                for n in models:
                    seen[f"c:{ph}{st.step}:model {n}"] = st.get_model(n, view).detach().clone()
            return f
        over["callback_frequency"] = freq
        if "f" in which:
            over["forward_callback"] = cb("f")
        if "b" in which:
            over["backward_callback"] = cb("b")
    outs = jobs.call(j, T, **over)
    res = jobs.outcome(j, outs)
    lv = jobs.leaves(T)
    l = jobs.loss(j, outs)
    if lv and isinstance(l, torch.Tensor) and l.requires_grad:
        gr = torch.autograd.grad(l, list(lv.values()), allow_unused=True, create_graph=spec["double"])
        for (n, t), x in zip(lv.items(), gr):
            res[n] = torch.zeros_like(t).detach() if x is None else x.detach().clone()
        if spec["double"]:
            use = [x for x in gr if x is not None and x.requires_grad]
            if use:
                l2 = jobs.loss(j, use)
                hr = torch.autograd.grad(l2, list(lv.values()), allow_unused=True)
                for (n, t), x in zip(lv.items(), hr):
                    res["h" + n[1:]] = torch.zeros_like(t).detach() if x is None else x.detach().clone()
    res.update(seen)
    return res


def history(b, spec, j, sim, torch):
    k = b["kind"]
    if k == "fill":
        xs = [torch.full((int(10 ** (1 + 3 * b["frac"])),), float("nan"), dtype=torch.double) for _ in range(20)]
        del xs
        return
    if k == "same":
        measure(spec, j, torch)
        return
    jb = copy.deepcopy(b["job"])
    jb["store"]["path"] = j["store"]["path"]
    if k == "full":
        jobs.full(jb)
        return
    n = [0]

    def boom(st):
        n[0] += 1
        if n[0] > b["frac"] * jb["nt"] / 2:
            raise Boom
    T = jobs.build(jb)
    if k == "line":
        c = [0]

        def line(fr):
            c[0] += 1
            if c[0] == int(b["frac"] * 400) + 1:
                raise Boom
        sys.settrace(sim.trace(line))
        try:
            jobs.full(jb, T)
        except Boom:
            sim.probe("history: interrupted")
        finally:
            sys.settrace(None)
        return
    try:
        jobs.full(jb, T, **{"forward_callback" if k == "failF" else "backward_callback": boom})
    except Boom:
        sim.probe("history: callback raised")


def run(spec, sim):
    torch = sim.torch
    j = copy.deepcopy(spec["job"])
    st = os.path.join(sim.scratch, "st")
    os.mkdir(st)
    j["store"]["path"] = st
    base = {"strategy": core.SEQ, "threads": spec["threads"], "limit": spec["limit"]}
    sim.begin(base)
    ref = jobs.guarded("first time", measure, spec, j, torch)
    cap = sim.end() * 60 + 50_000_000
    for k, e in enumerate(spec["envs"]):
        sim.set_poison(e["patch"], e["cbyte"])
        sim.perturb(e["byte"])
        for b in e["before"]:
            sim.begin({"strategy": core.SEQ, "threads": [1]})
            jobs.guarded(f"history {b['kind']}", history, b, spec, j, sim, torch)
            sim.end()
        sim.begin(e["sched"], cap)
        got = jobs.guarded(f"time {k + 2}", measure, spec, j, torch)
        sim.end()
        sim.set_poison(None)
        sim.perturb(None)
        what = (f"time {k + 2} (uninitialised memory: {e['patch']}, bytes {e['byte']}/{e['cbyte']}; "
                f"before: {[b['kind'] for b in e['before']]})")
        if set(got) != set(ref):
            raise core.Violation("irreproducible", f"{what}: different results present")
        for n in sorted(ref):
            a, b = got[n].contiguous(), ref[n].contiguous()
            if a.shape != b.shape or a.numpy().tobytes() != b.numpy().tobytes():
                if a.shape == b.shape and torch.equal(a, b):
                    continue  # only the sign of a zero
                i = 0
                if a.shape == b.shape:
                    i = int((torch.nan_to_num(a, nan=1e99) != torch.nan_to_num(b, nan=1e99)).flatten().nonzero()[0]) if bool(
                        (torch.nan_to_num(a, nan=1e99) != torch.nan_to_num(b, nan=1e99)).any()) else 0
                raise core.Violation("irreproducible", f"{what}: {n}[{i}] = {float(a.flatten()[i])!r}, was {float(b.flatten()[i])!r}")
        sim.fault("hostile-memory", 1)
    jobs.note(ref)
    sim.probe("filled tensors", sim.poison_n)


def shrink(spec):
    for i in range(len(spec["envs"])):
        if len(spec["envs"]) > 1:
            yield {**spec, "envs": spec["envs"][:i] + spec["envs"][i + 1:]}
    for i, e in enumerate(spec["envs"]):
        for b in range(len(e["before"])):
            c = copy.deepcopy(spec)
            c["envs"][i]["before"].pop(b)
            yield c
        for k in ("patch", "byte", "cbyte"):
            if e[k] is not None:
                c = copy.deepcopy(spec)
                c["envs"][i][k] = None
                yield c
        if e["sched"]["strategy"] != core.SEQ:
            c = copy.deepcopy(spec)
            c["envs"][i]["sched"] = {"strategy": core.SEQ, "threads": spec["threads"], "limit": spec["limit"]}
            yield c
    if spec.get("cb"):
        yield {**spec, "cb": None}
    if spec["double"]:
        yield {**spec, "double": False}
    if spec["threads"] != [1]:
        c = copy.deepcopy(spec)
        c["threads"] = [1]
        for e in c["envs"]:
            e["sched"]["threads"] = [1]
        yield c
    for j in jobs.shrink_job(spec["job"]):
        yield {**spec, "job": j}
