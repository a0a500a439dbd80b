"""Observing a propagation (callbacks at any cadence) or thinning the gradient
sampling never changes what is propagated."""
import copy

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1000, 15000)
RULE = ("Each run propagates without callbacks, then with forward and/or backward callbacks at a random cadence under "
        "a seeded schedule with callbacks that do other work (read state, propagate something else, back-propagate it, "
        "collect garbage, change the thread count), then with another gradient sampling interval.")
WORK = ["nothing", "read", "propagate", "backprop", "gc", "rng", "alloc"]


def gen(rng, tier):
    j = jobs.gen_job(rng, max_shots=6)
    if rng.random() < 0.3:
        j["store"] = {"mode": rng.choice(["disk", "device", "none"]), "compress": rng.random() < 0.5}
    if rng.random() < 0.12 and j["store"]["mode"] == "device" and not j["store"]["compress"] and j["dtype"] == "double":
        j["backend"] = "eager"
    j.pop("cb", None)
    steps = -(-j["nt"] * j["ratio"] // (j["ratio"] * j["interval"]))
    return {"job": j, "sched": core.gen_sched(rng, 16),
            "cb": rng.choice(["f", "b", "fb", "fb"]) if not j.get("backend") else "f",
            "freq": rng.choice([1, 1, 2, 3, 5, max(1, steps - 1), steps, steps + 1, 1000]),
            "work": [rng.choice(WORK) for _ in range(3)],
            "inner": jobs.gen_job(rng, small=True, shots=rng.randint(1, 2), long_ok=False, dtypes=False),
            "interval2": rng.choice([1, 2, 3, 4, 5, 8, j["nt"], j["nt"] + 3, 100])}


def run(spec, sim):
    j = copy.deepcopy(spec["job"])
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = sim.scratch
    tol = jobs.tol_of(j)
    sim.begin(None)
    ref = jobs.guarded("plain", jobs.full, j)
    clock = sim.end()
    inner = 0
    if {"propagate", "backprop"} & set(spec["work"]):
        c = copy.deepcopy(spec["inner"])
        sim.begin(None)
        jobs.guarded("inner", jobs.full, c)
        inner = sim.end()
    calls = {"f": 0, "b": 0}

    def cb(which):
        def f(st):
            k = calls[which]
            calls[which] += 1
            w = spec["work"][k % len(spec["work"])]
            if k > 6 and w in ("propagate", "backprop"):
                return
            if w == "read":
                fields, models, grads = jobs.shown(st)
                for n in fields:
                    st.get_wavefield(n, "full").sum()
                for n in models:
                    st.get_model(n, "inner").sum()
                for n in grads:
                    if st.get_gradient(n, "full").numel():  # empty: not wanted
                        st.get_gradient(n, "pml").sum()
            elif w == "propagate":
                c = copy.deepcopy(spec["inner"])
                with sim.torch.no_grad():
                    jobs.call(c, jobs.build(c))
            elif w == "backprop":
                with sim.torch.enable_grad():
                    jobs.full(copy.deepcopy(spec["inner"]))
            elif w == "gc":
                import gc
                gc.collect()
            elif w == "rng":
                sim.torch.manual_seed(k)
                sim.torch.rand(3)
            elif w == "alloc":
                sim.torch.full((1 << 12,), float("nan"), dtype=sim.torch.double)
            sim.probe("cb:" + w)
        return f

    over = {"callback_frequency": spec["freq"]}
    if "f" in spec["cb"]:
        over["forward_callback"] = cb("f")
    if "b" in spec["cb"]:
        over["backward_callback"] = cb("b")
    sim.begin(spec["sched"], clock * 40 + inner * 100 + 50_000_000)
    got = jobs.guarded("with callbacks", jobs.full, j, **over)
    sim.end()
    jobs.note(got)
    jobs.compare(got, ref, tol, f"callbacks every {spec['freq']} steps vs none", kind="callback-dependence")
    # gradient sampling interval
    j2 = copy.deepcopy(j)
    j2["interval"] = spec["interval2"]
    sim.begin(spec["sched"])
    got = jobs.guarded("other sampling interval", jobs.full, j2)
    sim.end()
    jobs.note(got)
    lossless = lambda n: not n.startswith(("g:model", "h:"))  # noqa: E731
    jobs.compare(got, ref, tol, f"sampling interval {j2['interval']} vs {j['interval']}", kind="interval-dependence",
                 only=lossless)


def shrink(spec):
    if spec["work"] != ["nothing"]:
        yield {**spec, "work": ["nothing"]}
        for w in spec["work"]:
            if spec["work"] != [w]:
                yield {**spec, "work": [w]}
    for c in ("f", "b"):
        if spec["cb"] == "fb":
            yield {**spec, "cb": c}
    if spec["job"]["store"]["mode"] != "device" or spec["job"]["store"]["compress"]:
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    if spec["sched"]["threads"] != [2]:
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for f in (1, 2, 3):
        if f < spec["freq"]:
            yield {**spec, "freq": f}
    if spec["interval2"] > 2:
        yield {**spec, "interval2": 2}
    for j in jobs.shrink_job(spec["job"]):
        yield {**spec, "job": j}
