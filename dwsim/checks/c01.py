"""Results never depend on how many worker threads run or how they interleave."""
import copy

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1800, 20000)
RULE = ("Each run generates a propagator call (equation, dimensions, order, sizes, boundary widths, batching, "
        "initial wavefields, storage, callbacks, gradients wanted) and executes forward and backward with one "
        "worker, then under a seeded scheduler with several workers.")


def gen(rng, tier):
    j = jobs.gen_job(rng)
    if j["shots"] < 2:
        j["shots"] = 2
    if j["ndim"] < 3 and j["shots"] < 7 and rng.random() < 0.3:
        j["shots"] = rng.randint(7, 13)
        j["nt"] = min(j["nt"], 4)
    if rng.random() < 0.25:
        j["store"] = {"mode": rng.choice(["disk", "none", "device"]), "compress": rng.random() < 0.5}
    s = {"job": j, "sched": core.gen_sched(rng, 64)}
    if rng.random() < 0.55:
        s["sched"] = {"strategy": core.CONFLICT, "seed": rng.getrandbits(48), "shuffle": 1,
                      "threads": s["sched"]["threads"]}
        if j["shots"] > 3 and rng.random() < 0.6:
            s["sched"]["threads"] = [rng.randint(2, j["shots"] - 1)]
    if rng.random() < 0.3:
        s["cb"] = [rng.choice(["f", "b", "fb"]), rng.choice([1, 1, 2, 3, 5])]
    return s


def execute(spec, sim, sched, cap=0):
    j = copy.deepcopy(spec["job"])
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = sim.scratch
    over = {}
    if spec.get("cb"):
        over["callback_frequency"] = spec["cb"][1]
        if "f" in spec["cb"][0]:
            over["forward_callback"] = lambda st: None
        if "b" in spec["cb"][0]:
            over["backward_callback"] = lambda st: None
    sim.begin(sched, cap)
    r = jobs.guarded("propagation", jobs.full, j, **over)
    clock = sim.end()
    return r, clock


def run(spec, sim):
    ref, clock = execute(spec, sim, None)
    cap = clock * 20 + 5_000_000
    got, _ = execute(spec, sim, spec["sched"], cap=cap)
    jobs.note(got)
    jobs.compare(got, ref, jobs.tol_of(spec["job"]), "several workers vs one")
    # Workers that touched the same data are worth more attempts
    for k in range(1, 9 if sim.conflicts else 1):
        sim.probe("conflict_directed_schedules")
        got, _ = execute(spec, sim, {**spec["sched"], "seed": spec["sched"]["seed"] + k}, cap=cap)
        jobs.compare(got, ref, jobs.tol_of(spec["job"]), "several workers vs one")


def shrink(spec):
    if spec.get("cb"):
        yield {**spec, "cb": None}
    if spec["job"]["store"]["mode"] != "device":
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    if len(spec["sched"]["threads"]) > 1 or spec["sched"]["threads"][0] > 2:
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for j in jobs.shrink_job(spec["job"]):
        if j["shots"] >= 2:
            yield {**spec, "job": j}
