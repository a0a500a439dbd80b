"""Shots never influence each other, whatever they contain and however they are batched."""
import copy

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1250, 15000)
RULE = ("Each run propagates a batch of shots under a seeded schedule, the same shots split into two groups in "
        "another order, and the batch again with one shot corrupted (NaN, infinity or huge amplitudes).")
BAD = ["nan", "inf", "huge", "-inf"]


def gen(rng, tier):
    if rng.random() < 0.08:
        return {"points": gen_points(rng)}
    j = jobs.gen_job(rng, max_shots=7)
    j["shots"] = max(2, j["shots"])
    j["expand"] = False
    j.pop("survey_pad", None)
    if rng.random() < 0.3:
        j["store"] = {"mode": rng.choice(["disk", "device"]), "compress": rng.random() < 0.6}
    n = j["shots"]
    perm = list(range(n))
    rng.shuffle(perm)
    k = rng.randint(1, n - 1)
    return {"job": j, "sched": core.gen_sched(rng, 16), "sched2": core.gen_sched(rng, 16),
            "groups": [perm[:k], perm[k:]], "bad": rng.randrange(n), "what": rng.choice(BAD),
            "where": rng.choice(["amps", "init", "model"]), "vary": rng.random() < 0.3}


def gen_points(rng):
    """Points between those of the grid: some in the same place of their cells, some at free surfaces."""
    ns, per = rng.randint(1, 3), rng.randint(1, 4)
    fracs = [rng.choice([0.0, 0.25, 0.3, 0.5, rng.random()]) for _ in range(2)]
    loc = [[[rng.choice([0, 1, 2, 5, 8, 11, 13, 14]) + (rng.choice(fracs) if rng.random() < 0.85 else rng.random())
             for _ in range(2)] for _ in range(per)] for _ in range(ns)]
    return {"loc": loc, "halfwidth": rng.randint(1, 6), "free": [rng.random() < 0.5 for _ in range(4)],
            "surf": rng.choice([None, None, [0.0, 15.0, -0.5, 15.0]]), "double": rng.random() < 0.7,
            "mono": [[rng.random() < 0.6 for _ in range(per)] for _ in range(ns)] if rng.random() < 0.4 else None,
            "dip": [[rng.randint(0, 1) for _ in range(per)] for _ in range(ns)], "seed": rng.getrandbits(30)}


def points(spec, sim):
    torch = sim.torch
    q = spec["points"]
    dt = torch.float64 if q["double"] else torch.float32
    loc = torch.tensor(q["loc"], dtype=dt)
    ns, per, _ = loc.shape
    dip = torch.tensor(q["dip"])
    mono = None if q["mono"] is None else torch.tensor(q["mono"])

    def hicks(x, s, p):
        k = {} if mono is None else {"monopole": mono[s, p], "dipole_dim": dip[s, p]}
        if any(q["free"]):
            k.update(free_surfaces=list(q["free"]), model_shape=[17, 17], free_surface_locs=q["surf"])
        return sim.dw.location_interpolation.Hicks(x[s, p], q["halfwidth"], dtype=dt, **k)

    def spread(h, amps, shots=None):
        """What each amplitude puts where."""
        out = {}
        l, a = h.get_locations(shots), h.source(amps, shots)
        for s in range(a.shape[0]):
            for x, v in zip(l[s].tolist(), a[s]):
                if bool((v != 0).any()):
                    out[s, x[0], x[1]] = v
        return out

    eye = torch.eye(per, dtype=dt).repeat(ns, 1, 1)
    every = slice(None)
    h = jobs.guarded("all points", hicks, loc, every, every)
    whole = spread(h, eye)
    sub = torch.randperm(ns, generator=torch.Generator().manual_seed(q["seed"]))[:max(1, ns - 1)]
    part = spread(h, eye[sub], sub)
    zero = torch.zeros(per, dtype=dt)

    def same(got, want, what):
        for k in set(got) | set(want):
            d = float((got.get(k, zero) - want.get(k, zero)).abs().max())
            if not d <= 3e-4:  # (weights are shared within 1e-5 of a cell)
                raise core.Violation("point-dependence", f"{what}: shot {k[0]}, cell {k[1:]}: {got.get(k, zero).tolist()}, "
                                                         f"expected {want.get(k, zero).tolist()}")

    alone = {}
    for s in range(ns):
        for p in range(per):
            h1 = jobs.guarded("one point", hicks, loc, slice(s, s + 1), slice(p, p + 1))
            for (_, z, x), v in spread(h1, torch.ones(1, 1, 1, dtype=dt)).items():
                alone.setdefault((s, z, x), torch.zeros(per, dtype=dt))[p] = v
    same(whole, alone, "points together vs each alone")
    same({(int(sub[k[0]]), *k[1:]): v for k, v in part.items()},
         {k: v for k, v in alone.items() if k[0] in sub.tolist()}, "some of the shots vs each point alone")
    again = spread(hicks(loc, every, every), eye)
    same(again, alone, "a second time vs each point alone")
    # receivers are the transpose of sources, each by itself
    g = torch.Generator().manual_seed(q["seed"])
    data = torch.randn(ns, h.get_locations().shape[1], 3, generator=g, dtype=torch.float64).to(dt)
    got = h.receiver(data)
    for s in range(ns):
        for p in range(per):
            want = torch.zeros(3, dtype=dt)
            for i, x in enumerate(h.get_locations()[s].tolist()):
                if (s, x[0], x[1]) in alone:
                    want += alone[s, x[0], x[1]][p] * data[s, i]
            if float((got[s, p] - want).abs().max()) > 3e-3:
                raise core.Violation("point-dependence", f"receiver {p} of shot {s}: {got[s, p].tolist()}, expected {want.tolist()}")
    sim.note(sorted((k, v.tolist()) for k, v in whole.items()))
    sim.probe("points", ns * per)


def per_shot(j, n):
    if n[1:].startswith(":model"):
        return j["batched"][int(n[7:])]
    return True


def corrupt(spec, T, sim):
    j = spec["job"]
    v = {"nan": float("nan"), "inf": float("inf"), "-inf": float("-inf"), "huge": 1e150 if j["dtype"] == "double" else 1e25}[spec["what"]]
    k = spec["bad"]
    where = spec["where"]
    done = False
    with sim.torch.no_grad():
        if where == "model":
            for i, b in enumerate(j["batched"]):
                if b:
                    t = T["models"][i]
                    t.data[k].flatten()[0] = v
                    t.data[k] = v
                    done = True
                    break
        if where == "init" and T["init"]:
            n = sorted(T["init"])[0]
            T["init"][n].data[k] = v
            done = True
        if not done and T["amps"]:
            n = sorted(T["amps"])[0]
            T["amps"][n].data[k] = v
            done = True
    return done


def run(spec, sim):
    if "points" in spec:
        return points(spec, sim)
    j = copy.deepcopy(spec["job"])
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = sim.scratch
    tol = jobs.tol_of(j)
    T = jobs.build(j)
    sim.begin(spec["sched"])
    whole = jobs.guarded("batch", jobs.run_with, j, T)
    sim.end()
    jobs.note(whole)
    parts = []
    for g in spec["groups"]:
        sim.begin(spec["sched2"])
        parts.append(jobs.guarded("part of the batch", jobs.run_with, j, jobs.select(j, T, g), g))
        sim.end()
    got, want = {}, {}
    for n, x in whole.items():
        ys = [p[n] for p in parts]
        if x.ndim == 0 or (n.startswith("o:") and x.numel() == 0):
            continue
        if per_shot(j, n):
            y = sim.torch.empty_like(x)
            for g, p in zip(spec["groups"], ys):
                y[g] = p
        else:
            y = ys[0] + ys[1]
        got[n], want[n] = x, y
    jobs.compare(got, want, tol * 10, "batch vs its shots apart", kind="shot-dependence")
    # a broken shot
    B = jobs.build(j)
    if not corrupt(spec, B, sim):
        return
    sim.fault("corrupt-shot:" + spec["what"])
    sim.begin(spec["sched"])
    bad = jobs.guarded("batch with a corrupt shot", jobs.run_with, j, B)
    sim.end()
    keep = [i for i in range(j["shots"]) if i != spec["bad"]]
    a, b = {}, {}
    for n in whole:
        if per_shot(j, n) and whole[n].numel():
            a[n], b[n] = bad[n][keep], whole[n][keep]
    jobs.compare(a, b, tol, "other shots beside a corrupt one", kind="contamination")


def shrink(spec):
    if "points" in spec:
        q = spec["points"]
        ns, per = len(q["loc"]), len(q["loc"][0])
        for s in range(ns if ns > 1 else 0):
            yield {**spec, "points": {**q, **{k: q[k] and q[k][:s] + q[k][s + 1:] for k in ("loc", "mono", "dip")}}}
        for p in range(per if per > 1 else 0):
            yield {**spec, "points": {**q, **{k: q[k] and [x[:p] + x[p + 1:] for x in q[k]] for k in ("loc", "mono", "dip")}}}
        for i in range(4):
            if q["free"][i]:
                yield {**spec, "points": {**q, "free": q["free"][:i] + [False] + q["free"][i + 1:]}}
        if q["mono"]:
            yield {**spec, "points": {**q, "mono": None}}
        if q["halfwidth"] > 1:
            yield {**spec, "points": {**q, "halfwidth": q["halfwidth"] - 1}}
        return
    j0 = spec["job"]
    if j0["store"]["mode"] != "device" or j0["store"]["compress"]:
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    if j0["shots"] > 2:
        c = copy.deepcopy(spec)
        c["job"]["shots"] = 2
        c["groups"] = [[0], [1]]
        c["bad"] = min(1, c["bad"])
        yield c
    for j in jobs.shrink_job(j0):
        if j["shots"] != j0["shots"]:
            continue
        yield {**spec, "job": j}
