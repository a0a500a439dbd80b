"""A propagation that is stopped, saved, restarted or recomputed piece by piece
gives what the uninterrupted one gives."""
import copy
import os

from .. import core, jobs

LEVEL = "fault_enumeration"
RUNS = (1100, 12000)
RULE = ("Each run propagates a job in one go and in random segments under seeded schedules: chained through autograd, "
        "under torch.utils.checkpoint (both kinds), or in processes that are killed at a random simulated instant and "
        "resumed from the state that had reached the disk.")


def gen(rng, tier):
    j = jobs.gen_job(rng, double=False, module=False, max_shots=4, ratio=False)
    j.pop("survey_pad", None)
    j["nt"] = max(2, j["nt"])
    j["ratio"] = 1
    if rng.random() < 0.25:
        j["store"] = {"mode": rng.choice(["disk", "disk", "none"]), "compress": rng.random() < 0.3}
    elif rng.random() < 0.08 and j["dtype"] == "double":
        j["backend"] = "eager"
    nt, iv = j["nt"], j["interval"]
    k = rng.randint(1, min(3, nt - 1))
    if rng.random() < 0.8 and nt > iv:
        pool = list(range(iv, nt, iv))
        cuts = sorted(rng.sample(pool, min(k, len(pool))))
    else:
        cuts = sorted(rng.sample(range(1, nt), k))
    if rng.random() < 0.08:  # a piece without time steps
        cuts = sorted([*cuts, rng.choice([0, nt, rng.choice(cuts)])])
    mode = rng.choices(["chain", "reentrant", "nonreentrant", "crash"], [40, 18, 20, 22])[0]
    return {"job": j, "cuts": cuts, "mode": mode, "sched": core.gen_sched(rng, 8),
            "crashes": [rng.random() for _ in range(rng.randint(1, 3))],
            "cb": rng.choice([None, None, 1, 2])}


def joined(torch, recs):
    """Receiver data of all pieces (the data of pieces without time steps is empty)."""
    some = [r for r in recs if r.numel()]
    return torch.cat(some, -1) if some else recs[-1]


def aligned(spec):
    return all(c % spec["job"]["interval"] == 0 for c in spec["cuts"])


def chain(spec, sim, j, T, wrap=None):
    """Forward in segments; returns the outputs of the whole."""
    torch = sim.torch
    prop, nd = j["prop"], j["ndim"]
    edges = [0, *spec["cuts"], j["nt"]]
    state, recs = None, []
    over = {}
    if spec.get("cb"):
        over = {"forward_callback": lambda st: None, "callback_frequency": spec["cb"]}
        if not j.get("backend"):
            over["backward_callback"] = lambda st: None
    fn = jobs.field_names(prop, nd)
    for a, b in zip(edges, edges[1:]):
        if wrap is None:
            jj, TT = jobs.cut(j, T, a, b, state)
            o = jobs.call(jj, TT, **over)
        else:
            mods = T["models"]
            names_a = sorted(T["amps"])
            st = state if state is not None else T["init"]
            names_s = list(st)

            def seg(*x, a=a, b=b, first=state is None, names_s=names_s):
                T2 = dict(T)
                T2["models"] = list(x[:len(mods)])
                T2["amps"] = dict(zip(names_a, x[len(mods):len(mods) + len(names_a)]))
                s2 = dict(zip(names_s, x[len(mods) + len(names_a):]))
                if first:
                    T2["init"] = s2
                jj, TT = jobs.cut(j, T2, a, b, None if first else s2)
                return tuple(jobs.call(jj, TT, **over))

            o = wrap(seg, *mods, *[T["amps"][n] for n in names_a], *st.values())
        state = dict(zip(fn, o[:len(fn)]))
        recs.append(o[len(fn):])
    outs = [state[n] for n in fn]
    for i in range(len(jobs.rec_out_names(prop, nd))):
        outs.append(joined(torch, [r[i] for r in recs]))
    return outs


def grads_by_backward(sim, j, T, outs, res):
    lv = jobs.leaves(T)
    l = jobs.loss(j, outs)
    if lv and isinstance(l, sim.torch.Tensor) and l.requires_grad:
        l.backward()
        for n, t in lv.items():
            res[n] = sim.torch.zeros_like(t).detach() if t.grad is None else t.grad.detach().clone()


def in_process(sim, f, cap=0, sched=None):
    """Run f in a forked process under the scheduler; True if it lived to the end."""
    pid = os.fork()
    if pid == 0:
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 2)
            sim.begin(sched, cap)
            f()
            os._exit(0)
        except BaseException:  # noqa: BLE001
            os._exit(7)
    _, st = os.waitpid(pid, 0)
    if os.WIFEXITED(st):
        return os.WEXITSTATUS(st)
    return -os.WTERMSIG(st)


def run(spec, sim):
    j = copy.deepcopy(spec["job"])
    torch = sim.torch
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = sim.scratch
    tol = jobs.tol_of(j) * 10
    if j["store"]["compress"] and j["store"]["mode"] != "none":
        tol = max(tol, 1e-6)
    sim.begin(None)
    ref = jobs.guarded("uninterrupted", jobs.full, j)
    clock = sim.end()
    mode = spec["mode"]
    what = f"{mode} at {spec['cuts']}"
    only = None if aligned(spec) else (lambda n: not n.startswith("g:model"))
    if mode == "crash":
        j["rg"] = {"models": [False] * len(j["batched"]), "amps": False, "init": False}
        if spec["job"]["store"]["mode"] == "disk":
            # processes die while they hold files in the storage directory
            j["rg"]["models"] = list(spec["job"]["rg"]["models"])
        T = jobs.build(j)
        edges = [0, *spec["cuts"], j["nt"]]
        path = os.path.join(sim.scratch, "state.pt")
        fn = jobs.field_names(j["prop"], j["ndim"])
        kills = list(spec["crashes"])
        k = 0
        recs = []
        while k < len(edges) - 1:
            a, b = edges[k], edges[k + 1]

            def step():
                st = torch.load(path) if a else None
                jj, TT = jobs.cut(j, T, a, b, st["fields"] if a else None)
                o = jobs.call(jj, TT)
                d = {"fields": {n: x.detach().clone() for n, x in zip(fn, o)},
                     "recs": (st["recs"] if a else []) + [[x.detach().clone() for x in o[len(fn):]]]}
                torch.save(d, path + ".tmp")
                os.replace(path + ".tmp", path)

            cap = 0
            if kills:
                cap = max(1, int(kills.pop(0) * clock * (b - a) / j["nt"]))
            code = in_process(sim, step, cap, spec["sched"])
            sim.note(code)
            if code == 0:
                k += 1
            elif code == core.EXIT_HANG and cap:
                sim.fault("process-killed")
            else:
                raise core.Violation("restart-failed", f"segment {a}..{b} after restart ended with {code}")
        d = torch.load(path)
        outs = [d["fields"][n] for n in fn]
        for i in range(len(jobs.rec_out_names(j["prop"], j["ndim"]))):
            outs.append(joined(torch, [r[i] for r in d["recs"]]))
        sim.begin(spec["sched"])
        got = jobs.outcome(j, outs)
        got.update({n: x for n, x in ref.items() if n.startswith("g:")})
        sim.end()
        jobs.note(got)
        jobs.compare(got, ref, tol, what, kind="restart-differs")
        return
    T = jobs.build(j)
    wrap = None
    if mode != "chain":
        from torch.utils.checkpoint import checkpoint

        def wrap(f, *a):
            return checkpoint(f, *a, use_reentrant=mode == "reentrant")
    sim.begin(spec["sched"], clock * 60 + 100_000_000)

    def go():
        outs = chain(spec, sim, j, T, wrap)
        res = jobs.outcome(j, outs)
        grads_by_backward(sim, j, T, outs, res)
        return res

    got = jobs.guarded(what, go)
    sim.end()
    sim.probe(mode)
    jobs.note(got)
    want = {n: ref[n] for n in got if n in ref} if set(got) <= set(ref) else ref
    if mode != "reentrant" or jobs.has_grads(j):
        want = ref
    jobs.compare(got, want, tol, what, kind="restart-differs", only=only)


def shrink(spec):
    if spec["mode"] in ("reentrant", "nonreentrant"):
        yield {**spec, "mode": "chain"}
    if len(spec["cuts"]) > 1:
        for i in range(len(spec["cuts"])):
            yield {**spec, "cuts": spec["cuts"][:i] + spec["cuts"][i + 1:]}
    if spec["cb"]:
        yield {**spec, "cb": None}
    if len(spec["crashes"]) > 1:
        yield {**spec, "crashes": spec["crashes"][:1]}
    if spec["job"]["store"]["mode"] != "device" or spec["job"]["store"]["compress"]:
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    for j in jobs.shrink_job(spec["job"]):
        if j["nt"] < 2:
            continue
        c = {**spec, "job": j, "cuts": sorted({min(x, j["nt"] - 1) for x in spec["cuts"]})}
        if aligned(spec) and not aligned(c):
            continue
        yield c
