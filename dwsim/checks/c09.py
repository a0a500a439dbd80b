"""Callers in several threads get what each would get alone."""
import copy
import json
import os

from .. import core, jobs

LEVEL = "exploration"
RUNS = (650, 12000)
RULE = ("Each run lets two to four caller threads propagate and backpropagate at the same time, handing over at Python "
        "lines of the package and at memory accesses of the compiled code, each with its own simulated workers: own "
        "models, shared models, shared storage directories, backpropagation of the same graph, or accumulation of "
        "gradients into the same tensors; results are compared with those of the callers run one after another.")


def gen(rng, tier):
    nj = rng.choices([1, 2, 3], [25, 45, 30])[0]
    js = [jobs.gen_job(rng, max_shots=4, small=rng.random() < 0.7, long_ok=False) for _ in range(nj)]
    for k in range(1, nj):
        if rng.random() < 0.5:  # the same compiled function with other parameters
            js[k] = jobs.gen_job(rng, prop=js[0]["prop"], ndim=js[0]["ndim"], max_shots=4, small=True, long_ok=False)
            js[k].update(acc=js[0]["acc"], dtype=js[0]["dtype"], dx=[rng.choice([0.8, 1.0, 1.3]) for _ in js[k]["dx"]])
            jobs.fix(js[k])
    for j in js:
        if not any(j["rg"]["models"]) and rng.random() < 0.8:
            j["rg"]["models"][0] = True
        if rng.random() < 0.45:
            j["store"] = {"mode": rng.choice(["disk", "disk", "device"]), "compress": rng.random() < 0.5,
                          "path": rng.choice(["st", "st", "st/x", "other"])}
        elif rng.random() < 0.08 and j["dtype"] == "double":
            j["backend"] = "eager"
    n = rng.choices([2, 3, 4], [65, 25, 10])[0]
    clients = []
    for _ in range(n):
        acts = []
        for _ in range(rng.choices([1, 2, 3], [60, 30, 10])[0]):
            k = rng.randrange(nj)
            kind = rng.choices(["full", "forward", "graph", "accumulate", "shared"], [40, 8, 24, 10, 18])[0]
            a = {"kind": kind, "job": k}
            if rng.random() < 0.25 and kind in ("full", "forward") and not js[k].get("backend"):
                a["cb"] = [rng.choice(["f", "b", "fb"]), rng.choice([1, 2, 3])]
            acts.append(a)
        clients.append(acts)
    s = core.gen_sched(rng, 6)
    s["client"] = rng.choice([30, 200, 1000, 5000, 30000])
    if rng.random() < 0.3:
        s["threads"] = [1]
    return {"jobs": js, "clients": clients, "sched": s, "useed": rng.getrandbits(20)}


def tensors_grad(sim, j, T, outs, keep):
    torch = sim.torch
    res = jobs.outcome(j, outs)
    lv = jobs.leaves(T)
    l = jobs.loss(j, outs)
    if isinstance(l, torch.Tensor) and l.requires_grad:
        jobs.derive(j, l, lv, res, keep=keep)
    return res


def observed(sim, j, cb, kind):
    """A propagation and what its callbacks are shown."""
    over, states = {}, []
    if cb:
        over["callback_frequency"] = cb[1]

        def look(st):
            names, mnames, gnames = jobs.shown(st)
            o = {"o:" + n: st.get_wavefield(n).detach().clone() for n in names}
            o.update({"o:model " + n: st.get_model(n).detach().clone() for n in mnames})
            states.append((st, st.step, st.dt, o))
        if "f" in cb[0]:
            over["forward_callback"] = look
        if "b" in cb[0]:
            over["backward_callback"] = look
    if kind == "full":
        r = jobs.full(j, **over)
    else:
        with sim.torch.no_grad():
            r = jobs.outcome(j, jobs.call(j, jobs.build(j), **over))
    # callers may keep what they were given
    seen = [(step, dt, o, {n: tuple(st.get_wavefield(n).shape) for n in jobs.shown(st)[0]}) for st, step, dt, o in states]
    states.clear()  # with second derivatives the graph, which keeps the callback, holds on to what it is shown
    return r, (jobs.tol_of(j), seen)


def check_seen(key, got, alone):
    tol, got = got
    want = alone[key][1]
    if [(g[0], g[1], sorted(g[2])) for g in got] != [(w[0], w[1], sorted(w[2])) for w in want]:
        raise core.Violation("concurrency", f"callbacks {[g[:2] for g in got]}, alone {[w[:2] for w in want]}")
    for g, w in zip(got, want):
        jobs.compare(g[2], w[2], max(tol, 1e-8), f"shown to a callback at step {g[0]} vs alone", kind="concurrency")
        if g[3] != w[3]:
            raise core.Violation("concurrency", f"views of a callback at step {g[0]} have shapes {g[3]}, alone {w[3]}")


def run(spec, sim):
    torch = sim.torch
    js = copy.deepcopy(spec["jobs"])
    for j in js:
        if j["store"].get("path"):
            j["store"]["path"] = os.path.join(sim.scratch, j["store"]["path"])
    refs, clock = [], 0
    for j in js:
        sim.begin(None)
        refs.append(jobs.guarded("alone", jobs.full, j))
        clock += sim.end()
    alone = {}
    for a in {json.dumps([a["job"], a["cb"]]): a for acts in spec["clients"] for a in acts if a.get("cb")}.values():
        for kind in ("full", "forward"):
            key = json.dumps([a["job"], a["cb"], kind])
            sim.begin(None)
            alone[key] = jobs.guarded("alone", observed, sim, js[a["job"]], a["cb"], kind)[1]
            sim.end()
    # what the callers share
    shared, graphs, acc = {}, {}, {}
    sim.begin({"strategy": core.SEQ, "threads": [1]})
    for acts in spec["clients"]:
        for a in acts:
            k = a["job"]
            if a["kind"] == "graph" and k not in graphs:
                T = jobs.build(js[k])
                graphs[k] = (T, jobs.guarded("shared forward", jobs.call, js[k], T))
            elif a["kind"] == "shared" and k not in shared:
                shared[k] = jobs.shared(js[k])
            elif a["kind"] == "accumulate":
                acc.setdefault(k, [jobs.shared(js[k]), 0])[1] += 1
    sim.end()
    accum_ran = {}

    def caller(acts):
        def f():
            out = []
            for a in acts:
                k = a["job"]
                j = js[k]
                if a["kind"] in ("full", "forward"):
                    r, seen = observed(sim, j, a.get("cb"), a["kind"])
                    if a.get("cb"):
                        check_seen(json.dumps([k, a["cb"], a["kind"]]), seen, alone)
                    out.append(r)
                elif a["kind"] == "graph":
                    out.append(tensors_grad(sim, j, *graphs[k], True))
                elif a["kind"] == "shared":
                    out.append(jobs.full(j, shared[k]))
                else:
                    T = acc[k][0]
                    outs = jobs.call(j, T)
                    l = jobs.loss(j, outs)
                    if isinstance(l, torch.Tensor) and l.requires_grad:
                        l.backward()
                    accum_ran[k] = accum_ran.get(k, 0) + 1
                    out.append(jobs.outcome(j, outs))
            return out
        return f

    cap = clock * 200 * len(spec["clients"]) + 200_000_000
    sim.begin(spec["sched"], cap)
    outcomes = sim.clients([caller(a) for a in spec["clients"]])
    sim.end()
    for c, (o, acts) in enumerate(zip(outcomes, spec["clients"])):
        if o[0] == "exc":
            e = o[1]
            import traceback
            if not any("/pkg/deepwave/" in f.filename for f in traceback.extract_tb(e.__traceback__)) \
                    and not isinstance(e, RuntimeError):
                raise e
            raise core.Violation("unexpected-exception", f"caller {c}: {type(e).__name__}: {str(e)[:300]}")
        for a, got in zip(acts, o[1]):
            jobs.note(got)
            want = {n: refs[a["job"]][n] for n in got}
            if a["kind"] not in ("forward", "accumulate"):
                want = refs[a["job"]]
            jobs.compare(got, want, jobs.tol_of(js[a["job"]]), f"caller {c} ({a['kind']}) among {len(acts)} vs alone",
                         kind="concurrency")
            sim.probe("act:" + a["kind"])
    for k, n in accum_ran.items():
        T = acc[k][0]
        got = {m: (torch.zeros_like(t).detach() if t.grad is None else t.grad) for m, t in jobs.leaves(T).items()}
        want = {m: refs[k][m] * n for m in got}
        jobs.compare(got, want, jobs.tol_of(js[k]), f"gradients accumulated by {n} callers", kind="concurrency")
    # everything is dropped
    graphs.clear()
    shared.clear()
    acc.clear()
    del outcomes
    import gc
    gc.collect()
    left = [os.path.join(d, f) for p in ("st", "other") for d, _, fs in os.walk(os.path.join(sim.scratch, p)) for f in fs]
    if left:
        raise core.Violation("leftover", f"{len(left)} files left after all callers finished")


def shrink(spec):
    n = len(spec["clients"])
    for i in range(n):
        if n > 2:
            yield {**spec, "clients": spec["clients"][:i] + spec["clients"][i + 1:]}
    for i in range(n):
        for k in range(len(spec["clients"][i])):
            if len(spec["clients"][i]) > 1:
                c = copy.deepcopy(spec)
                c["clients"][i].pop(k)
                yield c
    for i in range(n):
        for k, a in enumerate(spec["clients"][i]):
            if a.get("cb"):
                c = copy.deepcopy(spec)
                del c["clients"][i][k]["cb"]
                yield c
            if a["kind"] in ("shared", "accumulate"):
                c = copy.deepcopy(spec)
                c["clients"][i][k]["kind"] = "full"
                yield c
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
    used = {a["job"] for acts in spec["clients"] for a in acts}
    for i in sorted(used):
        for j in jobs.shrink_job(spec["jobs"][i]):
            c = copy.deepcopy(spec)
            c["jobs"][i] = j
            yield c
        if spec["jobs"][i]["store"]["mode"] != "device" or spec["jobs"][i]["store"]["compress"]:
            c = copy.deepcopy(spec)
            c["jobs"][i]["store"] = {"mode": "device", "compress": False}
            yield c
