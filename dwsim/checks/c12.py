"""Gradients do not depend on what happens between and around backpropagations."""
import copy
import gc
import os
import threading

from .. import core, jobs

LEVEL = "exploration"
RUNS = (900, 12000)
RULE = ("Each run interleaves, under seeded schedules, forwards of several propagations, backpropagations of parts of "
        "their outputs to parts of their inputs (repeated while the graph is kept, accumulated, from other threads, in "
        "other grad modes), second derivatives of the scalar equation, in-place changes of inputs and outputs, frozen "
        "leaves and drops; each result is compared with that of a fresh propagation of the same values backpropagated at "
        "once by one worker.")
OPS = ["F", "P", "P", "P", "A", "G1", "G2", "G2", "MI", "MO", "D", "N", "gc", "Z"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    js = []
    base = None
    for _ in range(n):
        j = jobs.gen_job(rng, double=False, prop="scalar" if rng.random() < 0.4 else None, max_shots=4, small=rng.random() < 0.6, long_ok=False)
        if base and rng.random() < 0.5:
            j = copy.deepcopy(base)
            j.pop("backend", None)
            j["store"] = {"mode": "device", "compress": False}
            j["seed"] = rng.getrandbits(40)
        base = j
        j["expand"] = False
        if not jobs.has_grads(j):
            j["rg"]["models"][0] = True
        r = rng.random()
        if r < 0.35:
            j["store"] = {"mode": "disk", "compress": rng.random() < 0.3}
        elif r < 0.5:
            j["store"] = {"mode": "device", "compress": True}
        elif r < 0.55:
            j["store"] = {"mode": "none", "compress": False}
        elif r < 0.6 and j["dtype"] == "double" and j["interval"] == 1:
            j["backend"] = "eager"
            j["nt"] = min(j["nt"], 5)
        js.append(j)
    ops = [["F", k, rng.getrandbits(30), "plain"] for k in range(n)]
    for _ in range(rng.randint(3, 11)):
        ops.append([rng.choice(OPS), rng.randrange(n), rng.getrandbits(30),
                    rng.choices(["plain", "thread", "no_grad", "anomaly", "frozen", "cb"], [60, 10, 8, 5, 10, 7])[0]])
    for k, j in enumerate(js):  # second derivatives, at random later times
        if j["prop"] == "scalar" and not j.get("backend") and rng.random() < 0.7:
            a = rng.randint(n, len(ops))
            ops.insert(a, ["G1", k, rng.getrandbits(30) | 0x3ff, "plain"])
            for _ in range(rng.randint(1, 2)):
                ops.insert(rng.randint(a + 1, len(ops)), ["G2", k, rng.getrandbits(30), rng.choice(["plain", "plain", "thread"])])
    ops.append(["P", rng.randrange(n), rng.getrandbits(30), "plain"])
    return {"jobs": js, "ops": ops, "sched": core.gen_sched(rng, 6), "useed": rng.getrandbits(20)}


def clone(torch, T):
    def cl(t):
        c = t.detach().clone(memory_format=torch.contiguous_format)
        return c.requires_grad_() if t.requires_grad else c
    P = {"models": [cl(t) for t in T["models"]], "bgrec": None if T["bgrec"] is None else cl(T["bgrec"])}
    for g in ("amps", "src", "rec", "init"):
        P[g] = {n: cl(t) for n, t in T[g].items()}
    return P


def pick(r, n, at_least=1):
    """A subset of range(n) from the bits of r."""
    s = [i for i in range(n) if (r >> i) & 1]
    return s or ([r % n] if n and at_least else [])


def cots(torch, outs, idx, salt):
    g = torch.Generator().manual_seed(salt)
    return [torch.randn(outs[i].shape, generator=g, dtype=torch.double).to(outs[i].dtype) for i in idx]


def vjp(torch, outs, lv, r, keep, create=False):
    """Backpropagate random cotangents of some outputs to some leaves."""
    can = [i for i, o in enumerate(outs) if o.requires_grad and o.numel()]
    if not can or not lv:
        return None
    oi = [can[k] for k in pick(r, len(can))]
    names = list(lv)
    ln = [names[k] for k in pick(r >> 11, len(names))]
    gr = torch.autograd.grad([outs[i] for i in oi], [lv[n] for n in ln], grad_outputs=cots(torch, outs, oi, r),
                             allow_unused=True, retain_graph=keep, create_graph=create)
    return dict(zip(ln, gr))


def plain(torch, d, lv):
    return {n: torch.zeros_like(lv[n]).detach() if x is None else x.detach().clone() for n, x in d.items()}


def run(spec, sim):
    torch = sim.torch
    js = copy.deepcopy(spec["jobs"])
    st = os.path.join(sim.scratch, "st")
    os.mkdir(st)
    for j in js:
        j["store"]["path"] = st
    data = [jobs.build(j) for j in js]  # the tensors of each propagation, reused
    live = {}  # i -> graph
    first = {}  # i -> first derivatives with their own graph
    done = 0
    cap = [50_000_000]

    class G:
        pass

    def how_run(how, f):
        if how == "thread":
            box = []

            def body():
                try:
                    box.append((True, f()))
                except BaseException as e:  # noqa: BLE001
                    box.append((False, e))
            t = threading.Thread(target=body)
            t.start()
            t.join()
            if not box[0][0]:
                raise box[0][1]
            return box[0][1]
        if how == "no_grad":
            with torch.no_grad():
                return f()
        if how == "anomaly":
            with torch.autograd.detect_anomaly():
                return f()
        return f()

    def reference(g, r, second=None):
        """The same derivatives at once, from fresh tensors, by one worker."""
        sim.begin(None)
        P = clone(torch, g.at)
        outs = jobs.call(js[g.i], P)
        lv = jobs.leaves(P)
        d = vjp(torch, outs, lv, r, second is not None, create=second is not None)
        if d is None:
            res = None
        elif second is None:
            res = plain(torch, d, lv)
        else:
            res = derive2(d, lv, second, False)
        cap[0] = max(cap[0], sim.end() * 60 + 50_000_000)
        return res

    def derive2(d, lv, r, keep):
        use = [x for x in d.values() if x is not None and x.requires_grad]
        if not use:
            return None
        h = vjp(torch, use, lv, r, keep)
        return None if h is None else plain(torch, h, lv)

    def attempt(g, what, how, f):
        """None if the graph can no longer be used because a tensor was changed."""
        if how == "frozen":
            frozen = [t for t in jobs.leaves(data[g.i]).values()]
        try:
            return how_run(how, f)
        except RuntimeError as e:
            if g.changed and ("inplace" in str(e) or "in-place" in str(e)):
                sim.probe("in-place change reported")
                e.__traceback__ = None
                live.pop(g.i, None)
                first.pop(g.i, None)
                return None
            raise core.Violation("unexpected-exception", f"{what}: {type(e).__name__}: {str(e)[:250]}") from e
        finally:
            frozen = None

    for k, (o, i, r, how) in enumerate(spec["ops"]):
        j, T = js[i], data[i]
        what = f"op {k} {o}{i} ({how})"
        g = live.get(i)
        tol = jobs.tol_of(j)
        if o == "gc":
            gc.collect()
        elif o == "N":  # something unrelated
            sim.begin(spec["sched"], cap[0])
            jobs.guarded(what, jobs.full, dict(j, seed=r))
            sim.end()
        elif o == "D":
            live.pop(i, None)
            first.pop(i, None)
        elif o == "F":
            g = G()
            g.i, g.at, g.changed = i, clone(torch, T), False
            ov = {}
            if how == "cb" and not j.get("backend"):
                ov = {"callback_frequency": 1 + r % 3, "backward_callback": lambda s: None, "forward_callback": lambda s: None}
            sim.begin(spec["sched"], cap[0])
            if how == "thread":
                g.outs = jobs.guarded(what, how_run, "thread", lambda: jobs.call(j, T, **ov))
            else:
                g.outs = jobs.guarded(what, jobs.call, j, T, **ov)
            sim.end()
            live[i] = g
            first.pop(i, None)
        elif g is None:
            continue
        elif o in ("P", "A"):
            ref = jobs.guarded(what + " at once", reference, g, r)
            if ref is None:
                continue
            keep = r % 4 != 0
            lv = jobs.leaves(T)
            sim.begin(spec["sched"], cap[0])
            if how == "frozen":
                # other leaves stop wanting gradients meanwhile
                names = list(lv)
                mine = [names[q] for q in pick(r >> 11, len(names))]
                off = [n for n in names if n not in mine]
                for n in off:
                    lv[n].requires_grad_(False)
                got = attempt(g, what, "plain", lambda: vjp(torch, g.outs, lv, r, keep))
                for n in off:
                    lv[n].requires_grad_(True)
            elif o == "A":
                for t in lv.values():
                    t.grad = None
                can = [q for q, x in enumerate(g.outs) if x.requires_grad and x.numel()]
                oi = [can[q] for q in pick(r, len(can))]
                names = list(lv)
                ln = [names[q] for q in pick(r >> 11, len(names))]
                cs = cots(torch, g.outs, oi, r)
                got = {}
                # one output at a time adds up to all of them at once
                for q, (a, c) in enumerate(zip(oi, cs)):
                    z = attempt(g, what, how, lambda a=a, c=c, q=q: (g.outs[a].backward(
                        c, retain_graph=keep or q < len(oi) - 1, inputs=[lv[n] for n in ln]), 1))
                    if z is None:
                        got = None
                        break
                if got is not None:
                    got = {n: lv[n].grad for n in ln}
            else:
                got = attempt(g, what, how, lambda: vjp(torch, g.outs, lv, r, keep))
            sim.end()
            if not keep:
                live.pop(i, None)
            if got is None:
                continue
            got = plain(torch, got, lv)
            jobs.note(got)
            jobs.compare(got, ref, tol, what, kind="history")
            done += 1
            sim.probe("derivatives")
            for t in lv.values():
                t.grad = None
        elif o == "G1" and j["prop"] == "scalar" and not j.get("backend"):
            sim.begin(spec["sched"], cap[0])
            d = attempt(g, what, "plain" if how in ("no_grad", "frozen") else how,
                        lambda: vjp(torch, g.outs, jobs.leaves(T), r, True, create=True))
            sim.end()
            if d is not None:
                first[i] = (d, r, g)
        elif o == "G2" and i in first:
            d, r1, g1 = first[i]
            ref = jobs.guarded(what + " at once", reference, g1, r1, r)
            if ref is None:
                continue
            keep = r % 4 != 0
            sim.begin(spec["sched"], cap[0])
            got = attempt(g1, what, how if how != "frozen" else "plain", lambda: (derive2(d, jobs.leaves(T), r, keep),))
            sim.end()
            if not keep:
                first.pop(i, None)
                live.pop(i, None)  # the graph of the first derivatives leads through it
            if got is None:
                continue
            jobs.note(got[0])
            jobs.compare(got[0], ref, tol * 10, what, kind="history-second")
            done += 1
            sim.probe("second derivatives")
        elif o == "MI":
            ts = jobs.inputs(T)
            n = sorted(ts)[r % len(ts)]
            with torch.no_grad():
                if ts[n].is_floating_point():
                    ts[n].mul_(1.01 if r & 64 else 0.99)
                else:
                    ts[n].copy_(ts[n].flip(1))
            g.changed = True
            sim.probe("input changed in place")
        elif o == "MO":
            with torch.no_grad():
                x = g.outs[r % len(g.outs)]
                x.detach().mul_(-2.0)
            g.changed = True
            sim.probe("output changed in place")
        elif o == "Z":
            for d in first.get(i, ({},))[0].values():
                if d is not None:
                    g.changed = True
                    d.detach().zero_()
    if not done:
        raise core.Skip("no derivative was taken")
    live.clear()
    first.clear()
    g = d = got = ref = None
    gc.collect()


def shrink(spec):
    ops = spec["ops"]
    for n in (len(ops) // 2, len(ops) // 4, 1):
        if n:
            for a in range(0, len(ops), n):
                if len(ops) > n:
                    yield {**spec, "ops": ops[:a] + ops[a + n:]}
    for a, o in enumerate(ops):
        if o[3] != "plain":
            yield {**spec, "ops": ops[:a] + [[*o[:3], "plain"]] + ops[a + 1:]}
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
    for i in range(len(spec["jobs"])):
        for j in jobs.shrink_job(spec["jobs"][i]):
            c = copy.deepcopy(spec)
            c["jobs"][i] = j
            yield c
        if spec["jobs"][i]["store"]["mode"] != "device" or spec["jobs"][i]["store"]["compress"]:
            c = copy.deepcopy(spec)
            c["jobs"][i]["store"] = {"mode": "device", "compress": False}
            yield c
