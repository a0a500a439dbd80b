"""What the caller passes is never written to, at any instant, and results share no memory with it."""
import copy
import ctypes
import os
import sys

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1000, 15000)
RULE = ("Each run propagates and backpropagates (twice for the scalar equation) under a seeded schedule with inputs and "
        "cotangents in random layouts (views with gaps, transposed, expanded, sharing one buffer, one object for several "
        "arguments); all their memory, gaps included, is compared with its copy at every line of the package, in every "
        "callback and after every store of the compiled code into it, and results are checked for shared memory and "
        "against those of plain copies.")
LAYOUTS = ["plain", "plain", "gap", "stride", "transpose", "offset", "expand", "first", "first", "channels", "channels", "reverse", "last"]


class Guard(ctypes.Structure):
    _fields_ = [("lo", ctypes.c_void_p), ("hi", ctypes.c_void_p), ("copy", ctypes.c_void_p)]


def gen(rng, tier):
    j = jobs.gen_job(rng, double=False, max_shots=5, small=rng.random() < 0.5, long_ok=False)
    j["expand"] = j["noncontig"] = False
    if rng.random() < 0.08 and j["dtype"] == "double":
        j["backend"] = "eager"
        j["nt"] = min(j["nt"], 5)
        j["interval"] = 1
    elif rng.random() < 0.4:
        j["store"] = {"mode": rng.choice(["disk", "device", "none"]), "compress": rng.random() < 0.4}
    if rng.random() < 0.3:  # nothing to pad
        j["pml"] = [0] * (2 * j["ndim"])
        jobs.fix(j)
    if rng.random() < 0.2:  # nothing to reorder
        j["shots"] = j["nsrc"] = j["nrec"] = 1
        j.pop("uneven", None)
        if rng.random() < 0.7:
            j["rg"]["amps"] = False
        jobs.fix(j)
    s = {"job": j, "sched": core.gen_sched(rng, 6), "useed": rng.getrandbits(20),
         "layouts": [rng.choice(LAYOUTS) for _ in range(40)], "same": [], "pack": rng.random() < 0.25,
         "retain": rng.random() < 0.5, "double": j["prop"] == "scalar" and not j.get("backend") and rng.random() < 0.5,
         "lines": rng.choice([1, 1, 3])}
    if rng.random() < 0.3:
        s["odd"] = rng.randint(1, 40)
    if rng.random() < 0.3:
        s["layouts"] = ["plain"] * 40
    elif j["ndim"] == 3 and rng.random() < 0.6:
        s["layouts"] = [rng.choice([x, "channels", "last"]) for x in s["layouts"]]
        if rng.random() < 0.5:
            j["batched"] = [True] * len(j["batched"])
    if rng.random() < 0.3:
        s["same"] = [g for g in ("init", "amps", "src", "rec") if rng.random() < 0.6]
        if s["same"]:
            j.pop("uneven", None)
    if rng.random() < 0.35 and not j.get("backend"):
        s["cb"] = [rng.choice(["f", "b", "fb"]), rng.choice([1, 2, 3])]
    return s


def lay(torch, t, kind):
    """The values of t in other surroundings."""
    if kind == "expand":
        if t.ndim and t.shape[0] > 1 and bool((t == t[:1]).all()):
            return t[:1].clone().expand(t.shape)
        kind = "offset"
    fill = float("nan") if t.is_floating_point() else 77
    if kind == "plain" or t.numel() == 0:
        return t.clone()
    if kind == "gap":
        b = torch.full([n + 2 for n in t.shape], fill, dtype=t.dtype)
        v = b[tuple(slice(1, n + 1) for n in t.shape)]
    elif kind == "stride":
        b = torch.full([*t.shape[:-1], 2 * t.shape[-1]], fill, dtype=t.dtype)
        v = b[..., ::2]
    elif kind == "first" and t.ndim > 1:  # as the package orders it internally
        v = torch.full([t.shape[-1], *t.shape[:-1]], fill, dtype=t.dtype).movedim(0, -1)
    elif kind == "channels" and t.ndim > 2:  # as images are often kept
        v = torch.full([t.shape[0], *t.shape[2:], t.shape[1]], fill, dtype=t.dtype).movedim(-1, 1)
    elif kind == "last" and t.ndim > 1:
        v = torch.full([*t.shape[1:], t.shape[0]], fill, dtype=t.dtype).movedim(-1, 0)
    elif kind == "reverse" and t.ndim > 1:
        v = torch.full(list(t.shape[::-1]), fill, dtype=t.dtype).permute(*range(t.ndim - 1, -1, -1))
    elif kind == "transpose" and t.ndim > 1:
        v = torch.full([*t.shape[:-2], t.shape[-1], t.shape[-2]], fill, dtype=t.dtype).transpose(-1, -2)
    else:
        b = torch.full([t.numel() + 5], fill, dtype=t.dtype)
        v = b[3:3 + t.numel()].view(t.shape)
    v.copy_(t)
    return v


def arrange(spec, j, torch):
    """The inputs as the caller holds them, and plain copies of each."""
    T0 = jobs.build(j)
    wanted = {n: t.requires_grad for n, t in jobs.inputs(T0).items()}
    k = [0]

    def nxt():
        k[0] += 1
        return spec["layouts"][k[0] % len(spec["layouts"])]

    def one(t):
        t = t.detach()
        if t.is_floating_point():
            t = odd(torch, t.clone(), spec)
        r = lay(torch, t, nxt())
        return r

    T = dict(T0)
    ms = [m.detach() for m in T0["models"]]
    if spec["pack"] and len({m.shape for m in ms}) == 1 and len(ms) > 1:
        base = torch.stack(ms)
        T["models"] = [base[i] for i in range(len(ms))]
    else:
        T["models"] = [lay(torch, m, nxt()) for m in ms]
    for g in ("amps", "src", "rec", "init"):
        T[g] = {n: one(t) for n, t in T0[g].items()}
        if g in spec["same"] and T[g]:
            first = next(iter(T[g].values()))
            T[g] = {n: first for n in T[g]}
    if T0["bgrec"] is not None:
        T["bgrec"] = next(iter(T["rec"].values())) if "rec" in spec["same"] and T["rec"] else one(T0["bgrec"])
    T.pop("base", None)
    for n, t in jobs.inputs(T).items():
        if wanted[n]:
            t.requires_grad_()
    P = copy.copy(T)

    def cl(t):
        c = t.detach().clone(memory_format=torch.contiguous_format)
        return c.requires_grad_() if t.requires_grad else c
    P["models"] = [cl(t) for t in T["models"]]
    for g in ("amps", "src", "rec", "init"):
        P[g] = {n: cl(t) for n, t in T[g].items()}
    if P["bgrec"] is not None:
        P["bgrec"] = cl(P["bgrec"])
    return T, P


def odd(torch, t, spec):
    """With values that arithmetic easily changes in passing."""
    if spec.get("odd") and t.numel() > 2:
        f = t.view(-1)
        f[spec["odd"] % t.numel()] = -0.0
        f[(spec["odd"] + 1) % t.numel()] = torch.finfo(t.dtype).tiny / 64
    return t


class Watch:
    """All memory that belongs to the caller."""

    def __init__(self, sim):
        self.sim, self.torch = sim, sim.torch
        self.items = []  # name, storage bytes, copy
        self.seen = {}
        self.versions = []  # name, tensor, version
        self.count = 0

    def add(self, name, t):
        if not name.startswith("output"):
            self.versions.append((name, t, t._version))
        st = t.untyped_storage()
        if st.nbytes() == 0 or st.data_ptr() in self.seen:
            return
        self.seen[st.data_ptr()] = name
        v = self.torch.empty(0, dtype=self.torch.uint8).set_(st).numpy()
        self.items.append((name, v, v.copy()))

    def arm(self):
        gs = (Guard * max(1, len(self.items)))(*[
            Guard(v.ctypes.data, v.ctypes.data + v.nbytes, c.ctypes.data) for _, v, c in self.items])
        self.keep = gs
        self.sim.L.dwsim_guard(ctypes.byref(gs), len(self.items))

    def disarm(self):
        self.sim.L.dwsim_guard(None, 0)

    def check(self, when):
        self.count += 1
        for name, v, c in self.items:
            if (v != c).any():
                raise core.Violation("input-modified", f"{when}: {name} changed")
        for name, t, v in self.versions:
            if t._version != v:
                raise core.Violation("input-modified", f"{when}: {name} was written to")

    def stores(self, what):
        n, c, w = ctypes.c_uint64(), ctypes.c_uint64(), ctypes.c_int()
        if self.sim.L.dwsim_guard_bad(ctypes.byref(n), ctypes.byref(c), ctypes.byref(w)):
            raise core.Violation("input-modified", f"{what}: the compiled code changed {self.items[w.value][0]} at event {c.value}")


def derivatives(spec, j, T, torch, sim, outs, cot, cot2, watch=None):
    """Gradients (and second ones) for explicit cotangents, as a dict."""
    res = {}
    lv = jobs.leaves(T)
    use = [(o, c) for o, c in zip(outs, cot) if c is not None and o.requires_grad]
    if not lv or not use:
        return res, None
    names, ts, seen = [], [], {}
    for n, t in lv.items():
        if id(t) in seen:
            seen[id(t)].append(n)
        else:
            seen[id(t)] = [n]
            names.append(n)
            ts.append(t)

    def grads(o, c, create=False, retain=False):
        g = torch.autograd.grad([x for x in o], ts, grad_outputs=list(c), allow_unused=True, create_graph=create, retain_graph=retain)
        return dict(zip(names, g))

    g = grads([o for o, _ in use], [c for _, c in use], create=spec["double"], retain=spec["retain"] or spec["double"])
    raw = dict(g)
    for n in names:
        res[n] = torch.zeros_like(dict(zip(names, ts))[n]).detach() if g[n] is None else g[n].detach().clone()
    if spec["double"]:
        gs = [(n, x) for n, x in g.items() if x is not None and x.requires_grad]
        if gs:
            c2 = [cot2(n, x) for n, x in gs]
            if watch is not None:
                watch.items[:] = [i for i in watch.items if not i[0].startswith("second")]
                watch.versions[:] = [i for i in watch.versions if not i[0].startswith("second")]
                for (n, _), c in zip(gs, c2):
                    watch.add("second cotangent of " + n, c)
                watch.arm()
            h = grads([x for _, x in gs], c2, retain=spec["retain"])
            for n in names:
                res["h" + n[1:]] = torch.zeros_like(dict(zip(names, ts))[n]).detach() if h[n] is None else h[n].detach().clone()
                raw["h" + n[1:]] = h[n]
    return res, (raw, use, grads)


def run(spec, sim):
    torch = sim.torch
    j = copy.deepcopy(spec["job"])
    st = os.path.join(sim.scratch, "st")
    os.mkdir(st)
    j["store"]["path"] = st
    T, P = arrange(spec, j, torch)
    tol = jobs.tol_of(j)
    lays = spec["layouts"]

    def cotangents(outs, plain, salt=0):
        g = torch.Generator().manual_seed(j["seed"] ^ 0x5A5A5A ^ salt)
        r = []
        for i, o in enumerate(outs):
            if o is None or o.numel() == 0:
                r.append(None)
                continue
            w = odd(torch, torch.randn(o.shape, generator=g, dtype=torch.double).to(o.dtype), spec)
            k = lays[(i * 7 + 3 + salt) % len(lays)]
            if k == "expand":
                w = w.flatten()[:1].expand(o.numel()).reshape(o.shape) if plain else w.flatten()[:1].clone()[0].expand(o.shape)
                r.append(w.clone() if plain else w)
            else:
                r.append(w if plain else lay(torch, w, k))
        return r

    def second(plain):
        def f(n, x):
            return cotangents([x], plain, salt=1 + sum(map(ord, n)))[0]
        return f

    # plain copies, one worker
    sim.begin(None)
    o = jobs.guarded("plain copies", jobs.call, j, P)
    ref = jobs.outcome(j, o)
    d, _ = jobs.guarded("plain copies, backward", derivatives, spec, j, P, torch, sim, o, cotangents(o, True), second(True))
    ref.update(d)
    cap = sim.end() * 40 + 50_000_000
    del o

    w = Watch(sim)
    for n, t in jobs.inputs(T).items():
        w.add("input " + n, t)
    flags = {n: (t.requires_grad, t._version, t.data_ptr(), tuple(t.shape), t.stride(), t.storage_offset())
             for n, t in jobs.inputs(T).items()}
    over = {}
    if spec.get("cb"):
        over["callback_frequency"] = spec["cb"][1]
        for k, n in (("f", "forward_callback"), ("b", "backward_callback")):
            if k in spec["cb"][0]:
                over[n] = lambda s, k=k: w.check(f"{k} callback at step {s.step}")
    lines = [0]

    def line(fr):
        lines[0] += 1
        if lines[0] % spec["lines"] == 0:
            w.check(f"at {os.path.basename(fr.f_code.co_filename)}:{fr.f_lineno}")

    def traced(what, f, *a, **k):
        w.arm()
        sys.settrace(sim.trace(line))
        try:
            r = jobs.guarded(what, f, *a, **k)
        finally:
            sys.settrace(None)
        w.stores(what)
        w.check("after the " + what)
        w.disarm()
        for n, t in jobs.inputs(T).items():
            if flags[n] != (t.requires_grad, t._version, t.data_ptr(), tuple(t.shape), t.stride(), t.storage_offset()):
                raise core.Violation("input-modified", f"{what}: input {n} is not the tensor it was")
        return r

    sim.begin(spec["sched"], cap)
    outs = traced("forward", jobs.call, j, T, **over)
    got = jobs.outcome(j, outs)
    kept = [o.detach().clone() for o in outs]
    cot = cotangents(outs, False)
    for o, c in zip(outs, cot):
        if c is not None:
            w.add("cotangent", c)
    for n, o in zip(jobs.out_names(j["prop"], j["ndim"]), outs):
        w.add("output " + n, o)
    d, x = traced("backward", derivatives, spec, j, T, torch, sim, outs, cot, second(False), w)
    sim.end()
    got.update(d)
    jobs.note(got)
    # gradients of one object used for several arguments add up
    want = dict(ref)
    byid = {}
    for n, t in jobs.leaves(T).items():
        byid.setdefault(id(t), []).append(n)
    for ns in byid.values():
        for pre in ("g", "h"):
            ks = [pre + n[1:] for n in ns]
            if ks[0] in ref and len(ks) > 1 and pre == "g":
                want[ks[0]] = sum(ref[k] for k in ks)
                for k in ks[1:]:
                    want.pop(k)
    if any(len(v) > 1 for v in byid.values()) and spec["double"]:
        want = {n: v for n, v in want.items() if not n.startswith("h")}
        got = {n: v for n, v in got.items() if not n.startswith("h")}
    jobs.compare(got, want, tol, "layout of the inputs vs plain copies", kind="layout-dependence")
    # nothing shares memory: write to each result in turn
    results = [("output " + n, o.detach()) for n, o in zip(jobs.out_names(j["prop"], j["ndim"]), outs) if o.numel()]
    if x:
        results += [("gradient " + n, t.detach()) for n, t in x[0].items() if t is not None]
    vals = [t.clone() for _, t in results]

    def same(a, b):
        return torch.equal(torch.nan_to_num(a.detach(), nan=1e77) if a.is_floating_point() else a,
                           torch.nan_to_num(b.detach(), nan=1e77) if b.is_floating_point() else b)

    if x and spec["retain"] and not spec["double"]:
        # what the caller does to gradients must not matter to the graph
        for n, t in x[0].items():
            if t is not None and 0 not in t.stride():
                t.detach().mul_(0).add_(float("inf"))
        sim.begin(spec["sched"], cap)
        g2 = jobs.guarded("second backward", x[2], [o for o, _ in x[1]], [c for _, c in x[1]])
        sim.end()
        jobs.compare({n: torch.zeros_like(d[n]) if g is None else g.detach() for n, g in g2.items()},
                     {n: d[n] for n in g2}, tol, "backward repeated after its gradients were overwritten", kind="aliasing")
        for (n, t), v in zip(results, vals):
            if n.startswith("gradient") and 0 not in t.stride():
                t.copy_(v)
    for i, (n, t) in enumerate(results):
        if any(s == 0 and z > 1 for s, z in zip(t.stride(), t.shape)):
            continue
        t.add_(1.0)
        w2 = [(m, v) for k, ((m, u), v) in enumerate(zip(results, vals)) if k != i and not same(u, v)]
        if w2:
            raise core.Violation("aliasing", f"{n} shares memory with {w2[0][0]}")
        t.copy_(vals[i])
    for n, t in results:
        if not any(s == 0 and z > 1 for s, z in zip(t.stride(), t.shape)):
            t.add_(1.0)
    w.items[:] = [q for q in w.items if not q[0].startswith("output")]
    w.check("after results were overwritten")
    del kept
    if w.count < 5:
        raise core.Skip("nothing watched")
    sim.probe("comparisons", w.count)
    sim.probe("lines", lines[0])


def shrink(spec):
    if any(x != "plain" for x in spec["layouts"]):
        yield {**spec, "layouts": ["plain"] * 40}
        for i, x in enumerate(spec["layouts"]):
            if x != "plain":
                yield {**spec, "layouts": spec["layouts"][:i] + ["plain"] + spec["layouts"][i + 1:]}
    if spec["same"]:
        yield {**spec, "same": []}
    for k in ("pack", "retain", "double", "odd"):
        if spec.get(k):
            yield {**spec, k: False}
    if spec.get("cb"):
        yield {**spec, "cb": None}
    if spec["job"]["store"]["mode"] != "device" or spec["job"]["store"]["compress"]:
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
    for j in jobs.shrink_job(spec["job"]):
        yield {**spec, "job": j}
