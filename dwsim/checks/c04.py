"""What callbacks are shown, and what they change, follows the documented protocol."""
import copy

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1150, 12000)
RULE = ("Each run records everything callbacks are shown at a random cadence under a seeded schedule and compares it "
        "with an executable reference: the call order, the state of a propagation stopped or restarted at that step, "
        "the models, the effect of edits made in place (forward wavefields, backward gradients).")
VIEWS = ["inner", "pml", "full"]


def gen(rng, tier):
    j = jobs.gen_job(rng, double=False, module=False, max_shots=4, long_ok=False, dtypes=False)
    for k in ("cb", "extra"):
        j.pop(k, None)
    j.pop("survey_pad", None)
    j["nt"] = min(j["nt"], 12)
    j["ratio"] = 1
    j.pop("taper", None)
    if j["seed"] % 100 >= 88:
        # refined steps: without sources or receivers, which are resampled as a whole
        j.update(ratio=2 + j["seed"] % 2, nt=min(j["nt"], 6), src=[], rec=[], init=True, bgrec=False)
        j["rg"]["amps"] = False
    if rng.random() < 0.15:
        j["store"] = {"mode": "disk", "compress": False}
    elif rng.random() < 0.12:
        j["backend"] = "eager"
    n = -(-j["nt"] // j["interval"])
    return {"job": j, "sched": core.gen_sched(rng, 8), "freq": rng.choice([1, 1, 1, 2, 2, 3, 4, n, n + 2]),
            "view": [rng.choice(VIEWS) for _ in range(4)], "edit_f": rng.random() < 0.5, "edit_b": rng.random() < 0.5,
            "eseed": rng.getrandbits(30), "scale": rng.choice([2.0, 0.0, -1.5])}


def crop(x, j, view, lead=0):
    """The `view` part of an array that covers model + PML."""
    nd = j["ndim"]
    if view == "pml":
        return x
    idx = [slice(j["pml"][2 * d], x.shape[-nd + d] - j["pml"][2 * d + 1]) for d in range(nd)]
    return x[(..., *idx)]


def inv(x):
    """Where there is nothing its inverse is taken to be nothing too."""
    w = core.SIM.torch.where
    return w(x == 0, 0 * x, 1 / w(x == 0, 1 + 0 * x, x))


def hmean4(a, d1, d2):
    nd = a.ndim
    n1, n2 = a.shape[d1] - 1, a.shape[d2] - 1
    s, p = 0, 1
    for o1 in (0, 1):
        for o2 in (0, 1):
            x = a.narrow(d1, o1, n1).narrow(d2, o2, n2)
            s, p = s + inv(x), p * (x.detach() != 0)
    return 4 * inv(s) * p, (d1, d2)


def model_truth(j, T):
    """Inner-view values of the models a callback sees (where computable inside)."""
    prop, nd = j["prop"], j["ndim"]
    m = [t.detach() for t in T["models"]]
    m = [t if t.ndim == nd + 1 else t[None] for t in m]
    out = {}
    if prop in ("scalar", "born"):
        out["v"] = (m[0], ())
        if prop == "born":
            out["scatter"] = (m[1], ())
        return out
    if prop == "acoustic":
        out["K"] = (m[1] * m[0] ** 2, ())
        rho, names = m[1], ["B" + d for d in jobs.DIMS[3 - nd:]]
    else:
        out["lamb"], out["mu"] = (m[0], ()), (m[1], ())
        rho, names = inv(m[2]), ["buoyancy_" + d for d in jobs.DIMS[3 - nd:]]
        for nm, (d1, d2) in {"mu_zy": (-3, -2), "mu_zx": (-3, -1), "mu_yx": (-2, -1)}.items():
            if -d1 <= nd:
                out[nm] = hmean4(m[1], d1, d2)
    for d, n in enumerate(names):
        dim = d - nd
        k = rho.shape[dim] - 1
        out[n] = (2 * inv(rho.narrow(dim, 0, k) + rho.narrow(dim, 1, k)), (dim,))
    return out


def padded_models(j, ms):
    """What callbacks see as models, over model + PML, as a differentiable
    function of the user's models."""
    import torch
    nd, prop = j["ndim"], j["prop"]
    pads = []
    for d in reversed(range(nd)):
        pads += [j["pml"][2 * d], j["pml"][2 * d + 1]]
    out = []
    for k, m in enumerate(ms):
        m = m if m.ndim == nd + 1 else m[None]
        if any(pads):
            mode = "constant" if prop == "born" and k == 1 else "replicate"
            m = torch.nn.functional.pad(m[:, None], pads, mode=mode)[:, 0]
        out.append(m)
    if prop == "scalar":
        return {"v": out[0]}
    if prop == "born":
        return {"v": out[0], "scatter": out[1]}

    def tail(x, dims):
        p = []
        for d in range(-1, -nd - 1, -1):
            p += [0, 1 if d in dims else 0]
        return torch.nn.functional.pad(x, p)

    r = {}
    if prop == "acoustic":
        r["K"] = out[1] * out[0] ** 2
        rho, names = out[1], ["B" + d for d in jobs.DIMS[3 - nd:]]
    else:
        r["lamb"], r["mu"] = out[0], out[1]
        rho, names = inv(out[2]), ["buoyancy_" + d for d in jobs.DIMS[3 - nd:]]
        for nm, (d1, d2) in {"mu_zy": (-3, -2), "mu_zx": (-3, -1), "mu_yx": (-2, -1)}.items():
            if -d1 <= nd:
                r[nm] = tail(hmean4(out[1], d1, d2)[0], (d1, d2))
    for d, n in enumerate(names):
        dim = d - nd
        k = rho.shape[dim] - 1
        r[n] = tail(2 * inv(rho.narrow(dim, 0, k) + rho.narrow(dim, 1, k)), (dim,))
    return r


def grab(spec, j, st, sim, log, wf=True):
    names, mnames, gnames = jobs.shown(st)
    rec = {"step": st.step, "dt": st.dt, "names": names, "wf": {}, "gr": {}, "gnames": gnames, "mnames": mnames}
    nd = j["ndim"]
    fd = [j["acc"] // 2] * 2 if j["prop"] in ("scalar", "born") else [j["acc"] // 2, j["acc"] // 2 - 1]
    full_shape = [s + j["pml"][2 * d] + j["pml"][2 * d + 1] for d, s in enumerate(j["shape"])]
    for i, n in enumerate(names):
        f, p, inn = (st.get_wavefield(n, v) for v in ("full", "pml", "inner"))
        if not sim.torch.equal(st.get_wavefield(n).nan_to_num(), inn.nan_to_num()):
            raise core.Violation("protocol", f"default view of {n} is not the inner one")
        if list(p.shape) != [j["shots"], *full_shape] or list(inn.shape) != [j["shots"], *j["shape"]]:
            raise core.Violation("protocol", f"{n}: views have shapes {tuple(p.shape)} and {tuple(inn.shape)}")
        if list(f.shape) != [j["shots"], *[s + sum(fd) for s in full_shape]]:
            raise core.Violation("protocol", f"{n}: full view has shape {tuple(f.shape)}")
        q = f[(..., *[slice(fd[0], f.shape[-nd + d] - fd[1]) for d in range(nd)])]
        for a, b in ((q, p), (crop(p, j, "inner"), inn)):
            if a.data_ptr() != b.data_ptr() or a.stride() != b.stride():
                raise core.Violation("protocol", f"{n}: views do not refer to the same memory")
        rec["wf"][n] = p.detach().clone()
    for n in rec["gnames"]:
        g = st.get_gradient(n, "full")
        if g.numel():
            rec["gr"][n] = st.get_gradient(n, "pml").detach().clone()
    rec["models"] = {n: st.get_model(n).detach().clone() for n in rec["mnames"]}
    log.append(rec)


def expect_steps(n, freq, which):
    if which == "f":
        return list(range(0, n, freq))
    return [max(0, s - freq) for s in range(n, 0, -freq)]


def cmp(a, b, tol, what):
    jobs.compare({"o:" + k: v for k, v in a.items()}, {"o:" + k: v for k, v in b.items()}, tol, what, kind="callback-state")


def run(spec, sim):
    j = copy.deepcopy(spec["job"])
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = sim.scratch
    tol = 1e-8
    torch = sim.torch
    prop, nd, iv, freq = j["prop"], j["ndim"], j["interval"], spec["freq"]
    nst = -(-j["nt"] // iv)
    backend = j.get("backend")
    flog, blog = [], []
    T = jobs.build(j)
    over = {"forward_callback": lambda st: grab(spec, j, st, sim, flog), "callback_frequency": freq}
    if not backend:
        over["backward_callback"] = lambda st: grab(spec, j, st, sim, blog)
    sim.begin(spec["sched"])
    res = jobs.guarded("with callbacks", jobs.full, j, T, **over)
    sim.end()
    jobs.note(res)
    lv = jobs.leaves(T)
    # --- protocol of the calls
    want = expect_steps(nst, freq, "f")
    if [r["step"] for r in flog] != want:
        raise core.Violation("protocol", f"forward callbacks at {[r['step'] for r in flog]}, expected {want}")
    mg = any(n.startswith("g:") for n in lv)
    got = [r["step"] for r in blog]
    if not backend:
        want = expect_steps(nst, freq, "b")
        if mg and got and got != want:
            raise core.Violation("protocol", f"backward callbacks at {got}, expected {want}")
        if not mg and got:
            raise core.Violation("protocol", "backward callback without a backward pass")
        if mg and not got and any(bool((x != 0).any()) for n, x in res.items() if n.startswith("g:")):
            raise core.Violation("protocol", "no backward callback although gradients were computed")
    truth = model_truth(j, T)
    fnames = sorted(jobs.field_names(prop, nd))
    for back, r in [(False, r) for r in flog] + [(True, r) for r in blog]:
        if not back and r["names"] != fnames:
            raise core.Violation("protocol", f"forward wavefields {r['names']}, expected {fnames}")
        if back and r["names"] != fnames and not (prop == "born" and set(r["names"]) < set(fnames)):
            raise core.Violation("protocol", f"backward wavefields {r['names']}, expected {fnames}")
        if abs(r["dt"] - jobs.dt_of(j) / j["ratio"]) > 1e-12:
            raise core.Violation("protocol", f"dt {r['dt']}")
        if r["mnames"] != sorted(truth):
            raise core.Violation("protocol", f"models {r['mnames']}, expected {sorted(truth)}")
        if back and not set(r["gnames"]) <= set(truth):
            raise core.Violation("protocol", f"gradients {r['gnames']}")
        for n, (y, dims) in truth.items():
            x = r["models"][n]
            for d in dims:
                x = x.narrow(d, 0, x.shape[d] - 1)
            if x.shape[0] != y.shape[0]:
                y = y.expand(x.shape[0], *y.shape[1:]) if y.shape[0] == 1 else y
            cmp({n: x}, {n: y}, tol, f"model {n} seen at step {r['step']}")
    # --- forward states are those of a propagation stopped there
    rng = __import__("random").Random(spec["eseed"])
    picks = rng.sample(flog, min(3, len(flog)))
    T0 = jobs.build(dict(j, rg={"models": [False] * len(j["batched"]), "amps": False, "init": False}))
    plain = dict(j, store={"mode": "device", "compress": False})

    def advance(T, a, b, state, **kw):
        sim.begin(None)
        jj, TT = jobs.cut(plain, T, a, b, state)
        o = jobs.guarded("stopped propagation", jobs.call, jj, TT, **kw)
        sim.end()
        return jobs.fields_of(j, o), jobs.recs_of(j, o)

    for r in picks:
        s = r["step"] * iv
        if s == 0:
            if not j["init"]:
                cmp(r["wf"], {n: torch.zeros_like(x) for n, x in r["wf"].items()}, tol, "initial state")
            elif prop in ("scalar", "born"):
                main = [n for n in fnames if n.startswith("wavefield")]
                cmp({n: r["wf"][n] for n in main}, {n: T0["init"].get(n, torch.zeros_like(r["wf"][n])) for n in main}, tol, "initial state")
            continue
        f, _ = advance(T0, 0, s, None)
        cmp(r["wf"], f, tol, f"wavefields shown at step {r['step']}")
    # --- backward states are those of a propagation restarted there
    if blog and mg:
        for r in rng.sample(blog, min(2, len(blog))):
            s = r["step"] * iv
            last = []
            T2 = jobs.build(j)
            if s:
                st, _ = advance(T0, 0, s, None)
                st = {n: x.detach().clone().requires_grad_(j["rg"]["init"]) for n, x in st.items()}
            else:
                st = None
            jj, TT = jobs.cut(plain, T2, s, j["nt"], st)
            sim.begin(None)
            outs = jobs.guarded("restarted propagation", jobs.call, jj, TT,
                                backward_callback=lambda q: grab(spec, j, q, sim, last), callback_frequency=1)
            # loss of the full run: later receiver samples only
            names = jobs.out_names(prop, nd)
            g = torch.Generator().manual_seed(j["seed"] ^ 0x5A5A5A)
            tot = 0.0
            for n, o in zip(names, outs):
                x = res["o:" + n]
                if x.numel() == 0:
                    continue
                w = torch.randn(x.shape, generator=g, dtype=torch.double).to(x.dtype)
                if not o.requires_grad:
                    continue
                if n in jobs.rec_out_names(prop, nd):
                    w = w[..., s:]
                tot = tot + (w * o).sum() + (0.05 * (o * o).sum() if j["quad"] else 0)
            lv2 = {**jobs.leaves(T2), **({n: x for n, x in (st or {}).items() if x.requires_grad})}
            if isinstance(tot, torch.Tensor) and lv2:
                jobs.guarded("restarted back-propagation", torch.autograd.grad, tot, list(lv2.values()), allow_unused=True)
            sim.end()
            if not last:
                continue
            if last[-1]["step"] != 0:
                raise core.Violation("protocol", f"last backward callback at step {last[-1]['step']}")
            if last[-1]["names"] == r["names"]:
                cmp(r["wf"], last[-1]["wf"], tol, f"backward wavefields shown at step {r['step']}")
            if set(r["gr"]) == set(last[-1]["gr"]):
                cmp(r["gr"], last[-1]["gr"], tol, f"gradients shown at step {r['step']}")
                sim.probe("gradients_compared")
    # --- edits made in place take effect
    if spec["edit_f"] and nst > 0:
        steps = [r["step"] for r in flog]
        at = sorted(rng.sample(steps, min(2, len(steps))))
        nm = rng.choice([n for n in fnames if n not in jobs.pml_fields(prop, nd)])
        g = torch.Generator().manual_seed(spec["eseed"])
        delta = {s: torch.randn([j["shots"], *[x - 2 for x in j["shape"]]], generator=g, dtype=torch.double).to(
            torch.double if j["dtype"] == "double" else torch.float) for s in at}
        core_ = (...,) + (slice(1, -1),) * nd

        def edit(st):
            if st.step in delta:
                st.get_wavefield(nm)[core_] += delta[st.step]

        # autograd itself rejects edits of what it has recorded
        je = dict(j, rg={"models": [False] * len(j["batched"]), "amps": False, "init": False}) if backend else j
        T3 = jobs.build(je)
        sim.begin(spec["sched"])
        got = jobs.guarded("edited propagation", jobs.full, je, T3, forward_callback=edit, callback_frequency=freq)
        sim.end()
        T4 = jobs.build(je)
        state, recs, pos = None, [], 0
        for s in at + [None]:
            e = j["nt"] if s is None else s * iv
            if e > pos or s is None:
                f, rr = advance(T4, pos, e, state)
                state = f
                recs.append(rr)
            elif state is None:  # edit before the first step
                state = {n: (T4["init"][n] if n in T4["init"] else torch.zeros(
                    [j["shots"], *[x + j["pml"][2 * d] + j["pml"][2 * d + 1] for d, x in enumerate(j["shape"])]],
                    dtype=delta[s].dtype)) for n in jobs.field_names(prop, nd)}
            pos = e
            if s is not None:
                x = state[nm].clone()
                y = crop(x, j, "inner")[core_]
                y += delta[s]
                state[nm] = x
        outs = [state[n] for n in jobs.field_names(prop, nd)]
        for n in jobs.rec_out_names(prop, nd):
            xs = [r[n] for r in recs if r[n].numel()]
            outs.append(torch.cat(xs, -1) if xs else recs[0][n])
        want = jobs.outcome(j, outs)
        lv4 = jobs.leaves(T4)
        l = jobs.loss(j, outs)
        if lv4 and isinstance(l, torch.Tensor) and l.requires_grad:
            sim.begin(None)
            gr = jobs.guarded("edited reference gradient", torch.autograd.grad, l, list(lv4.values()), allow_unused=True)
            sim.end()
            for (n, t), x in zip(lv4.items(), gr):
                want[n] = torch.zeros_like(t).detach() if x is None else x.detach().clone()
        jobs.compare(got, {n: want.get(n, x) for n, x in got.items()}, tol, f"{nm} edited at steps {at}", kind="edit-ignored")
        sim.probe("forward_edits")
    if spec["edit_b"] and blog and mg and any(j["rg"]["models"]):
        c = spec["scale"]

        def scale(st):
            if st.step == 0:
                for n in jobs.shown(st)[2]:
                    x = st.get_gradient(n, "full")
                    if x.numel():
                        x *= c

        sim.begin(spec["sched"])
        got = jobs.guarded("edited gradient", jobs.full, j, jobs.build(j), backward_callback=scale, callback_frequency=freq)
        sim.end()
        # scaling what the last callback was shown by c adds (c - 1) times its share
        shown = blog[-1]["gr"]
        leafs = list(T["models"])
        lv5 = [t for t in leafs if t.requires_grad]
        if blog[-1]["step"] == 0 and shown and lv5 and not T.get("base"):
            pm = padded_models(j, T["models"])
            tot = sum((pm[n] * g).sum() for n, g in shown.items())
            share = torch.autograd.grad(tot, lv5, allow_unused=True)
            it = iter(share)
            want, have = {}, {}
            for i, t in enumerate(leafs):
                if t.requires_grad:
                    x = next(it)
                    n = f"g:model{i}"
                    want[n] = res[n] + (c - 1) * (0 if x is None else x)
                    have[n] = got[n]
            have = {n: x + res[n] for n, x in have.items()}  # to the scale of the gradients
            want = {n: x + res[n] for n, x in want.items()}
            jobs.compare(have, want, tol, f"gradients scaled by {c} in place at step 0", kind="edit-ignored")
            sim.probe("gradient_edits")


def shrink(spec):
    for k in ("edit_f", "edit_b"):
        if spec[k]:
            yield {**spec, k: False}
    if spec["freq"] > 1:
        yield {**spec, "freq": 1}
    if spec["job"]["store"]["mode"] != "device":
        c = copy.deepcopy(spec)
        c["job"]["store"] = {"mode": "device", "compress": False}
        yield c
    if spec["sched"]["threads"] != [2]:
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for j in jobs.shrink_job(spec["job"]):
        if j["dtype"] == "double" and (j["ratio"] == 1 or not (j["src"] or j["rec"] or j.get("bgrec"))):
            yield {**spec, "job": j}
