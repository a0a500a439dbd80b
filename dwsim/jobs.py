"""Jobs: small, fully specified propagator calls in nondimensional units."""
import math

from . import core
from .core import Violation

PROPS = ["scalar", "born", "acoustic", "elastic"]
DIMS = ["z", "y", "x"]


def field_names(prop, ndim):
    d = DIMS[3 - ndim:]
    if prop == "scalar":
        return ["wavefield_0", "wavefield_m1"] + [f"psi{i}_m1" for i in d] + [f"zeta{i}_m1" for i in d]
    if prop == "born":
        bg = field_names("scalar", ndim)
        return bg + [n.replace("_m1", "_sc_m1").replace("_0", "_sc_0") for n in bg]
    if prop == "acoustic":
        return ["pressure_0"] + [f"v{i}_0" for i in d] + [f"phi_{i}_0" for i in d] + [f"psi_{i}_0" for i in d]
    v = [f"v{i}_0" for i in d]
    sig = ["sigmazz", "sigmayz", "sigmaxz", "sigmayy", "sigmaxy", "sigmaxx"]
    m1 = ["m_vzz", "m_vzy", "m_vzx", "m_vyz", "m_vxz", "m_vyy", "m_vyx", "m_vxy", "m_vxx"]
    m2 = ["m_sigmazzz", "m_sigmayzy", "m_sigmaxzx", "m_sigmayzz", "m_sigmaxzz", "m_sigmayyy",
          "m_sigmaxyy", "m_sigmaxyx", "m_sigmaxxx"]

    def keep(n):
        t = n.replace("m_sigma", "").replace("sigma", "").replace("m_v", "")
        return all(c in d for c in t)

    return v + [n + "_0" for n in sig + m1 + m2 if keep(n)]


def pml_fields(prop, ndim):
    return [n for n in field_names(prop, ndim)
            if n.startswith(("psi", "zeta", "phi", "m_"))]


def model_names(prop):
    return {"scalar": ["v"], "born": ["v", "scatter"], "acoustic": ["v", "rho"],
            "elastic": ["lamb", "mu", "buoyancy"]}[prop]


def cb_model_names(prop, ndim):
    if prop == "acoustic":
        return ["K"] + [f"B{i}" for i in DIMS[3 - ndim:]]
    if prop == "elastic":
        n = ["lamb", "mu"]
        if ndim == 3:
            n += ["mu_zy", "mu_zx"]
        if ndim >= 2:
            n += ["mu_yx"]
        return n + [f"buoyancy_{i}" for i in DIMS[3 - ndim:]]
    return model_names(prop)


ALL_FIELDS = sorted({n for p in PROPS for d in (1, 2, 3) for n in field_names(p, d)})
ALL_MODELS = sorted({n for p in PROPS for d in (1, 2, 3) for n in cb_model_names(p, d)})


def shown(st):
    """Names of the wavefields, models and gradients a callback is given."""
    def ok(get, n):
        try:
            get(n, "full")
        except KeyError:
            return False
        return True

    return ([n for n in ALL_FIELDS if ok(st.get_wavefield, n)], [n for n in ALL_MODELS if ok(st.get_model, n)],
            [n for n in ALL_MODELS if ok(st.get_gradient, n)])


def src_kinds(prop, ndim):
    if prop in ("scalar", "born"):
        return [""]
    return ["p"] + DIMS[3 - ndim:]


def rec_out_names(prop, ndim):
    if prop == "scalar":
        return ["rec"]
    if prop == "born":
        return ["bgrec", "rec"]
    return ["rec_" + k for k in ["p"] + DIMS[3 - ndim:]]


def out_names(prop, ndim):
    return field_names(prop, ndim) + rec_out_names(prop, ndim)


# ------------------------------------------------------------------ generation
def gen_job(rng, prop=None, ndim=None, shots=None, grads=True, dtypes=True, ratio=True,
            small=False, max_shots=9, inits=True, long_ok=True, batched=None, double=True, module=True):
    prop = prop or rng.choice(PROPS)
    ndim = ndim or rng.choices([1, 2, 3], [35, 45, 20])[0]
    j = {"prop": prop, "ndim": ndim, "seed": rng.getrandbits(40)}
    lo, hi = {1: (5, 24), 2: (4, 9), 3: (4, 5)}[ndim]
    if small:
        hi = {1: 10, 2: 6, 3: 4}[ndim]
    j["shape"] = [rng.randint(lo, hi) for _ in range(ndim)]
    j["acc"] = rng.choices([2, 4, 6, 8], [40, 30, 15, 15])[0]
    if ndim == 3 and prop == "elastic" and rng.random() < 0.6:
        j["acc"] = 2
    # The interior must be able to hold the stencil
    j["dx"] = [rng.choice([1.0, 1.0, 0.9, 1.2]) for _ in range(ndim)]
    j["dtype"] = "float" if dtypes and rng.random() < 0.12 else "double"
    j["nt"] = rng.choices([rng.randint(3, 12), 1, 2, rng.randint(13, 24)], [78, 4, 6, 12])[0]
    if ndim == 3:
        j["nt"] = min(j["nt"], 9 if prop != "elastic" else 6)
    if long_ok and ndim == 1 and rng.random() < 0.04:
        j["nt"] = rng.randint(60, 300)
        j["shape"] = [rng.randint(5, 9)]
    j["ratio"] = 2 if ratio and rng.random() < 0.15 else 1
    pm = 3 if ndim < 3 else 2
    j["pml"] = [rng.randint(0, pm) for _ in range(2 * ndim)]
    if rng.random() < 0.25:
        j["pml"] = [rng.randint(1, pm)] * (2 * ndim)
    if rng.random() < 0.08:
        j["pml"] = [0] * (2 * ndim)
    j["shots"] = shots if shots is not None else rng.choices(
        [1, 2, 3, 4, 5, 6, 7, 8, 9], [5, 20, 25, 18, 12, 6, 6, 4, 4])[0]
    j["shots"] = min(j["shots"], max_shots)
    if ndim == 3 and shots is None:
        j["shots"] = min(j["shots"], 4)
    if shots is None and ndim == 1 and max_shots >= 9 and rng.random() < 0.04:
        j["shots"] = rng.randint(10, 40)
        j["nt"] = min(j["nt"], 6)
    j["nsrc"] = rng.choice([1, 1, 2, 3])
    j["nrec"] = rng.choice([1, 2, 2, 3, 4])
    kinds = src_kinds(prop, ndim)
    j["src"] = sorted(rng.sample(kinds, rng.randint(1, len(kinds))))
    j["rec"] = sorted(rng.sample(kinds, rng.randint(1, len(kinds))))
    if rng.random() < 0.05:
        j["rec"] = []
    if prop == "born":
        j["bgrec"] = rng.random() < 0.6
    j["interval"] = rng.choices([1, 2, 3, 4, 7], [60, 14, 10, 8, 8])[0]
    nm = len(model_names(prop))
    if batched is None:
        batched = rng.random() < 0.35
    j["batched"] = [batched and rng.random() < 0.7 for _ in range(nm)]
    j["init"] = inits and rng.random() < 0.6
    if inits and rng.random() < 0.05:
        j["src"] = []
        j["init"] = True
    if not j["src"] and not j["rec"]:
        j["rec"] = kinds[:1]
    j["ignore"] = rng.random() < 0.15
    j["noncontig"] = rng.random() < 0.15
    j["expand"] = rng.random() < 0.08
    j["rg"] = {"models": [False] * nm, "amps": False, "init": False}
    if grads:
        j["rg"] = {"models": [rng.random() < 0.85 for _ in range(nm)],
                   "amps": rng.random() < 0.5, "init": rng.random() < 0.4}
        if not any(j["rg"]["models"]) and rng.random() < 0.8:
            j["rg"]["models"][rng.randrange(nm)] = True
    j["quad"] = rng.random() < 0.7
    if double and prop == "scalar" and has_grads(j) and j["seed"] % 100 < 35:  # (no draw)
        j["double"] = True
    if module and not j["expand"] and 40 <= j["seed"] % 100 < 48:
        j["module"] = True
    if 60 <= j["seed"] % 100 < 70:
        j["edge"] = True
    if j["seed"] // 11 % 100 < 9:
        j["cb"] = [("f", "b", "fb")[j["seed"] // 13 % 3], 1 + j["seed"] // 17 % 5]
    if j["ratio"] == 2 and j["seed"] % 7 < 2:
        j["ratio"] = 3
    if j["ratio"] > 1 and j["seed"] % 5 < 2:
        j["taper"] = [(0.0, 0.3)[j["seed"] % 2], (0.0, 0.4)[j["seed"] // 2 % 2], j["seed"] // 4 % 2 == 1]
    h = j["seed"] // 1000
    if h % 23 == 0:
        j["nsrc"] = 4 + h // 23 % 9
    if h % 29 == 0:
        j["nrec"] = 5 + h // 29 % 12
    if h % 4 < 3:
        j["uneven"] = h % 4
    if h % 19 == 0:
        j["b1"] = True
    if j["init"] and h % 17 < 2:
        j["partial"] = 2 + h // 17 % 4
    if j["init"] and h % 13 == 0:
        j["extra"] = [h // 13 // 3**k % 3 for k in range(2 * ndim)]
    if h % 37 < 2:
        j["back"] = True
    if h % 41 == 0 and ndim < 3 and j["nt"] < 13:  # long in one dimension
        j["shape"][h // 41 % ndim] = (40 if ndim == 1 else 15) + h // 43 % (100 if ndim == 1 else 25)
    if h % 11 < 2:
        j["water"] = 1 + h // 11 % 6
    if h % 31 < 3:
        j["scale"] = [-40, -12, 12, 40][h // 31 % 4] if j["dtype"] == "double" else [-8, -4, 4, 8][h // 31 % 4]
    j["store"] = {"mode": "device", "compress": False}
    if not j["init"] and rng.random() < 0.08 and j["src"]:
        j["survey_pad"] = rng.randint(1, 3)
        if h % 3 == 0:  # one for each side
            j["survey_pad"] = [(0, 1, 2, None)[h // 3 // 4**k % 4] for k in range(2 * ndim)]
    fix(j)
    return j


def fix(j):
    """Keep a job valid (also after shrinking)."""
    nd = j["ndim"]
    acc = j["acc"]
    # each padded dimension must hold the stencil
    for d in range(nd):
        need = max(4, acc)
        if j["shape"][d] + j["pml"][2 * d] + j["pml"][2 * d + 1] < need:
            j["shape"][d] = need - j["pml"][2 * d] - j["pml"][2 * d + 1]
        j["shape"][d] = max(4, j["shape"][d])
    n = math.prod(s - 1 for s in j["shape"])
    j["nsrc"] = min(j["nsrc"], n)
    j["nrec"] = min(j["nrec"], n)
    if not j["src"]:
        j["rg"]["amps"] = False
    if not j["init"]:
        j["rg"]["init"] = False
        for k in ("partial", "extra"):
            j.pop(k, None)
    if len(j.get("extra") or ()) != 2 * nd:
        j.pop("extra", None)
    if j.get("expand"):
        j.pop("b1", None)
    if not j["init"] and not j["src"]:
        j["src"] = src_kinds(j["prop"], nd)[:1]
    if j["ratio"] != 1 and j["nt"] < 2:
        j["ratio"] = 1
    return j


def has_grads(j):
    return any(j["rg"]["models"]) or j["rg"]["amps"] or j["rg"]["init"]


def dt_of(j):
    max_vel = 1.6
    mx = 0.6 / math.sqrt(sum(1 / d**2 for d in j["dx"])) / max_vel
    return mx * (j["ratio"] - 0.1) * (-1 if j.get("back") else 1)  # time may run backwards


def tol_of(j):
    return 1e-9 if j["dtype"] == "double" else 2e-4


# ------------------------------------------------------------------ data
def build(j):
    torch = core.SIM.torch
    g = torch.Generator().manual_seed(j["seed"])
    dt_ = torch.double if j["dtype"] == "double" else torch.float
    nd, ns, prop = j["ndim"], j["shots"], j["prop"]
    shape = j["shape"]
    ex = j.get("extra") or [0] * (2 * nd)  # cells of the model around the part propagated in

    def fin(t, grad=False):
        t = t.to(dt_)
        if j.get("noncontig") and t.ndim >= 2:
            base = torch.zeros(*t.shape[:-1], 2 * t.shape[-1], dtype=dt_)
            base[..., ::2] = t
            t = base[..., ::2]
        elif j.get("noncontig"):
            base = torch.zeros(2 * t.shape[-1], dtype=dt_)
            base[::2] = t
            t = base[::2]
        if grad:
            t.requires_grad_()
        return t

    def rnd(b, lo, hi):
        s = ([ns] if b else [1] if j.get("b1") else []) + [n + ex[2 * d] + ex[2 * d + 1] for d, n in enumerate(shape)]
        return lo + (hi - lo) * torch.rand(s, generator=g, dtype=torch.double)

    T = {}
    b = j["batched"]
    if prop == "scalar":
        ms = [rnd(b[0], 1.0, 1.5)]
    elif prop == "born":
        ms = [rnd(b[0], 1.0, 1.5), rnd(b[1], -0.5, 0.5)]
    elif prop == "acoustic":
        ms = [rnd(b[0], 1.0, 1.5), rnd(b[1], 0.8, 1.2)]
    else:
        ms = [rnd(b[0], 0.5, 1.0), rnd(b[1], 0.2, 0.5), rnd(b[2], 0.8, 1.15)]
    if j.get("water"):  # cells without stiffness, and perhaps without mass
        dry = j["water"] % 3 == 0
        for i, m in enumerate(ms):
            if dry or i == {"elastic": 1, "born": 1}.get(prop, 0):
                m.narrow(m.ndim - nd, 0, m.shape[-nd] // 2)[..., :1 + j["water"] // 2] = 0
    if j.get("expand") and any(b):
        # a batched model given as a broadcast view
        k = b.index(True)
        ms[k] = ms[k][:1].clone()
    T["models"] = []
    for i, m in enumerate(ms):
        t = fin(m, False)
        if j.get("expand") and any(b) and i == b.index(True):
            # leaf must be the expanded tensor's base
            base = t[:1].detach().clone()
            if j["rg"]["models"][i]:
                base.requires_grad_()
            T.setdefault("base", {})[i] = base
            t = base.expand(ns, *base.shape[1:])
        elif j["rg"]["models"][i]:
            t.requires_grad_()
        T["models"].append(t)

    # staggered fields have nothing at the last grid points
    lim = [s if j.get("edge") and prop in ("scalar", "born") else s - 1 for s in shape]

    def locs(n):
        tot = math.prod(lim)
        out = []
        for _ in range(ns):
            p = torch.randperm(tot, generator=g)[:n]
            c = []
            for s in reversed(lim):
                c.append(p % s)
                p = p // s
            out.append(torch.stack([x + ex[2 * d] for d, x in enumerate(c[::-1])], -1))
        return torch.stack(out)

    T["amps"], T["src"], T["rec"] = {}, {}, {}
    big = 10.0 ** j.get("scale", 0)

    def count(n, i):
        return min(n + i * j.get("uneven", 0), math.prod(s - 1 for s in shape))

    for i, k in enumerate(src_kinds(prop, nd)):
        a = torch.randn(ns, count(j["nsrc"], i), j["nt"], generator=g, dtype=torch.double) * big
        L = locs(a.shape[1])
        if k in j["src"]:
            if j["ignore"] and a.shape[1] > 1:
                L[0, -1] = -1 << 31
            T["amps"][k] = fin(a, j["rg"]["amps"])
            T["src"][k] = L
    for i, k in enumerate(src_kinds(prop, nd)):
        L = locs(count(j["nrec"], i))
        if k in j["rec"]:
            if j["ignore"] and L.shape[1] > 1:
                L[-1, 0] = -1 << 31
            T["rec"][k] = L
    L = locs(count(j["nrec"], 2))
    T["bgrec"] = L if j.get("bgrec") else None
    T["init"] = {}
    if j["init"]:
        full = [ns] + [s + j["pml"][2 * d] + j["pml"][2 * d + 1] for d, s in enumerate(shape)]
        for i, n in enumerate(field_names(prop, nd)):
            x = torch.randn(full, generator=g, dtype=torch.double) * big
            if j.get("partial") and i % j["partial"]:
                continue
            T["init"][n] = fin(x, j["rg"]["init"])
    return T


def inputs(T):
    """Every tensor given to a call, by name."""
    r = {f"model{i}": t for i, t in enumerate(T["models"])}
    for k in ("amps", "src", "rec", "init"):
        for n, t in T[k].items():
            r[f"{k}:{n}"] = t
    if T["bgrec"] is not None:
        r["bgrec"] = T["bgrec"]
    return r


def leaves(T):
    r = {}
    for i, t in enumerate(T["models"]):
        t = T.get("base", {}).get(i, t)
        if t.requires_grad:
            r[f"g:model{i}"] = t
    for n, t in T["amps"].items():
        if t.requires_grad:
            r[f"g:amps:{n}"] = t
    for n, t in T["init"].items():
        if t.requires_grad:
            r[f"g:init:{n}"] = t
    return r


def kwargs(j, T):
    vary = j.get("vary", 0)  # other values that need no other sizes
    kw = {"accuracy": j["acc"], "pml_width": list(j["pml"]), "pml_freq": 0.5 + vary / 1024, "max_vel": 1.6 + vary / 1024,
          "model_gradient_sampling_interval": j["interval"]}
    prop = j["prop"]
    if prop in ("scalar", "born"):
        if T["amps"]:
            kw["source_amplitudes"] = T["amps"][""]
            kw["source_locations"] = T["src"][""]
        if T["rec"]:
            kw["receiver_locations"] = T["rec"][""]
        if prop == "born" and T["bgrec"] is not None:
            kw["bg_receiver_locations"] = T["bgrec"]
    else:
        for k, t in T["amps"].items():
            kw[f"source_amplitudes_{k}"] = t
            kw[f"source_locations_{k}"] = T["src"][k]
        for k, t in T["rec"].items():
            kw[f"receiver_locations_{k}"] = t
    if not T["amps"]:
        kw["nt"] = j["nt"]
    if j.get("taper"):
        kw["freq_taper_frac"], kw["time_pad_frac"], kw["time_taper"] = j["taper"]
    kw.update(T["init"])
    if T["init"]:
        kw["origin"] = j["extra"][::2] if j.get("extra") else [0] * j["ndim"] if j.get("origin") else None
    if j.get("survey_pad") is not None:
        kw["survey_pad"] = j["survey_pad"]
    st = j.get("store") or {}
    if st.get("mode", "device") != "device":
        kw["storage_mode"] = st["mode"]
    if st.get("compress"):
        kw["storage_compression"] = True
    if st.get("path"):
        kw["storage_path"] = st["path"]
    if j.get("backend"):
        kw["python_backend"] = j["backend"]
    if j.get("cb"):
        which, kw["callback_frequency"] = j["cb"]
        if "f" in which:
            kw["forward_callback"] = idle
        if "b" in which and not j.get("backend"):
            kw["backward_callback"] = idle
    return kw


def idle(state):
    """A callback that looks and does nothing."""


def func(prop):
    dw = core.SIM.dw
    return {"scalar": dw.scalar, "born": dw.scalar_born, "acoustic": dw.acoustic, "elastic": dw.elastic}[prop]


def module(j, T, gs, store):
    """The object-oriented interface: the models live in a module, which may be used again. Callers that share tensors
    must make it before they start."""
    m = T.get("module")
    if m is None or any(p is not t for p, t in zip(m.parameters(), T["models"])):
        dw = core.SIM.dw
        cls = {"scalar": dw.Scalar, "born": dw.ScalarBorn, "acoustic": dw.Acoustic, "elastic": dw.Elastic}[j["prop"]]
        m = T["module"] = cls(*T["models"], gs, *[t.requires_grad for t in T["models"]], **store)
        T["models"] = list(m.parameters())
    return m


def shared(j):
    """Inputs for several callers."""
    T = build(j)
    if j.get("module"):
        gs = list(j["dx"])
        module(j, T, gs[0] if len(set(gs)) == 1 else gs, {})
    return T


def call(j, T, **over):
    kw = kwargs(j, T)
    kw.update(over)
    core.SIM.new_call()
    gs = list(j["dx"])
    if len(set(gs)) == 1:
        gs = gs[0]
    dt = dt_of(j) * (1 - j.get("vary", 0) / 8192)
    if not j.get("module"):
        return func(j["prop"])(*T["models"], gs, dt, **kw)
    store = {k: kw.pop(k) for k in list(kw) if k.startswith("storage_")}
    m = module(j, T, gs, store)
    m.storage_mode = store.get("storage_mode", "device")
    m.storage_path = store.get("storage_path", ".")
    m.storage_compression = store.get("storage_compression", False)
    return m(dt, **kw)


def loss(j, outs):
    torch = core.SIM.torch
    g = torch.Generator().manual_seed(j["seed"] ^ 0x5A5A5A)
    tot = 0.0
    for o in outs:
        if o.numel() == 0:
            continue
        w = torch.randn(o.shape, generator=g, dtype=torch.double).to(o.dtype)
        if o.requires_grad:
            tot = tot + (w * o).sum()
            if j["quad"]:
                tot = tot + 0.05 * (o * o).sum()
    return tot


def outcome(j, outs, detach=True):
    names = out_names(j["prop"], j["ndim"])
    if len(names) != len(outs):
        raise Violation("shape", f"{len(outs)} outputs, expected {len(names)}")
    return {"o:" + n: o.detach().clone() for n, o in zip(names, outs)}


def full(j, T=None, ret=False, **over):
    """Forward and, where gradients are wanted, backward. Returns all results."""
    torch = core.SIM.torch
    T = T or build(j)
    outs = call(j, T, **over)
    res = outcome(j, outs)
    lv = leaves(T)
    if lv:
        l = loss(j, outs)
        if isinstance(l, torch.Tensor) and l.requires_grad:
            derive(j, l, lv, res)
    return res


def derive(j, l, lv, res, w_idx=None, keep=False):
    """First (and for some jobs second) derivatives of the loss, into res."""
    torch = core.SIM.torch
    two = bool(j.get("double")) and not j.get("backend")
    gr = torch.autograd.grad(l, list(lv.values()), allow_unused=True, create_graph=two,
                             retain_graph=keep or two)

    def put(c, xs):
        for (n, t), x in zip(lv.items(), xs):
            res[c + n[1:]] = torch.zeros_like(t).detach() if x is None else x.detach().clone()

    put("g", gr)
    use = {n: x for n, x in zip(lv, gr) if x is not None and x.requires_grad}
    if two and use:
        tot = 0.0
        for n, x in use.items():
            g = torch.Generator().manual_seed(j["seed"] ^ 0x3C3C3C)
            # one weight for each shot where the shots have their own derivatives
            per_shot = w_idx is not None and n[2:] != "model0" or w_idx is not None and j["batched"][0]
            w = torch.randn([j["shots"], *x.shape[1:]] if per_shot else x.shape, generator=g, dtype=torch.double,
                            device="cpu").to(x.dtype)
            tot = tot + ((w[w_idx] if per_shot else w) * x).sum()
        put("h", torch.autograd.grad(tot, list(lv.values()), allow_unused=True, retain_graph=keep))
    gr = use = None


def guarded(what, f, *a, **k):
    """Call code under test where nothing may fail: an exception is a violation."""
    try:
        return f(*a, **k)
    except (Violation, core.Skip):
        raise
    except Exception as e:  # noqa: BLE001
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if "/pkg/deepwave/" in f.filename]
        # Only blame the package when it was involved
        if not fr and not isinstance(e, RuntimeError):
            raise
        raise Violation("unexpected-exception", f"{what}: {type(e).__name__}: {str(e)[:300]}") from e


# ------------------------------------------------------------------ comparison
def compare(a, b, tol, what, kind="mismatch", only=None, gscale=None):
    """Results must agree to rounding; `a` is what was observed, `b` the truth."""
    torch = core.SIM.torch
    if set(a) != set(b):
        raise Violation(kind, f"{what}: different results present {sorted(set(a) ^ set(b))}")
    big = {}
    for n, y in b.items():
        c = n[:2]
        f = y[torch.isfinite(y)] if y.is_floating_point() else y
        m = float(f.abs().max()) if f.numel() else 0.0
        big[c] = max(big.get(c, 0.0), m)
    for n in a:
        if only is not None and not only(n):
            continue
        x, y = a[n], b[n]
        if x.shape != y.shape:
            raise Violation(kind, f"{what}: {n} has shape {tuple(x.shape)}, expected {tuple(y.shape)}")
        if x.numel() == 0:
            continue
        nx, ny = torch.isnan(x), torch.isnan(y)
        if bool((nx != ny).any()):
            raise Violation(kind, f"{what}: {n} has NaNs in {int(nx.sum())} places, expected {int(ny.sum())}")
        x = torch.nan_to_num(x, nan=0.0)
        y = torch.nan_to_num(y, nan=0.0)
        d = (x - y).abs()
        d = torch.where(x == y, torch.zeros_like(d), d)
        m = float(y[torch.isfinite(y)].abs().max()) if bool(torch.isfinite(y).any()) else 0.0
        lim = tol * m + tol * 1e-3 * big[n[:2]] + 1e-300
        worst = float(d.max())
        if not worst <= lim:
            k = int(d.flatten().nan_to_num(nan=float("inf")).argmax())
            raise Violation(kind, f"{what}: {n}[{k}] = {float(x.flatten()[k])!r}, expected "
                                  f"{float(y.flatten()[k])!r} (limit {lim:.3g})")


def note(res):
    for n in sorted(res):
        core.SIM.note(n, tuple(res[n].shape))
        core.SIM.note_tensor(res[n])


def snapshot(T):
    return {n: (t.detach().clone(), t._version) for n, t in inputs(T).items()}


def check_unchanged(T, snap, what, versions=True):
    torch = core.SIM.torch
    for n, t in inputs(T).items():
        s, v = snap[n]
        if not torch.equal(torch.nan_to_num(t.detach(), nan=1.25e77) if t.is_floating_point() else t,
                           torch.nan_to_num(s, nan=1.25e77) if s.is_floating_point() else s):
            raise Violation("input-modified", f"{what}: input {n} changed")


# ------------------------------------------------------------------ shrinking
def shrink_job(j):
    """Simpler jobs, most ambitious first."""
    import copy

    def mk(**kw):
        c = copy.deepcopy(j)
        c.update(kw)
        return fix(c)

    if j["shots"] > 1:
        yield mk(shots=max(1, j["shots"] // 2))
        yield mk(shots=j["shots"] - 1)
    if j["nt"] > 1:
        yield mk(nt=max(1, j["nt"] // 2))
        yield mk(nt=j["nt"] - 1)
    if j["acc"] > 2:
        yield mk(acc=2)
    if j["init"]:
        yield mk(init=False)
    if any(j["batched"]):
        yield mk(batched=[False] * len(j["batched"]))
    for k in ("ignore", "noncontig", "expand", "quad", "double", "module", "taper", "edge", "cb", "b1", "partial", "extra", "uneven", "water", "scale", "back"):
        if j.get(k):
            yield mk(**{k: False})
    if j.get("survey_pad") is not None:
        c = mk()
        c.pop("survey_pad")
        yield c
    if j["ratio"] > 1:
        yield mk(ratio=1)
    if j["interval"] > 1:
        yield mk(interval=1)
    if j["nsrc"] > 1:
        yield mk(nsrc=1)
    if j["nrec"] > 1:
        yield mk(nrec=1)
    for k in ("src", "rec"):
        for i in range(len(j[k])):
            if len(j[k]) > 1:
                yield mk(**{k: j[k][:i] + j[k][i + 1:]})
    rg = j["rg"]
    if rg["amps"]:
        yield mk(rg={**rg, "amps": False})
    if rg["init"]:
        yield mk(rg={**rg, "init": False})
    if sum(rg["models"]) > 1:
        for i, m in enumerate(rg["models"]):
            if m:
                yield mk(rg={**rg, "models": [x and k != i for k, x in enumerate(rg["models"])]})
    if any(j["pml"]):
        yield mk(pml=[0] * len(j["pml"]))
        for i, p in enumerate(j["pml"]):
            if p:
                yield mk(pml=j["pml"][:i] + [p - 1] + j["pml"][i + 1:])
    for d, s in enumerate(j["shape"]):
        if s > 4:
            yield mk(shape=j["shape"][:d] + [max(4, s // 2)] + j["shape"][d + 1:])
    if j["dtype"] != "double":
        yield mk(dtype="double")
    if any(x != 1.0 for x in j["dx"]):
        yield mk(dx=[1.0] * j["ndim"])


# ------------------------------------------------------------------ parts of a batch
def select(j, T, idx):
    """The call for the shots `idx` of T only (fresh leaves)."""
    nb = j["batched"]
    out = {"models": [], "amps": {}, "src": {}, "rec": {}, "init": {}, "bgrec": None}

    def leaf(t):
        r = t.detach()[idx].clone()
        return r.requires_grad_() if t.requires_grad else r

    for i, m in enumerate(T["models"]):
        if nb[i]:
            out["models"].append(leaf(m))
        else:
            c = m.detach().clone()
            out["models"].append(c.requires_grad_() if m.requires_grad else c)
    for k in ("amps", "init"):
        out[k] = {n: leaf(t) for n, t in T[k].items()}
    for k in ("src", "rec"):
        out[k] = {n: t[idx].clone() for n, t in T[k].items()}
    if T["bgrec"] is not None:
        out["bgrec"] = T["bgrec"][idx].clone()
    return out


def weights(j, outs, total=None):
    """Fixed random loss weights for the whole batch (shot is dim 0)."""
    torch = core.SIM.torch
    g = torch.Generator().manual_seed(j["seed"] ^ 0x5A5A5A)
    n = total or j["shots"]
    return [torch.randn([n, *o.shape[1:]], generator=g, dtype=torch.double).to(o.dtype)
            if o.numel() else None for o in outs]


def run_with(j, T, w_idx=None, **over):
    """Forward and backward with loss weights of the shots w_idx."""
    torch = core.SIM.torch
    outs = call(j, T, **over)
    res = outcome(j, outs)
    lv = leaves(T)
    if lv:
        tot = 0.0
        for o, w in zip(outs, weights(j, outs)):
            if w is None or not o.requires_grad:
                continue
            if w_idx is not None:
                w = w[w_idx]
            tot = tot + (w * o).sum()
            if j["quad"]:
                tot = tot + 0.05 * (o * o).sum()
        if isinstance(tot, torch.Tensor):
            derive(j, tot, lv, res, w_idx)
    return res


# ------------------------------------------------------------------ parts of the time axis
def cut(j, T, a, b, state=None):
    """The call for time steps [a, b) starting from `state` (name -> tensor).
    Tensors are used as they are, so gradients flow through them."""
    j2 = dict(j, nt=b - a)
    T2 = dict(T)
    T2["amps"] = {n: t[..., a:b] for n, t in T["amps"].items()}
    if state is not None:
        T2["init"] = dict(state)
    elif a:
        raise ValueError("state needed")
    return j2, T2


def fields_of(j, outs):
    n = field_names(j["prop"], j["ndim"])
    return dict(zip(n, outs[:len(n)]))


def recs_of(j, outs):
    n = rec_out_names(j["prop"], j["ndim"])
    return dict(zip(n, outs[-len(n):]))
