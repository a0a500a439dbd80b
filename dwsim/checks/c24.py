"""What else the process is set to neither matters nor is changed."""
import contextlib
import copy
import gc
import os
import random
import signal
import sys
import threading
import warnings

from .. import core, jobs

LEVEL = "exploration"
RUNS = (1100, 16000)
RULE = ("Each run propagates and backpropagates once as things are and once more while process-wide settings are changed at "
        "chosen instants (before, between, in callbacks, and by another thread at chosen lines of the package) and inside "
        "ambient contexts of the calling thread; results must be the same, and at sampled lines of the package and "
        "afterwards every setting must be as the caller left it.")
ASSUME = ["Another default device is imitated by PyTorch's meta device."]

# process-wide: may change at any line
GLOBAL = ["dtype:float64", "dtype:float32", "dtype:bfloat16", "dtype:float16", "det", "anomaly", "cwd", "rng", "gc1",
          "gcoff", "env", "print", "umask"]
# of the calling thread, around a phase
LOCAL = ["autocast", "hooks:clone", "hooks:bytes", "hooks:noncontig", "fmode", "dmode", "device:cpu", "device:other", "inference", "thread",
         "errstate", "denormal", "nograd"]


def gen(rng, tier):
    if rng.random() < 0.12:
        return {"tools": rng.getrandbits(40), "flips": [[rng.choice([0, 0, rng.randint(0, 400)]), rng.choice(GLOBAL)]
                                                        for _ in range(rng.randint(1, 3))],
                "ctx": rng.sample(["autocast", "fmode", "dmode", "device:cpu", "device:other", "errstate", "denormal", "thread"],
                                  rng.choice([0, 1, 1, 2])), "useed": rng.getrandbits(20)}
    j = jobs.gen_job(rng, max_shots=4, small=rng.random() < 0.4)
    r = rng.random()
    if r < 0.2:
        j["store"] = {"mode": rng.choice(["disk", "disk", "device"]), "compress": rng.random() < 0.5}
    elif r < 0.32 and j["dtype"] == "double":
        j["backend"] = "eager"
    if rng.random() < 0.25:
        j["nt"] = max(2, j["nt"])
        j["ratio"] = rng.choice([2, 3])
        j["taper"] = [rng.choice([0.0, 0.3]), rng.choice([0.0, 0.4]), rng.random() < 0.6]
        jobs.fix(j)
    fwd = [[rng.choice([0, 0, rng.randint(0, 900), rng.randint(0, 200)]), rng.choice(GLOBAL)] for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    bwd = [[rng.choice([0, 0, rng.randint(0, 120)]), rng.choice(GLOBAL)] for _ in range(rng.choice([0, 0, 1, 1, 2]))]
    cb = None
    if rng.random() < 0.3 and not j.get("backend"):
        cb = {"which": rng.choice(["f", "b", "fb"]), "every": rng.randint(1, 3), "flip": rng.choice(GLOBAL)}
    spec = {"job": j, "fwd": fwd, "bwd": bwd, "cb": cb, "cf": [], "cb_": [], "sched": core.gen_sched(rng, 6),
            "useed": rng.getrandbits(20)}
    if rng.random() < 0.5:
        spec["cf"] = rng.sample(LOCAL, rng.choice([1, 1, 2]))
    if rng.random() < 0.35:
        spec["cb_"] = rng.sample([c for c in LOCAL if c not in ("inference", "nograd")], 1)
    if not (fwd or bwd or cb or spec["cf"] or spec["cb_"]):
        spec["fwd"] = [[0, rng.choice(GLOBAL)]]
    return spec


class World:
    """The settings, as the caller left them."""

    def __init__(self, sim):
        self.sim, self.torch = sim, sim.torch
        self.n = 0
        self.mask = os.umask(0o22)
        os.umask(self.mask)
        self.kept = {"env": dict(os.environ), "mask": self.mask, "rng": self.torch.random.get_rng_state(), "dtype": self.torch.get_default_dtype(),
                     "cwd": os.getcwd(), "gc": (gc.isenabled(), gc.get_threshold()),
                     "print": copy.copy(self.torch._tensor_str.PRINT_OPTS.__dict__)}
        self.want = self.now()
        self.rest = self.full()

    def now(self):
        torch = self.torch
        return {"default dtype": str(torch.get_default_dtype()), "deterministic": torch.are_deterministic_algorithms_enabled(),
                "anomaly detection": torch.is_anomaly_enabled(), "directory": os.getcwd(), "garbage collector": (gc.isenabled(), gc.get_threshold()),
                "environment": hash(tuple(sorted(os.environ.items()))), "torch generator": hash(torch.random.get_rng_state().numpy().tobytes()),
                "generator": hash(random.getstate()), "print options": str(sorted(torch._tensor_str.PRINT_OPTS.__dict__.items())),
                "threads": core._real["gnt"]()}

    def full(self):
        import numpy as np
        torch = self.torch
        old = os.umask(0o22)
        os.umask(old)
        return {"warning filters": list(map(str, warnings.filters)), "umask": old, "recursion limit": sys.getrecursionlimit(),
                "signals": [str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)],
                "numpy errors": str(np.geterr()), "numpy generator": hash(str(np.random.get_state())), "path": list(sys.path),
                "hooks": [str(f) for f in (sys.excepthook, sys.unraisablehook, threading.excepthook)],
                "grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
                "autocast": torch.is_autocast_enabled("cpu"), "thread count": threading.active_count(),
                "switch interval": sys.getswitchinterval(), "default device": str(torch.get_default_device()),
                "multithreaded autograd": torch.autograd.is_multithreading_enabled() if hasattr(torch.autograd, "is_multithreading_enabled") else None,
                "mkldnn": torch.backends.mkldnn.enabled, "matmul": torch.get_float32_matmul_precision()}

    def flip(self, s):
        torch = self.torch
        self.n += 1
        self.sim.fault("setting:" + s)
        if s.startswith("dtype:"):
            torch.set_default_dtype(getattr(torch, s[6:]))
        elif s == "det":
            torch.use_deterministic_algorithms(not torch.are_deterministic_algorithms_enabled(), warn_only=self.n % 2 == 0)
        elif s == "anomaly":
            torch.autograd.set_detect_anomaly(not torch.is_anomaly_enabled(), check_nan=self.n % 2 == 0)
        elif s == "cwd":
            d = os.path.join(self.sim.scratch, f"cwd{self.n % 3}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
        elif s == "rng":
            torch.manual_seed(self.n)
            random.seed(self.n)
        elif s == "gc1":
            gc.set_threshold(*((20, 2, 2) if gc.get_threshold()[0] != 20 else self.kept["gc"][1]))
        elif s == "gcoff":
            (gc.disable if gc.isenabled() else gc.enable)()
        elif s == "env":
            n = ("DWSIM_X", "TMPDIR", "HOME", "LANG", "OMP_NUM_THREADS", "TZ", "PWD")[self.n * 5 % 7]
            os.environ[n] = {"OMP_NUM_THREADS": "3", "TMPDIR": "/nonexistent", "HOME": "/nonexistent"}.get(n, str(self.n))
        elif s == "umask":
            self.mask = 0o77 if self.mask != 0o77 else 0o27
            os.umask(self.mask)
        elif s == "print":
            torch.set_printoptions(precision=1 + self.n % 3, threshold=3)
        self.want = self.now()

    def check(self, when):
        got = self.now()
        old = os.umask(self.mask)
        if old != self.mask:
            raise core.Violation("setting-changed", f"{when}: umask is {old:o}, the caller left {self.mask:o}")
        for k, v in self.want.items():
            if got[k] != v:
                raise core.Violation("setting-changed", f"{when}: {k} is {got[k]}, the caller left {v}")

    def check_rest(self):
        got = self.full()
        for k, v in self.rest.items():
            if got[k] != v:
                raise core.Violation("setting-changed", f"afterwards: {k} is {got[k]}, was {v}")

    def restore(self):
        torch = self.torch
        torch.set_default_dtype(self.kept["dtype"])
        torch.use_deterministic_algorithms(False)
        torch.autograd.set_detect_anomaly(False)
        os.chdir(self.kept["cwd"])
        gc.set_threshold(*self.kept["gc"][1])
        (gc.enable if self.kept["gc"][0] else gc.disable)()
        os.umask(self.kept["mask"])
        for n in set(os.environ) | set(self.kept["env"]):
            if n not in self.kept["env"]:
                del os.environ[n]
            elif os.environ.get(n) != self.kept["env"][n]:
                os.environ[n] = self.kept["env"][n]
        torch._tensor_str.PRINT_OPTS.__dict__.update(self.kept["print"])
        self.want = self.now()


def hooks(torch, how):
    def pack(t):
        t = t.resolve_conj().resolve_neg()
        if how == "clone":
            return t.detach().clone()
        if how == "noncontig":
            b = torch.zeros(*t.shape, 2, dtype=t.dtype, device="cpu")
            b[..., 0] = t.detach()
            return b
        return (bytes(t.detach().contiguous().flatten().view(torch.uint8).numpy()) if t.numel() else b"", t.dtype, tuple(t.shape))

    def unpack(x):
        if how == "clone":
            return x
        if how == "noncontig":
            return x[..., 0]
        b, dt, sh = x
        return torch.frombuffer(bytearray(b), dtype=dt).reshape(sh) if b else torch.empty(sh, dtype=dt, device="cpu")
    return torch.autograd.graph.saved_tensors_hooks(pack, unpack)


def other_device(torch):
    """As if the default device were an accelerator: what is not placed explicitly is out of reach (except for small
    integer tensors, the items of which could be read)."""
    from torch.overrides import TorchFunctionMode
    from torch.utils._device import _device_constructors
    cons = _device_constructors()

    class Other(TorchFunctionMode):
        def __torch_function__(self, func, types, args=(), kwargs=None):
            kwargs = kwargs or {}
            if func in cons and kwargs.get("device") is None and func is not torch.frombuffer:
                ints = func is torch.tensor and args and (isinstance(args[0], int) or isinstance(args[0], (list, tuple))
                                                          and all(isinstance(x, int) for x in args[0]))
                if not ints:
                    kwargs["device"] = "meta"
            return func(*args, **kwargs)
    return Other()


@contextlib.contextmanager
def ambient(sim, names):
    torch = sim.torch
    with contextlib.ExitStack() as s:
        for n in names:
            sim.fault("context:" + n)
            if n == "autocast":
                s.enter_context(torch.autocast("cpu", dtype=torch.bfloat16))
            elif n.startswith("hooks:"):
                s.enter_context(hooks(torch, n[6:]))
            elif n == "fmode":
                from torch.overrides import BaseTorchFunctionMode
                s.enter_context(BaseTorchFunctionMode())
            elif n == "dmode":
                from torch.utils._python_dispatch import TorchDispatchMode

                class Through(TorchDispatchMode):
                    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
                        return func(*args, **(kwargs or {}))
                s.enter_context(Through())
            elif n == "device:cpu":
                s.enter_context(torch.device("cpu"))
            elif n == "device:other":
                s.enter_context(other_device(torch))
            elif n == "inference":
                s.enter_context(torch.inference_mode())
            elif n == "nograd":
                s.enter_context(torch.no_grad())
            elif n == "errstate":
                import numpy as np
                s.enter_context(np.errstate(all="raise"))
            elif n == "denormal":
                if torch.set_flush_denormal(True):
                    s.callback(torch.set_flush_denormal, False)
        yield


def traced(sim, w, events, f, names, stride, note):
    """Calls f with settings changing at given lines of the package and watched at every stride-th."""
    at = {}
    for n, s in events:
        at.setdefault(n, []).append(s)
    for s in at.pop(0, []):
        w.flip(s)
    box = {"n": 0, "bad": None}

    def line(fr):
        box["n"] += 1
        if box["bad"] is None and box["n"] % stride == 0:
            try:
                w.check(f"during the {note}")
            except core.Violation as e:
                box["bad"] = e
        for s in at.get(box["n"], ()):
            w.flip(s)

    out = {}

    def go():
        with ambient(sim, names):
            sys.settrace(sim.trace(line))
            try:
                out["r"] = f()
            except BaseException as e:  # noqa: BLE001
                out["e"] = e
            finally:
                sys.settrace(None)

    if "thread" in names:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    else:
        go()
    if "e" in out:
        try:
            raise out["e"]
        finally:
            out.clear()
    if box["bad"] is not None:
        raise box["bad"]
    w.check(f"after the {note}")
    sim.probe("lines", box["n"])
    return out["r"]


def tools(sim, spec):
    """Helpers of the package on random input."""
    torch, dw = sim.torch, sim.dw
    seed = spec["tools"]
    rng = random.Random(seed)
    g = torch.Generator().manual_seed(seed)
    dt = rng.choice([torch.float64, torch.float64, torch.float32])

    def rand(*s):
        return torch.randn(*s, generator=g, dtype=torch.float64).to(dt)

    ns, per, nt = rng.randint(1, 3), rng.randint(1, 3), rng.randint(2, 9)
    loc = (torch.rand(ns, per, 2, generator=g, dtype=torch.float64) * 12 + 2).to(dt)
    res = {}
    kw = dict(halfwidth=rng.randint(1, 5), dtype=dt)
    if rng.random() < 0.5:
        kw.update(free_surfaces=[rng.random() < 0.5 for _ in range(4)], model_shape=[16, 16])
    if rng.random() < 0.5:
        kw.update(monopole=torch.rand(ns, per, generator=g) < 0.5, dipole_dim=torch.randint(0, 2, (ns, per), generator=g))
    amps, f = rand(ns, per, nt), rng.choice([2, 3])
    frac, pad, ttap, short, n = rng.choice([0.0, 0.3]), rng.choice([0.0, 0.4]), rng.random() < 0.5, rng.random() < 0.3, 5
    up = rand(2, 2, 6 * f)
    vp = rand(3, 3).abs() + 1

    def run():
        h = dw.location_interpolation.Hicks(loc, **kw)
        res["o:loc"] = h.get_locations().to(torch.float64)
        s = h.source(amps)
        res["o:src"] = s
        res["o:rec"] = h.receiver(s)
        res["o:up"] = dw.common.upsample(amps.clone(), f, freq_taper_frac=frac, time_pad_frac=pad, time_taper=ttap)
        res["o:down"] = dw.common.downsample(up.clone(), f, freq_taper_frac=frac, time_pad_frac=pad, time_taper=ttap)
        if "device:other" not in spec["ctx"]:  # (made on the default device)
            res["o:ricker"] = dw.wavelets.ricker(25.0, 2 * n, 0.004, 0.02, dt)
        for k, x in enumerate(dw.common.vpvsrho_to_lambmubuoyancy(vp * 2, vp, vp)):
            res[f"o:lmb{k}"] = x
        res["o:taper"] = dw.common.cosine_taper_end(amps.clone(), rng.randint(1, nt))
        return res
    return run, (1e-11 if dt == torch.float64 else 1e-5)


def run(spec, sim):
    torch = sim.torch
    if "tools" in spec:
        f, tol = tools(sim, spec)
        ref = {k: v.clone() for k, v in jobs.guarded("as things are", f).items()}
        f, tol = tools(sim, spec)
        w = World(sim)
        try:
            with_ = spec["flips"]
            got = jobs.guarded("with other settings", traced, sim, w, with_, f, spec["ctx"], 11, "call")
        finally:
            w.restore()
        w.check_rest()
        jobs.compare(got, ref, tol, "helpers with other settings", kind="setting-matters")
        jobs.note(got)
        return
    j = copy.deepcopy(spec["job"])
    if j["store"]["mode"] == "disk":
        j["store"]["path"] = os.path.join(sim.scratch, "st")
        os.mkdir(j["store"]["path"])
    cf = list(spec["cf"])
    if jobs.has_grads(j):
        cf = [c for c in cf if c not in ("inference", "nograd")]
    sim.begin(None)
    ref = jobs.guarded("as things are", jobs.full, j)
    sim.end()
    T = jobs.build(j)
    sim.new_call()
    sim.reseed = None
    w = World(sim)
    over = {}
    if spec["cb"]:
        over["callback_frequency"] = spec["cb"]["every"]

        def flip(st):
            w.check("in a callback")
            w.flip(spec["cb"]["flip"])
        if "f" in spec["cb"]["which"]:
            over["forward_callback"] = flip
        if "b" in spec["cb"]["which"]:
            over["backward_callback"] = flip
    try:
        sim.begin(spec["sched"], 0)
        outs = jobs.guarded("forward with other settings", traced, sim, w, spec["fwd"], lambda: jobs.call(j, T, **over),
                            cf, 37, "forward pass")
        res = jobs.outcome(j, outs)
        lv = jobs.leaves(T)
        l = jobs.loss(j, outs) if lv else None
        if isinstance(l, torch.Tensor) and l.requires_grad:
            jobs.guarded("backward with other settings", traced, sim, w, spec["bwd"], lambda: jobs.derive(j, l, lv, res),
                         spec["cb_"], 7, "backward pass")
        sim.end()
    finally:
        w.restore()
    w.check_rest()
    res = {n: t.clone() for n, t in res.items()}
    jobs.note(res)
    jobs.compare(res, ref, jobs.tol_of(j), f"settings {spec['fwd']} {spec['bwd']} {cf} {spec['cb_']} vs none",
                 kind="setting-matters")


def shrink(spec):
    if "tools" in spec:
        for i in range(len(spec["flips"])):
            yield {**spec, "flips": spec["flips"][:i] + spec["flips"][i + 1:]}
        for i in range(len(spec["ctx"])):
            yield {**spec, "ctx": spec["ctx"][:i] + spec["ctx"][i + 1:]}
        return
    if spec["cb"]:
        yield {**spec, "cb": None}
    for k in ("fwd", "bwd", "cf", "cb_"):
        for i in range(len(spec[k])):
            yield {**spec, k: spec[k][:i] + spec[k][i + 1:]}
    for k in ("fwd", "bwd"):
        for i, (n, s) in enumerate(spec[k]):
            if n:
                yield {**spec, k: spec[k][:i] + [[0, s]] + spec[k][i + 1:]}
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
    for j in jobs.shrink_job(spec["job"]):
        yield {**spec, "job": j}
