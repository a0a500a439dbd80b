"""A call cut short by any exception leaves everything usable."""
import copy
import errno
import gc
import os
import random
import shutil
import sys
import threading
import traceback
import warnings

from .. import core, jobs

LEVEL = "fault_enumeration"
RUNS = (550, 15000)
RULE = ("Each run makes one to four propagations or backpropagations fail at a random point (an exception or interrupt at "
        "any executed line of the package, in a callback, a failed tensor allocation, a failed file or memory operation of "
        "the compiled code, a failed mkdir), repeats each of them on the same tensors without the fault, and finally uses "
        "an unrelated graph made before; after each step inputs, gradients, global state and the disk are compared with a "
        "model.")


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "Boom": Boom, "BaseBoom": BaseBoom,
       "SystemExit": SystemExit, "RuntimeError": RuntimeError, "StopIteration": StopIteration, "OSError": OSError}
ERRS = ["EIO", "ENOSPC", "EMFILE", "EACCES"]


def gen_fault(rng, j):
    disk = j["store"]["mode"] == "disk"
    eager = bool(j.get("backend"))
    k = rng.choices(["line", "cb", "alloc", "crule", "mkdir"],
                    [45, 22, 18, 14 if disk else 3, 5 if disk else 0])[0]
    if eager and k == "crule":
        k = "line"
    f = {"kind": k, "phase": rng.choice("FB"), "frac": rng.choice([rng.random(), rng.random(), rng.random(), 0.9999, 0.0]),
         "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError", "Boom", "BaseBoom", "SystemExit",
                            "RuntimeError"])}
    if k == "cb":
        f["exc"] = rng.choice(list(EXC))
        if eager:
            f["phase"] = "F"
    if k == "mkdir":
        f["phase"] = "F"
        f["err"] = rng.choice(ERRS)
    if k == "crule":
        f["op"] = rng.choice(["open", "write", "seek", "close", "alloc"] if f["phase"] == "F" else ["open", "read", "seek", "alloc"])
        f["err"] = rng.choice(ERRS)
    return f


def gen(rng, tier):
    def job():
        j = jobs.gen_job(rng, max_shots=4, small=rng.random() < 0.5, long_ok=False)
        if not any(j["rg"]["models"]) and rng.random() < 0.9:
            j["rg"]["models"][0] = True
        r = rng.random()
        if r < 0.55:
            j["store"] = {"mode": "disk", "compress": rng.random() < 0.3}
        elif r < 0.7:
            j["store"] = {"mode": "device", "compress": True}
        elif r < 0.8 and j["dtype"] == "double":
            j["backend"] = "eager"
            j["interval"] = 1
            j["nt"] = min(j["nt"], 5)
        return j

    by = job() if rng.random() < 0.6 else None
    steps = []
    j = job()
    for _ in range(rng.choices([1, 2, 3, 4], [35, 35, 20, 10])[0]):
        if rng.random() < 0.25:
            j = job()
        steps.append({"job": copy.deepcopy(j), "fault": gen_fault(rng, j), "retain": rng.random() < 0.6,
                      "reuse": rng.random() < 0.7, "accumulate": rng.random() < 0.4 and not j.get("double"),
                      "cb": rng.choice([1, 1, 2, 3])})
    return {"by": by, "steps": steps, "sched": core.gen_sched(rng, 6), "useed": rng.getrandbits(20)}


# ------------------------------------------------------------------ the faults
def in_cleanup(fr):
    while fr is not None:
        if fr.f_code.co_name == "__del__" or fr.f_code.co_filename.endswith("weakref.py"):
            return True
        fr = fr.f_back
    return False


class Lines:
    """Counts the lines of the package that run; raises at one of them."""

    def __init__(self, sim, at=None, exc=None):
        self.sim, self.at, self.exc, self.n, self.where = sim, at, exc, 0, None
        self.fs = 10 ** 9

    def line(self, fr):
        k = self.n
        self.n += 1
        if self.sim.fs_seen != self.seen:
            self.seen = self.sim.fs_seen
            self.fs = k
        if self.at is not None and k >= self.at and not in_cleanup(fr):
            self.at = None
            self.near_mkdir = 0 <= k - self.fs <= 3
            self.where = f"{os.path.basename(fr.f_code.co_filename)}:{fr.f_code.co_name}"
            self.sim.fault("line:" + self.exc.__name__)
            raise self.exc("injected")

    def __enter__(self):
        self.near_mkdir = False
        self.seen = self.sim.fs_seen
        sys.settrace(self.sim.trace(self.line))
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def alloc_mode(sim, at=None, exc=None):
    from torch.utils._python_dispatch import TorchDispatchMode

    class Mode(TorchDispatchMode):
        n = 0
        fired = False

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            if any(r.alias_info is None and str(r.type) in ("Tensor", "List[Tensor]", "Tensor[]") for r in func._schema.returns):
                k = self.n
                self.n += 1
                if k == at:
                    self.fired = True
                    sim.fault("alloc:" + exc.__name__)
                    raise exc("[injected] can't allocate memory")
            return func(*args, **(kwargs or {}))

    return Mode()


class Null:
    n = 0
    near_mkdir = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


# ------------------------------------------------------------------ the model
def world(sim):
    torch = sim.torch
    return {"grad mode": torch.is_grad_enabled(), "inference mode": torch.is_inference_mode_enabled(),
            "default dtype": str(torch.get_default_dtype()), "threads": core._real["gnt"](),
            "cwd": os.getcwd(), "thread count": threading.active_count(), "filters": len(warnings.filters),
            "torch rng": hash(torch.random.get_rng_state().numpy().tobytes()), "rng": hash(random.getstate()),
            "environ": hash(tuple(sorted(os.environ.items()))), "det": torch.are_deterministic_algorithms_enabled(),
            "anomaly": torch.is_anomaly_enabled(), "umask": os.umask(os.umask(0o22)) and None}


def bits(t):
    t = t.detach()
    return (tuple(t.shape), str(t.dtype), t.contiguous().numpy().tobytes())


def snap(T):
    s = {n: (t, bits(t), t.requires_grad) for n, t in jobs.inputs(T).items()}
    for n, t in jobs.leaves(T).items():
        s[n] = (t, bits(t), t.requires_grad)
    return s


def check_world(s, w, sim, what):
    for n, (t, b, rg) in s.items():
        if bits(t) != b or t.requires_grad != rg:
            raise core.Violation("input-modified", f"{what}: input {n} changed")
    for k, v in world(sim).items():
        if w[k] != v:
            raise core.Violation("global-state", f"{what}: {k} was {w[k]}, is {v}")


def tree(d):
    return sorted(os.path.join(a, x) for a, ds, fs in os.walk(d) for x in ds + fs)


def root_cause(e, typ):
    seen = set()
    while e is not None and id(e) not in seen:
        if type(e) is typ:
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def callbacks(j, freq, hit):
    o = {"callback_frequency": freq, "forward_callback": lambda st: hit("F")}
    if not j.get("backend"):
        o["backward_callback"] = lambda st: hit("B")
    return o


def run(spec, sim):
    torch = sim.torch
    sim.fs_seen = 0
    real_mkdir = os.mkdir

    def mkdir(*a, **k):
        r = real_mkdir(*a, **k)
        sim.fs_seen += 1
        return r
    os.mkdir = mkdir
    st, st2 = os.path.join(sim.scratch, "st"), os.path.join(sim.scratch, "by")
    os.mkdir(st)
    os.mkdir(st2)
    cap = 0

    def backward(j, T, outs, retain, accumulate):
        lv = jobs.leaves(T)
        l = jobs.loss(j, outs)
        if not (isinstance(l, torch.Tensor) and l.requires_grad):
            return {}
        if accumulate:
            l.backward(retain_graph=retain)
            return {n: torch.zeros_like(t).detach() if t.grad is None else t.grad.detach().clone() for n, t in lv.items()}
        res = {}
        jobs.derive(j, l, lv, res, keep=retain)
        return res

    # a graph that has nothing to do with what is going to fail
    by = None
    if spec["by"]:
        jb = copy.deepcopy(spec["by"])
        jb["store"]["path"] = st2
        sim.begin(None)
        by_ref = jobs.guarded("unrelated propagation", jobs.full, jb)
        Tb = jobs.build(jb)
        by = (jb, Tb, jobs.guarded("unrelated propagation", jobs.call, jb, Tb), by_ref, snap(Tb))
        sim.end()
        by_tree = tree(st2)
    prev = None  # job key, tensors
    refs = {}
    for k, step in enumerate(spec["steps"]):
        j = copy.deepcopy(step["job"])
        j["store"]["path"] = st
        f = step["fault"]
        name = f"step {k} ({f['kind']}, {f.get('exc')}, {f['phase']})"
        key = repr(j) + str(step["cb"])
        if key not in refs:
            # the truth, and how often everything happens
            cnt = {"F": {}, "B": {}}
            ncb = {"F": 0, "B": 0}

            def hit(ph):
                ncb[ph] += 1
            sim.begin(None)
            T = jobs.build(j)
            mode = alloc_mode(sim)
            with Lines(sim) as ln, mode:
                outs = jobs.guarded("forward", jobs.call, j, T, **callbacks(j, step["cb"], hit))
            cnt["F"].update(line=ln.n, alloc=mode.n, crule={o: sim.op_count(o) for o in core.OPS})
            res = jobs.outcome(j, outs)
            mode = alloc_mode(sim)
            with Lines(sim) as ln, mode:
                res.update(jobs.guarded("backward", backward, j, T, outs, False, False))
            cnt["B"].update(line=ln.n, alloc=mode.n, crule={o: sim.op_count(o) - cnt["F"]["crule"][o] for o in core.OPS})
            del outs, T
            cap = max(cap, sim.end() * 40 + 50_000_000)
            cnt["F"]["cb"], cnt["B"]["cb"] = ncb["F"], ncb["B"]
            refs[key] = (res, cnt)
            gc.collect()
            if tree(st):
                raise core.Violation("leftover", f"{len(tree(st))} files left after an undisturbed propagation")
        ref, cnt = refs[key]
        if prev and prev[0] == repr(j) and step["reuse"]:
            T = prev[1]
        else:
            T = jobs.build(j)
        prev = (repr(j), T)
        s, w = snap(T), world(sim)
        for t in jobs.leaves(T).values():
            t.grad = None
        tol = jobs.tol_of(j)
        exc = EXC[f["exc"]] if f["kind"] in ("line", "cb", "alloc") else OSError
        if f["kind"] == "alloc" and exc not in (MemoryError, RuntimeError):
            exc = RuntimeError
        armed = {"cb": None}
        engine = [False]
        calls = [0]

        def hit(ph):
            if armed["cb"] is not None and ph == f["phase"]:
                calls[0] += 1
                if calls[0] - 1 == armed["cb"]:
                    armed["cb"] = None
                    sim.fault("callback:" + exc.__name__)
                    raise exc("injected")

        def attempt(ph, fn, base=None):
            """Run fn with the fault of this step if it belongs to phase ph."""
            ctx1, ctx2 = Null(), Null()
            c0 = sim.stat(5)
            f0 = sum(sim.faults.values())
            if ph == f["phase"]:
                n = cnt[ph].get(f["kind"], 0)
                if f["kind"] == "crule":
                    n = n.get(f["op"], 0)
                at = min(max(n - 1, 0), int(f["frac"] * n))
                if f["kind"] == "line":
                    ctx1 = Lines(sim, at, exc)
                elif f["kind"] == "alloc":
                    ctx2 = alloc_mode(sim, at, exc)
                elif f["kind"] == "cb" and n:
                    armed["cb"] = at
                elif f["kind"] == "crule" and n:
                    sim.rules([{"op": f["op"], "err": getattr(errno, f["err"]), "nth": at + sim.op_count(f["op"])}])
                elif f["kind"] == "mkdir":
                    sim.fs_calls["mkdir"] = 0
                    sim.fs_rules = [{"op": "mkdir", "nth": 0, "err": getattr(errno, f["err"])}]
            out, err = None, None
            try:
                with ctx1, ctx2:
                    out = fn()
            except core.Violation:
                raise
            except BaseException as e:  # noqa: BLE001
                err = e
            finally:
                sim.rules([])
                sim.fs_rules = []
                armed["cb"] = None
            hits = sim.stat(5) - c0 + sum(sim.faults.values()) - f0
            if err is None:
                if hits and f["kind"] == "cb":
                    raise core.Violation("swallowed", f"{name}: an exception raised by a callback did not reach the caller")
                sim.probe(f"survived {f['kind']}" if hits else "no fault")
                return out, False, False
            if not hits:
                raise core.Violation("unexpected-exception", f"{name}: {type(err).__name__}: {str(err)[:200]}") from err
            if f["kind"] in ("cb", "line") and not root_cause(err, exc):
                raise core.Violation("swallowed", f"{name}: {exc.__name__} reached the caller as {type(err).__name__}: {str(err)[:100]}")
            sim.probe(f"{ph} cut short: {f['kind']}")
            near = getattr(ctx1, "near_mkdir", False)
            where = getattr(ctx1, "where", None)
            if where:
                sim.note(where)
            engine[0] = ph == "B" and f["kind"] == "alloc" and not any(
                "/deepwave/" in x.filename for x in traceback.extract_tb(err.__traceback__))
            err.__traceback__ = None
            return None, True, near

        sim.begin(spec["sched"], cap)
        near = False
        over = callbacks(j, step["cb"], hit)
        outs, cut, near = attempt("F", lambda: jobs.call(j, T, **over))
        check_world(s, w, sim, name)
        if cut:
            gc.collect()
            if tree(st) and not near:
                raise core.Violation("leftover", f"{name}: {len(tree(st))} files left after a forward that failed, such as {tree(st)[0][len(st):]}")
            for x in tree(st) if near else ():
                os.rmdir(x)
            outs = jobs.guarded(name + ", forward repeated", jobs.call, j, T, **over)
        got = jobs.outcome(j, outs)
        res, cut, _ = attempt("B", lambda: backward(j, T, outs, step["retain"], step["accumulate"]))
        check_world(s, w, sim, name)
        for n, t in jobs.leaves(T).items():
            if cut and f["kind"] in ("cb", "crule") and t.grad is not None:
                raise core.Violation("partial-gradient", f"{name}: a backward that failed left a gradient in {n}")
        if cut:
            for t in jobs.leaves(T).values():
                t.grad = None  # the engine itself may stop halfway through storing the gradients
            # (Using a graph that was not kept a second time leaks it in PyTorch itself.)
            if step["retain"]:
                res = jobs.guarded(name + ", backward repeated", backward, j, T, outs, False, step["accumulate"])
                sim.probe("backward repeated")
        check_world(s, w, sim, name)
        sim.end()
        if res is not None:
            got.update(res)
        jobs.note(got)
        jobs.compare(got, {n: ref[n] for n in got} if res is None else ref, tol, name + ", repeated", kind="wrong-after-failure")
        outs = res = got = over = None
        gc.collect()
        if engine[0]:  # PyTorch's engine keeps the graph when one of its own operations fails
            shutil.rmtree(st)
            os.mkdir(st)
        if tree(st):
            raise core.Violation("leftover", f"{name}: {len(tree(st))} files left after all was dropped, such as {tree(st)[0][len(st):]}")
    if by:
        jb, Tb, ob, rb, sb = by
        if tree(st2) != by_tree:
            raise core.Violation("storage-lost", "the storage of an unrelated graph was touched")
        sim.begin(spec["sched"], 0)
        check_world(sb, world(sim), sim, "at the end")
        got = jobs.outcome(jb, ob)
        got.update(jobs.guarded("backward of an unrelated graph", backward, jb, Tb, ob, False, False))
        sim.end()
        jobs.note(got)
        jobs.compare(got, rb, jobs.tol_of(jb), "unrelated graph after failures", kind="wrong-after-failure")


def shrink(spec):
    for i in range(len(spec["steps"])):
        if len(spec["steps"]) > 1:
            yield {**spec, "steps": spec["steps"][:i] + spec["steps"][i + 1:]}
    if spec["by"]:
        yield {**spec, "by": None}
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for i, stp in enumerate(spec["steps"]):
        for ch in ({"retain": False}, {"accumulate": False}, {"cb": 1}, {"reuse": False}):
            if any(stp[k] != v for k, v in ch.items()):
                c = copy.deepcopy(spec)
                c["steps"][i].update(ch)
                yield c
        if len(spec["steps"]) == 1:
            for j in jobs.shrink_job(stp["job"]):
                c = copy.deepcopy(spec)
                c["steps"][i]["job"] = j
                yield c
            if stp["job"]["store"]["mode"] != "device" or stp["job"]["store"]["compress"]:
                c = copy.deepcopy(spec)
                c["steps"][i]["job"]["store"] = {"mode": "device", "compress": False}
                yield c
    if spec["by"]:
        for j in jobs.shrink_job(spec["by"]):
            yield {**spec, "by": j}
