"""The simulator's Python side: one process in which every source of
nondeterminism of the package under test is driven by the spec of a run."""
import builtins
import ctypes
import errno
import gc
import hashlib
import os
import pathlib
import random
import sys
import threading
import warnings

SEQ, RAND, LOCK, PCT, WRITE, EXPLICIT, BURST, CONFLICT = range(8)
STRAT_NAMES = ["seq", "rand", "lockstep", "pct", "write", "explicit", "burst", "conflict"]
OPS = ["open", "write", "read", "seek", "close", "flush", "alloc"]
ACTIONS = ["fail", "short", "late"]
EXIT_HANG, EXIT_DEADLOCK, EXIT_INTERNAL, EXIT_MEMORY = 91, 92, 93, 94


class Violation(Exception):
    """The property is broken: `kind` classifies it, `detail` says how."""

    def __init__(self, kind, detail):
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = str(detail)


class Skip(Exception):
    """This spec exercises nothing (counted, never a pass of a property)."""


class Rule(ctypes.Structure):
    _fields_ = [("op", ctypes.c_int), ("action", ctypes.c_int), ("err", ctypes.c_int),
                ("nth", ctypes.c_int64), ("arg", ctypes.c_int64), ("persist", ctypes.c_int)]


class Sw(ctypes.Structure):
    _fields_ = [("clock", ctypes.c_uint64), ("client", ctypes.c_int32), ("target", ctypes.c_int32),
                ("kind", ctypes.c_int32), ("frm", ctypes.c_int32)]


_real = {}
SIM = None
PKG = None


class URandom(random.Random):
    """What the system's random numbers are. Some sources give values that often agree in one half (and seldom in all)."""

    def __init__(self, seed):
        super().__init__(seed)
        k = random.Random(f"u{seed}").random()
        self.poor = "head" if k < 0.15 else "tail" if k < 0.3 else None

    def randbytes(self, n):
        b = super().randbytes(n)
        if self.poor and n >= 12:
            few = random.Random(f"{b[0] % 3}").randbytes(n // 2)
            b = few + b[n // 2:] if self.poor == "head" else b[:n - n // 2] + few
        return b


class SimLock:
    """Stands in for locks the package creates: a blocked client yields."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        SIM.pyield(False)
        spins = 0
        while self.depth and not (self.reentrant and self.owner == me):
            if not blocking or timeout == 0:
                return False
            spins += 1
            if timeout is not None and timeout > 0 and spins > 50:
                return False  # simulated time has passed the timeout
            if not SIM.in_clients or spins > 20000:
                os.write(2, b"dwsim: deadlock on a Python lock\n")
                os._exit(EXIT_DEADLOCK)
            SIM.pyield(True)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if not self.depth:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1
        if not self.depth:
            self.owner = None
        SIM.pyield(False)

    def locked(self):
        return self.depth > 0

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self.owner == threading.get_ident()


class Tracer:
    """A trace function (without reference cycles) for lines of the package."""

    def __init__(self, pkgdir, fn):
        self.pkgdir, self.fn = pkgdir, fn

    def __call__(self, frame, event, arg):
        return self.local if frame.f_code.co_filename.startswith(self.pkgdir) else None

    def local(self, frame, event, arg):
        if event == "line":
            self.fn(frame)
        return self.local


class Sim:
    def __init__(self, pkg):
        self.pkg = pathlib.Path(pkg)
        self.plan = [1]
        self.plan_i = 0
        self.phases = []  # (clock, digest, stats) of finished phases
        self.explicit = None  # phase index -> switch list
        self.keep = False
        self.recorded = []
        self.in_clients = False
        self.events = 0
        self.digest = hashlib.sha256()
        self.faults = {}
        self.probes = {}
        self.strats = {}
        self.fs_rules = []
        self.poison = None
        self.poison_n = 0
        self.trace_hook = None
        self.open_phase = False
        self.conflicts = 0  # places where workers of the last phase touched the same data
        self.interleavings = []
        self.urandom = URandom(0)
        self.reseed = None  # callers seed the global generators before each call
        self.time_rng = None  # set within a run: the clocks are the simulator's

    # ---- setup
    def load(self):
        import torch

        self.torch = torch
        torch.set_num_threads(1)
        _real["gnt"] = torch.get_num_threads
        torch.get_num_threads = self._threads
        pkgdir = str(self.pkg / "deepwave") + os.sep
        self.pkgdir = pkgdir
        for name, re_ in (("Lock", False), ("RLock", True)):
            real = getattr(threading, name)
            _real[name] = real

            def mk(*a, _r=real, _re=re_, **k):
                f = sys._getframe(1).f_code.co_filename
                return SimLock(_re) if f.startswith(pkgdir) else _r(*a, **k)

            setattr(threading, name, mk)
        self._patch_alloc()
        self._patch_os()
        self._patch_time()
        sys.path.insert(0, str(self.pkg))
        import deepwave

        if not deepwave.__file__.startswith(pkgdir):
            raise RuntimeError("wrong package: " + deepwave.__file__)
        self.dw = deepwave
        L = self.L = deepwave.backend_utils.dll
        u64, i64, ci = ctypes.c_uint64, ctypes.c_int64, ctypes.c_int
        L.dwsim_clock.restype = L.dwsim_stat.restype = L.dwsim_get_switches.restype = u64
        L.dwsim_stat.argtypes = [ci]
        L.dwsim_config.argtypes = [ci, u64, i64, i64, ci, ci, i64, ci]
        L.dwsim_rules.argtypes = [ctypes.c_void_p, ci]
        L.dwsim_explicit.argtypes = [ctypes.c_void_p, i64]
        L.dwsim_get_switches.argtypes = [ctypes.c_void_p, u64]
        L.dwsim_mix.argtypes = [u64]
        L.dwsim_guard.argtypes = [ctypes.c_void_p, ci]
        L.dwsim_guard_bad.argtypes = [ctypes.c_void_p] * 3
        for n in ("dwsim_guard", "dwsim_reset", "dwsim_config", "dwsim_rules", "dwsim_explicit", "dwsim_poison",
                  "dwsim_clients_begin", "dwsim_client_enter", "dwsim_client_exit", "dwsim_yield",
                  "dwsim_mix", "dwsim_set_max_threads"):
            getattr(L, n).restype = None
        assert L.dwsim_sizeof_sw() == ctypes.sizeof(Sw)
        L.dwsim_reset()
        warnings.simplefilter("ignore")
        self._warm_up()
        return self

    def _warm_up(self):
        """Pay for lazy imports once, before the runs are forked."""
        import io
        torch = self.torch
        import torch.utils.checkpoint  # noqa: F401

        b = io.BytesIO()
        torch.save({"x": torch.zeros(2)}, b)
        b.seek(0)
        torch.load(b)
        f = torch.utils.checkpoint.checkpoint
        x = torch.zeros(2, requires_grad=True)
        f(lambda y: y * 2, x, use_reentrant=True)
        f(lambda y: y * 2, x, use_reentrant=False)

    def _threads(self):
        n = self.plan[min(self.plan_i, len(self.plan) - 1)]
        self.plan_i += 1
        return n

    def _patch_alloc(self):
        """Memory that the package leaves uninitialised holds what the spec says."""
        torch = self.torch
        sim = self

        def fill(t):
            if sim.poison is not None and t.is_floating_point() and t.numel():
                with torch.no_grad():
                    t.detach().fill_(sim.poison)
                sim.poison_n += 1
            return t

        for name in ("empty", "empty_like", "empty_strided"):
            real = getattr(torch, name)

            def f(*a, _r=real, **k):
                return fill(_r(*a, **k))

            setattr(torch, name, f)
        for name in ("new_empty",):
            real = getattr(torch.Tensor, name)

            def g(self_, *a, _r=real, **k):
                return fill(_r(self_, *a, **k))

            setattr(torch.Tensor, name, g)
        real_resize = torch.Tensor.resize_

        def resize_(self_, *a, **k):
            n = self_.numel()
            r = real_resize(self_, *a, **k)
            if n == 0:
                fill(r)
            return r

        torch.Tensor.resize_ = resize_

    def _patch_os(self):
        sim = self
        _real["urandom"] = os.urandom
        _real["getpid"] = os.getpid
        os.urandom = lambda n: sim.urandom.randbytes(n)
        self.fs_calls = {"mkdir": 0, "unlink": 0, "rmdir": 0, "open": 0}
        self.fs_log = []
        for name in ("mkdir", "unlink", "rmdir"):
            real = getattr(os, name)
            _real[name] = real

            def f(path, *a, _r=real, _n=name, **k):
                return sim._fs(_n, _r, path, *a, **k)

            setattr(os, name, f)
        os.remove = os.unlink

    def _patch_time(self):
        """Clocks stand still, advance or (not the monotonic ones) jump as the seed says."""
        import time

        sim = self
        state = {"wall": 1_700_000_000_000_000_000, "mono": 10_000_000_000}
        steps = [0, 0, 0, 1, 1_000, 1_000_000, 1_000_000_000, 3_600_000_000_000]

        def mk(real, kind, ns):
            def f():
                fr, near = sys._getframe(1), False
                for _ in range(3):
                    near = near or (fr is not None and fr.f_code.co_filename.startswith(sim.pkgdir))
                    fr = fr and fr.f_back
                if sim.time_rng is None or not near:
                    return real()
                d = sim.time_rng.choice(steps)
                if kind == "wall" and sim.time_rng.random() < 0.2:
                    d = -d
                state[kind] += d
                sim.probe("clock_reads")
                return state[kind] if ns else state[kind] / 1e9
            return f

        for name, kind, ns in (("time", "wall", 0), ("time_ns", "wall", 1), ("monotonic", "mono", 0),
                               ("monotonic_ns", "mono", 1), ("perf_counter", "mono", 0), ("perf_counter_ns", "mono", 1)):
            setattr(time, name, mk(getattr(time, name), kind, ns))

    def new_call(self):
        """A caller is about to call the package."""
        if self.reseed is not None:
            random.seed(self.reseed)
            self.torch.manual_seed(self.reseed)
            if "numpy" in sys.modules:
                sys.modules["numpy"].random.seed(self.reseed)

    def _fs(self, name, real, path, *a, **k):
        if sys._getframe(1) is None or not self.fs_rules:
            return real(path, *a, **k)
        n = self.fs_calls[name]
        self.fs_calls[name] += 1
        for r in self.fs_rules:
            if r["op"] == name and (n == r["nth"] or (r.get("persist") and n >= r["nth"])):
                self.fault(f"{name}:{errno.errorcode[r['err']]}")
                raise OSError(r["err"], os.strerror(r["err"]), os.fspath(path) if not isinstance(path, int) else None)
        return real(path, *a, **k)

    # ---- accounting
    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def note(self, *vals):
        """Add observable facts to the digest of this run."""
        self.digest.update(repr(vals).encode())

    def note_tensor(self, t):
        self.digest.update(t.detach().contiguous().numpy().tobytes())

    # ---- phases
    def begin(self, sched=None, cap=0):
        """Start a simulated phase under `sched` (None: one worker, in order)."""
        if self.open_phase:
            self.end()
        s = sched or {"strategy": SEQ, "threads": [1]}
        self.plan = list(s.get("threads", [1]))
        self.plan_i = 0
        L = self.L
        L.dwsim_reset()
        k = len(self.phases)
        ex = None if self.explicit is None else self.explicit.get(str(k))
        strat = EXPLICIT if ex is not None and sched is not None else s["strategy"]
        L.dwsim_set_max_threads(max(self.plan))
        L.dwsim_config(strat, s.get("seed", 0), s.get("p1", 1), s.get("p2", 1), s.get("limit", 0),
                       s.get("shuffle", 0), cap, s.get("client", 0))
        if strat == EXPLICIT:
            arr = (Sw * max(1, len(ex)))(*[Sw(*e) for e in ex])
            L.dwsim_explicit(ctypes.byref(arr), len(ex))
        self.cur_sched = s if sched is not None else None
        self.open_phase = True

    def rules(self, rules):
        arr = (Rule * max(1, len(rules)))(*[
            Rule(OPS.index(r["op"]), ACTIONS.index(r.get("action", "fail")), r.get("err", errno.EIO),
                 r.get("nth", 0), r.get("arg", 0), 1 if r.get("persist") else 0) for r in rules])
        self.L.dwsim_rules(ctypes.byref(arr), len(rules))
        self._cur_rules = rules

    def stat(self, i):
        return int(self.L.dwsim_stat(i))

    def op_count(self, op):
        return self.stat(100 + OPS.index(op))

    def clock(self):
        return int(self.L.dwsim_clock())

    def end(self):
        L = self.L
        self.open_phase = False
        clock = self.clock()
        self.events += clock
        dg = self.stat(0)
        self.digest.update(f"{dg}:{clock}".encode())
        for i, op in enumerate(OPS):
            for j, ac in enumerate(ACTIONS):
                n = self.stat(200 + 3 * i + j)
                if n:
                    self.fault(f"{op}:{ac}", n)
        nsw = self.stat(1)
        if self.cur_sched is not None:
            st = STRAT_NAMES[self.cur_sched["strategy"]]
            self.strats[st] = self.strats.get(st, 0) + 1
            self.interleavings.append(dg)
            if self.keep:
                n = min(nsw, 1 << 20)
                buf = (Sw * max(1, n))()
                n = int(L.dwsim_get_switches(ctypes.byref(buf), n))
                self.recorded.append([str(len(self.phases)),
                                      [[b.clock, b.client, b.target, b.kind, b.frm] for b in buf[:n]]])
        else:
            self.probe("unscheduled_phases")
        self.probe("switches", nsw)
        self.probe("client_switches", self.stat(4))
        self.probe("workers_run", self.stat(9))
        self.conflicts = self.stat(8)
        self.probe("bytes_written", self.stat(6))
        self.probe("bytes_read", self.stat(7))
        self.phases.append(clock)
        L.dwsim_reset()
        L.dwsim_config(SEQ, 0, 1, 1, 0, 0, 0, 0)
        return clock

    def set_poison(self, value, byte=None):
        self.poison = value
        self.L.dwsim_poison(-1 if byte is None else byte)

    def perturb(self, byte):
        """Every block the process allocates from now on is filled with `byte`."""
        libc = ctypes.CDLL(None)
        libc.mallopt(-6, 0 if byte is None else (byte ^ 0xFF))

    # ---- Python-level preemption and faults
    def trace(self, fn):
        """Call fn(frame) at every line of the package run by this thread."""
        return Tracer(self.pkgdir, fn)

    def pyield(self, forced):
        if self.in_clients:
            self.L.dwsim_yield(1 if forced else 0)

    def clients(self, fns, lines=True):
        """Run every fn in its own simulated client thread; returns outcomes."""
        out = [None] * len(fns)
        L = self.L
        L.dwsim_clients_begin(len(fns))
        self.in_clients = True

        def body(i):
            L.dwsim_client_enter(i)
            try:
                if lines:
                    sys.settrace(self.trace(lambda fr: L.dwsim_yield(0)))
                try:
                    out[i] = ("ok", fns[i]())
                except Violation:
                    raise
                except BaseException as e:  # noqa: BLE001
                    out[i] = ("exc", e)
                finally:
                    sys.settrace(None)
            except Violation as e:
                out[i] = ("violation", e)
            finally:
                L.dwsim_client_exit(i)

        ts = [threading.Thread(target=body, args=(i,)) for i in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        self.in_clients = False
        for o in out:
            if o and o[0] == "violation":
                raise o[1]
        return out


def gen_sched(rng, max_threads=8, clients=False, heavy=1.0):
    """A swarm of schedule kinds for the simulated OpenMP team."""
    st = rng.choices([RAND, LOCK, PCT, WRITE, BURST, CONFLICT, SEQ], [22, 6, 16, 18, 14, 18, 6])[0]
    s = {"strategy": st, "seed": rng.getrandbits(48), "shuffle": 1}
    if st == RAND:
        s["p1"] = rng.choice([3, 10, 40, 200, 1000, 10000])
    elif st == LOCK:
        s["p1"] = rng.choice([1, 1, 2, 3, 7])
    elif st == PCT:
        s["p1"] = rng.choice([20000, 200000, 2000000])
        s["p2"] = rng.randint(1, 8)
    elif st == WRITE:
        s["p1"] = rng.choice([1, 2, 5, 30, 200])
    elif st == BURST:
        s["p1"] = rng.choice([200, 2000, 20000])
        s["p2"] = rng.choice([20, 100, 1000])
    t = rng.choice([2, 2, 3, 3, 4, 5, 7, 8, 16, 64])
    s["threads"] = [min(t, max_threads)]
    if rng.random() < 0.3:
        s["threads"] = [min(rng.choice([1, 2, 3, 4, 5, 8, 16]), max_threads) for _ in range(6)]
    if rng.random() < 0.1:
        s["limit"] = rng.randint(1, 4)
    return s


def setup(pkg):
    global SIM, PKG
    PKG = pathlib.Path(pkg)
    SIM = Sim(pkg).load()
    return SIM
