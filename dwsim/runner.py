"""Runs a property's simulated executions: many seeds over forked workers, one
fresh process per run; minimises and replays what fails; writes the evidence."""
import copy
import gc
import hashlib
import importlib
import json
import os
import pathlib
import random
import select
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

from . import build as builder
from . import core

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = sys.executable
RUN_TIMEOUT = 150
KNOWN = ROOT / "known_findings.txt"


def rng_for(prop, seed, i):
    return random.Random(f"{prop}:{seed}:{i}")


def gen(mod, prop, seed, i, tier):
    rng = rng_for(prop, seed, i)
    spec = mod.gen(rng, tier)
    spec.setdefault("reseed", rng.choice([None, 1]))
    return spec


# ------------------------------------------------------------------ one run
def coverage_start(sim):
    """For development (DWSIM_COV=file): which lines of the package do runs reach?"""
    if not os.environ.get("DWSIM_COV"):
        return None
    seen, mon = set(), sys.monitoring

    def line(code, n):
        if code.co_filename.startswith(sim.pkgdir):
            seen.add((code.co_filename[len(sim.pkgdir):], n))
        return mon.DISABLE

    mon.use_tool_id(mon.COVERAGE_ID, "dwsim")
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    return seen


def coverage_end(seen):
    if seen is not None:
        fd = os.open(os.environ["DWSIM_COV"], os.O_CREAT | os.O_APPEND | os.O_WRONLY)
        os.write(fd, "".join(f"{f}:{n}\n" for f, n in sorted(seen)).encode())
        os.close(fd)


def child_main(mod, spec, explicit, keep, wfd, scratch):
    sim = core.SIM
    out = {}
    try:
        os.makedirs(scratch, exist_ok=True)
        err = os.open(os.path.join(scratch, ".stderr"), os.O_CREAT | os.O_WRONLY | os.O_TRUNC)
        os.dup2(err, 2)
        gc.disable()
        sim.scratch = scratch
        sim.explicit = explicit
        sim.keep = keep
        random.seed(1)
        sim.torch.manual_seed(1)
        sim.urandom = core.URandom(spec.get("useed", 7))
        sim.reseed = spec.get("reseed")
        sim.time_rng = random.Random(spec.get("useed", 7) + 1)
        cov = coverage_start(sim)
        try:
            mod.run(spec, sim)
            out["status"] = "ok"
        except core.Violation as e:
            out.update(status="violation", kind=e.kind, detail=e.detail)
        except core.Skip as e:
            out.update(status="skip", detail=str(e))
        except Exception as e:  # noqa: BLE001
            # nothing the checks do excuses an error that arises in the package itself
            fr = [f for f in traceback.extract_tb(e.__traceback__) if "/torch/" not in f.filename]
            if isinstance(e, MemoryError) or not fr or "/pkg/deepwave/" not in fr[-1].filename:
                raise
            out.update(status="violation", kind="unexpected-exception",
                       detail=f"{type(e).__name__}: {str(e)[:300]} ({os.path.basename(fr[-1].filename)}, {fr[-1].name})")
        sys.settrace(None)
        coverage_end(cov)
        if sim.open_phase:
            sim.end()
    except BaseException:  # noqa: BLE001
        out.update(status="error", detail=traceback.format_exc()[-3000:])
    try:
        out.update(digest=sim.digest.hexdigest(), events=sim.events, inter=sim.interleavings,
                   faults=sim.faults, probes=sim.probes, strats=sim.strats)
        if keep:
            out["recorded"] = sim.recorded
        data = json.dumps(out).encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]
    finally:
        os._exit(0)


def run_spec(mod, spec, work, tag, explicit=None, keep=False, timeout=RUN_TIMEOUT):
    """Execute one spec in a forked child and classify how it ended."""
    scratch = os.path.join(work, "run-" + tag)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.setpgid(0, 0)
        child_main(mod, spec, explicit, keep, w, scratch)
    os.close(w)
    data = b""
    end = time.monotonic() + timeout
    timed_out = False
    while True:
        left = end - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        data += b
    os.close(r)
    try:  # whatever the run forked dies with it
        os.killpg(pid, signal.SIGKILL) if timed_out else None
    except (ProcessLookupError, PermissionError):
        pass
    if timed_out:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    _, st = os.waitpid(pid, 0)
    msg = ""
    try:
        with open(os.path.join(scratch, ".stderr"), errors="replace") as f:
            msg = f.read()[-600:]
    except OSError:
        pass
    shutil.rmtree(scratch, ignore_errors=True)
    if timed_out:
        return {"status": "timeout", "detail": f"no end after {timeout} s"}
    if data:
        try:
            return json.loads(data)
        except ValueError:
            pass
    base = {"digest": "", "events": 0, "inter": [], "faults": {}, "probes": {}, "strats": {}}
    if os.WIFSIGNALED(st):
        s = os.WTERMSIG(st)
        if s == signal.SIGKILL:
            return {"status": "error", "detail": "run was killed (out of memory?)", **base}
        return {"status": "violation", "kind": "crash", "detail": f"killed by {signal.Signals(s).name} {msg}", **base}
    code = os.WEXITSTATUS(st)
    if code == core.EXIT_HANG:
        return {"status": "violation", "kind": "hang", "detail": "no progress within the step bound: " + msg, **base}
    if code == core.EXIT_DEADLOCK:
        return {"status": "violation", "kind": "deadlock", "detail": msg, **base}
    if code == core.EXIT_MEMORY:
        return {"status": "violation", "kind": "memory", "detail": msg, **base}
    return {"status": "error", "detail": f"run exited {code}: {msg}", **base}


# ------------------------------------------------------------------ workers
def worker_main(mod, prop, seed, tier, idx, wfd, work, t_end):
    f = os.fdopen(wfd, "wb", buffering=0)
    for n, i in enumerate(idx):
        if time.monotonic() > t_end:
            break
        try:
            spec = gen(mod, prop, seed, i, tier)
            res = run_spec(mod, spec, work, str(i))
            if i % 40 == 7 and res["status"] in ("ok", "skip"):
                again = run_spec(mod, spec, work, f"{i}b")
                if again.get("digest") != res["digest"]:
                    res["nondet"] = True
                res["twice"] = True
        except BaseException:  # noqa: BLE001
            res = {"status": "error", "detail": traceback.format_exc()[-3000:]}
            spec = None
        res["i"] = i
        if i < 3 or (res["status"] in ("violation", "error", "timeout")):
            res["spec"] = spec
        f.write(json.dumps(res).encode() + b"\n")
    f.close()
    os._exit(0)


def batch(mod, prop, seed, tier, n, workers, work, cap, stop=True, start=0):
    """Run indices start..start+n-1; yields results as they come."""
    t_end = time.monotonic() + cap
    pids, fds = [], {}
    for w in range(workers):
        r, wf = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for q in fds:
                os.close(q)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            worker_main(mod, prop, seed, tier, range(start + w, start + n, workers), wf, work, t_end)
        os.close(wf)
        pids.append(pid)
        fds[r] = [b"", w]
    progress = [-1] * workers
    hit, grace = None, None
    while fds:
        to = 1.0
        if hit is not None:
            # let lower indices finish, so that the report does not depend on timing
            if all(progress[fds[r][1]] >= hit or start + fds[r][1] > hit for r in fds) or time.monotonic() > grace:
                break
        rd, _, _ = select.select(list(fds), [], [], to)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                del fds[r]
                continue
            fds[r][0] += b
            *lines, fds[r][0] = fds[r][0].split(b"\n")
            for ln in lines:
                res = json.loads(ln)
                progress[fds[r][1]] = res["i"]
                if stop and res["status"] == "violation" and (hit is None or res["i"] < hit):
                    hit = res["i"]
                    grace = grace or time.monotonic() + 20
                yield res
    for p in pids:
        try:
            os.kill(p, signal.SIGKILL)
        except ProcessLookupError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass


# ------------------------------------------------------------------ minimise
def minimise(mod, spec, kind, work, budget):
    t_end = time.monotonic() + budget
    tries = [0]

    def fails(s, explicit=None):
        tries[0] += 1
        r = run_spec(mod, s, work, f"min{tries[0]}", explicit=explicit, timeout=60)
        return r if r["status"] == "violation" and r["kind"] == kind else None

    changed = True
    while changed and time.monotonic() < t_end:
        changed = False
        for c in mod.shrink(copy.deepcopy(spec)):
            if time.monotonic() > t_end:
                break
            if c == spec:
                continue
            try:
                ok = fails(c)
            except Exception:  # noqa: BLE001
                continue
            if ok:
                spec = c
                changed = True
                break
    # now the schedule: explicit switches, then drop as many as possible
    explicit = None
    r = run_spec(mod, spec, work, "rec", keep=True, timeout=60)
    rec = r.get("recorded")
    if r["status"] == "violation" and rec is not None:
        flat = [(ph, tuple(s)) for ph, sws in rec for s in sws]

        def to_ex(items):
            e = {ph: [] for ph, _ in rec}
            for ph, s in items:
                e[ph].append(list(s))
            return e

        if len(flat) <= 300000 and fails(spec, to_ex(flat)):
            if fails(spec, to_ex([])):
                flat = []
            n = 2
            while len(flat) > 1 and time.monotonic() < t_end + budget / 2:
                k = max(1, len(flat) // n)
                for a in range(0, len(flat), k):
                    if time.monotonic() > t_end + budget / 2:
                        break
                    c = flat[:a] + flat[a + k:]
                    if fails(spec, to_ex(c)):
                        flat = c
                        n = max(2, n - 1)
                        break
                else:
                    if k == 1:
                        break
                    n = min(len(flat), n * 2)
            if len(flat) == 1 and fails(spec, to_ex([])):
                flat = []
            explicit = to_ex(flat)
    return spec, explicit, tries[0]


# ------------------------------------------------------------------ commands
def heap(argv):
    """For checks that need it: a library that knows the bounds of every block, to be preloaded."""
    prop = next((a for a in argv[1:] if a[:1] == "C" and a[1:].isdigit()), None)
    if argv[:1] == ["replay"]:
        prop = json.loads(pathlib.Path(argv[1]).read_text())["property"]
    if prop is None or not getattr(importlib.import_module(f"dwsim.checks.{prop.lower()}"), "HEAP", False):
        return None
    fd, so = tempfile.mkstemp(prefix="dwsim-heap-", suffix=".so")
    os.close(fd)
    builder.sh([builder.GCC, "-O2", "-shared", "-fPIC", "-fno-builtin", "-o", so, str(builder.HERE / "rt" / "heap.c")])
    return so


def prepare(pkg=None):
    t = time.monotonic()
    work = tempfile.mkdtemp(prefix="dwsim-")
    info = {}
    if pkg is None:
        info = builder.build(pathlib.Path(work) / "b")
        pkg = os.path.join(work, "b", "pkg")
    info["build_s"] = round(time.monotonic() - t, 2)
    core.setup(pkg)
    gc.collect()
    gc.freeze()  # collections in the runs look at their own objects only
    return work, pkg, info


def setup_check():
    """Show that the machinery builds and loads here (nothing is kept)."""
    work, pkg, info = prepare()
    shutil.rmtree(work, ignore_errors=True)
    print("dwsim: simulated package builds and loads", info)
    return 0


def known_findings(prop):
    out = []
    if KNOWN.exists():
        for ln in KNOWN.read_text().splitlines():
            if ln.startswith("finding:") and f"property={prop} " in ln:
                out.append(ln)
    return out


def merge(a, b):
    for k, v in (b or {}).items():
        a[k] = a.get(k, 0) + v


def check(prop, tier, seed, workers=None, n=None, cap=None, start=0, quiet=False):
    t0 = time.monotonic()
    mod = importlib.import_module(f"dwsim.checks.{prop.lower()}")
    workers = workers or os.cpu_count() or 4
    try:
        work, pkg, info = prepare()
    except builder.BuildError as e:
        print("cannot build the package under test:\n" + str(e))
        return 2
    try:
        n = n or mod.RUNS[0 if tier == "quick" else 1]
        cap = cap or (150 if tier == "quick" else 1800)
        agg = {"events": 0, "faults": {}, "probes": {}, "strats": {}}
        runs = 0
        status = {}
        keys, inters = set(), set()
        samples, errors, viols = [], [], []
        twice = nondet = 0
        for r in batch(mod, prop, seed, tier, n, workers, work, cap, start=start):
            runs += 1
            status[r["status"]] = status.get(r["status"], 0) + 1
            if r["status"] in ("error", "timeout"):
                errors.append(r)
            if r["status"] == "violation":
                viols.append(r)
            agg["events"] += r.get("events", 0)
            for k in ("faults", "probes", "strats"):
                merge(agg[k], r.get(k))
            inters.update(r.get("inter", []))
            if r["status"] == "ok" and (any(r.get("inter", [])) or r.get("faults")):
                keys.add(r["digest"])
            if r.get("twice"):
                twice += 1
                nondet += bool(r.get("nondet"))
            if r["i"] - start < 3 and r.get("spec") and len(samples) < 3:
                samples.append({"index": r["i"], "spec": r["spec"], "outcome": r["status"], "digest": r.get("digest")})
        t_batch = time.monotonic() - t0 - info["build_s"]
        replay = None
        vinfo = []
        if viols:
            v = min(viols, key=lambda r: r["i"])
            spec, explicit, tries = minimise(mod, v["spec"], v["kind"], work, 20 if tier == "quick" else 120)
            fin = run_spec(mod, spec, work, "final", explicit=explicit)
            rep = {"property": prop, "seed": seed, "index": v["i"], "tier": tier, "kind": v["kind"],
                   "detail": fin.get("detail", v["detail"]), "first_seen": v["detail"], "spec": spec,
                   "explicit": explicit, "digest": fin.get("digest"), "minimise_runs": tries,
                   "original_spec": v["spec"], "source_sha256": info.get("source_sha256")}
            d = ROOT / "replays"
            d.mkdir(exist_ok=True)
            replay = d / f"{prop}-{seed}-{v['i']}.json"
            replay.write_text(json.dumps(rep, indent=1))
            p = subprocess.run([PY, "-B", "-m", "dwsim", "replay", str(replay), "--pkg", pkg], cwd=ROOT,
                               capture_output=True, text=True, timeout=200)
            same = p.returncode == 1 and "digest matches" in p.stdout
            vinfo = [{"kind": v["kind"], "detail": rep["detail"], "replay": str(replay),
                      "replayed_in_fresh_process": p.returncode == 1, "same_digest": same}]
        wall = time.monotonic() - t0
        cov = {
            "evaluations": runs,
            "distinct_nontrivial": len(keys),
            "rule": mod.RULE + " A run counts as non-trivial when it passed and at least one phase ran under "
                    "the simulator's scheduler or a fault fired; runs are distinct when the digest over their "
                    "schedule, faults and results differs.",
            "samples": samples,
            "outcomes": status,
            "runs_per_hour": round(runs / max(t_batch, 1e-9) * 3600),
            "seeds_per_hour": round(runs / max(t_batch, 1e-9) * 3600),
            "simulated_time": {"events": agg["events"], "events_per_hour": round(agg["events"] / max(t_batch, 1e-9) * 3600),
                               "unit": "instrumented memory accesses, runtime and file calls of the compiled propagators, plus Python lines in client runs"},
            "faults_fired": dict(sorted(agg["faults"].items())),
            "distinct_interleavings": len(inters),
            "interleaving_measure": "hash over every hand-over (simulated time, from, to) and file operation of a phase",
            "schedulers": dict(sorted(agg["strats"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "determinism": {"runs_repeated": twice, "digest_differences": nondet},
            "components_real": ["compiled CPU propagators (C, built from the working tree, instrumented)",
                                "Python front end, autograd functions, storage manager (working tree)",
                                "PyTorch", "files in a scratch directory"],
            "components_simulated": ["OpenMP runtime and worker threads", "thread count", "libc file calls (fault seam)",
                                     "allocator of the compiled code", "caller threads' scheduling", "locks of the package",
                                     "os.urandom/mkdir/unlink/rmdir (fault seam)"],
            "components_absent": ["CUDA back end", "jit/compile Python back ends"],
            "workers": workers, "build_s": info["build_s"], "source_sha256": info.get("source_sha256"),
        }
        ev = {"property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL, "coverage": cov,
              "wall_s": round(wall, 2), "assumptions": getattr(mod, "ASSUME", []), "violations": vinfo}
        (ROOT / "evidence").mkdir(exist_ok=True)
        (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1))
        for k in known_findings(prop):
            print("KNOWN-FINDING: " + k.split(":", 1)[1].strip())
        if not quiet:
            print(f"{prop} {tier} seed={seed}: {runs} runs {status} events={agg['events']:.3g} "
                  f"interleavings={len(inters)} faults={agg['faults']} wall={wall:.1f}s")
            print("probes", agg["probes"])
        if viols:
            print(f"{vinfo[0]['kind']}: {vinfo[0]['detail']}")
            if errors:
                print(f"({len(errors)} other runs gave no answer: {errors[0].get('detail')})")
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        if errors:
            print(f"{len(errors)} runs gave no answer; first (index {errors[0].get('i')}):\n{errors[0].get('detail')}")
            print(json.dumps(errors[0].get("spec")))
            return 2
        if nondet:
            print(f"{nondet} of {twice} repeated runs differed: the simulator lost control of something")
            return 2
        if not keys:
            print("nothing was explored")
            return 2
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path, pkg=None):
    rep = json.loads(pathlib.Path(path).read_text())
    mod = importlib.import_module(f"dwsim.checks.{rep['property'].lower()}")
    work, pkg, info = prepare(pkg)
    try:
        r = run_spec(mod, rep["spec"], work, "replay", explicit=rep.get("explicit"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(r["status"], r.get("kind"), r.get("detail"))
    if r["status"] == "violation":
        print("digest matches" if r.get("digest") == rep.get("digest") else "digest differs")
        print(f"VIOLATION property={rep['property']} replay={path}")
        return 1
    return 0 if r["status"] == "ok" else 2


def one(prop, seed, i, pkg=None):
    mod = importlib.import_module(f"dwsim.checks.{prop.lower()}")
    work, pkg, info = prepare(pkg)
    try:
        spec = gen(mod, prop, seed, i, "quick")
        print(json.dumps(spec))
        r = run_spec(mod, spec, work, "one")
        r["inter"] = len(r.get("inter", []))
        print(json.dumps(r, indent=1).replace("\\n", "\n"))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def digests(prop, seed, n, workers, pkg=None):
    """Print the digest of every run: input of the determinism self-test."""
    mod = importlib.import_module(f"dwsim.checks.{prop.lower()}")
    work, pkg, info = prepare(pkg)
    try:
        out = {}
        for r in batch(mod, prop, seed, "quick", n, workers, work, 3600, stop=False):
            out[r["i"]] = [r["status"], r.get("digest"), r.get("kind")]
        return {str(k): out[k] for k in sorted(out)}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def selftest(props, seed=1, n=40):
    """Each property's runs: twice, at different worker counts, under another
    PYTHONHASHSEED, in fresh interpreters (and so at other addresses)."""
    work = tempfile.mkdtemp(prefix="dwsim-st-")
    bad = 0
    try:
        builder.build(pathlib.Path(work) / "b")
        pkg = os.path.join(work, "b", "pkg")
        for prop in props:
            outs = []
            for workers, hs in ((8, "0"), (8, "0"), (3, "1"), (1, "4242")):
                m = n if workers > 1 else max(4, n // 4)
                p = subprocess.run([PY, "-B", "-m", "dwsim", "digests", prop, "--seed", str(seed), "--n", str(m),
                                    "--workers", str(workers), "--pkg", pkg], cwd=ROOT, capture_output=True,
                                   text=True, env={**os.environ, "PYTHONHASHSEED": hs})
                outs.append(json.loads(p.stdout.splitlines()[-1]))
            diffs = [i for i in outs[0] for o in outs[1:] if i in o and o[i] != outs[0][i]]
            print(f"selftest {prop}: {sum(len(o) for o in outs)} runs, {len(set(diffs))} indices differ {sorted(set(diffs))[:5]}")
            bad += len(diffs)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0
