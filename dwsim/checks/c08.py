"""Temporary storage exists as long as it may be needed, and nothing else is touched."""
import atexit
import copy
import errno
import gc
import json
import os
import random
import subprocess
import sys

from .. import core, jobs

LEVEL = "fault_enumeration"
RUNS = (450, 12000)
RULE = ("Each run drives one to three processes (some forked while graphs are alive, some sharing a pid as in containers, "
        "some killed) through a random history of propagations stored on disk, repeated, failing and interrupted "
        "backpropagations, drops, directory changes and reseeding, in directories with other files; after each step the "
        "whole tree is compared with a model of what must exist, and gradients with the same propagation in memory.")
PATHS = [".", "a", "a/b", "sp ace", "ünï", "a/../a", "a/", "link", "new/nested/dir", "%s%d", "rel"]
FOREIGN = ["shot_0.bin", "deepwave_tmp_", "deepwave_tmp_{pid}_0123456789abcdef0123456789abcdef/shot_0.bin",
           "deepwave_tmp_{pid}_0/shot_1.bin", "notes.txt", "x/y/z.bin", ".hidden", "deepwave_tmp_{pid}/keep.me"]


def gen(rng, tier):
    n = rng.randint(1, 4)
    base = jobs.gen_job(rng, max_shots=3, small=True, long_ok=False, dtypes=False)
    js = []
    for i in range(n):
        j = copy.deepcopy(base) if rng.random() < 0.7 else jobs.gen_job(rng, max_shots=3, small=True, long_ok=False, dtypes=False)
        j["seed"] = rng.getrandbits(40)
        j["store"] = {"mode": rng.choices(["disk", "device", "none"], [88, 7, 5])[0], "compress": rng.random() < 0.3}
        if rng.random() < 0.9 and not any(j["rg"]["models"]):
            j["rg"]["models"][0] = True
        js.append(j)
    same = rng.random() < 0.6
    paths = [rng.choice(PATHS)] * n if same else [rng.choice(PATHS) for _ in range(n)]
    nproc = rng.choices([1, 2, 3], [50, 35, 15])[0]
    ops = []
    state = {}  # (proc, i) -> live/done
    procs = {0: "main"}
    killed = set()
    for p in range(1, nproc):
        procs[p] = rng.choice(["peer", "samepid"])
    forked = nproc
    for _ in range(rng.randint(4, 14)):
        p = rng.choice([q for q in procs if q not in killed])
        live = [i for (q, i), s in state.items() if q == p and s == "live"]
        held = [i for (q, i), s in state.items() if q == p]
        free = [i for i in range(n) if i not in held]
        c = []
        if free:
            c += ["F"] * 6 + ["X"] * 2
        if live:
            c += ["B"] * 3 + ["K"] * 2 + ["BX"]
        if held:
            c += ["D"] * 3
        if p == 0 and forked < 5 and held:
            c += ["fork"] * 2
        c += ["chdir", "seed", "gc"]
        if p > 0 and held:
            c += ["kill"]
        if p > 0:
            c += ["exit"]
        o = rng.choice(c)
        if o == "fork":
            procs[forked] = "fork"
            for (q, i), s in list(state.items()):
                if q == 0:
                    state[(forked, i)] = s
            ops.append(["fork", 0, forked])
            forked += 1
            continue
        if o in ("chdir", "seed", "gc"):
            ops.append([o, p, rng.randrange(3)])
            continue
        if o in ("kill", "exit"):
            ops.append([o, p, 0])
            killed.add(p)
            for k in [k for k in state if k[0] == p]:
                del state[k]
            continue
        if o in ("F", "X"):
            i = rng.choice(free)
            ops.append([o, p, i] + ([rng.choice(["cb", "mkdir", "file"])] if o == "X" else []))
            if o == "F":
                state[(p, i)] = "live"
        elif o == "D":
            i = rng.choice(held)
            ops.append(["D", p, i, rng.random() < 0.15])
            del state[(p, i)]
        else:
            i = rng.choice(live)
            ops.append([o, p, i])
            if o == "B":
                state[(p, i)] = "done"
    return {"jobs": js, "paths": paths, "procs": {str(k): v for k, v in procs.items() if v != "fork"}, "ops": ops,
            "foreign": sorted(rng.sample(FOREIGN, rng.randint(0, 4))), "sched": core.gen_sched(rng, 6),
            "useed": rng.getrandbits(20), "exit": rng.choice(["end", "raise", "cycle"]) if rng.random() < 0.03 else None}


class Boom(Exception):
    pass


class Node:
    """One simulated process: owns graphs and executes operations."""

    def __init__(self, sim, spec, num, refs):
        self.sim, self.spec, self.num, self.refs = sim, spec, num, refs
        self.held = {}
        self.boom = False

    def path(self, i):
        p = self.spec["paths"][i]
        st = os.path.join(self.sim.scratch, "st")
        return "rel/st" if p == "rel" else os.path.join(st, p)

    def job(self, i):
        j = copy.deepcopy(self.spec["jobs"][i])
        j["store"]["path"] = self.path(i)
        return j

    def cb(self, st):
        if self.boom:
            raise Boom

    def do(self, op):
        sim = self.sim
        o, i = op[0], op[2]
        if o == "chdir":
            os.chdir(os.path.join(sim.scratch, f"cwd{i}"))
        elif o == "seed":
            random.seed(i)
            sim.torch.manual_seed(i)
        elif o == "gc":
            gc.collect()
        elif o == "F":
            j = self.job(i)
            T = jobs.build(j)
            sim.begin(self.spec["sched"])
            outs = jobs.guarded("forward", jobs.call, j, T, backward_callback=self.cb, callback_frequency=1)
            sim.end()
            self.held[i] = [j, T, outs]
        elif o == "X":
            j = self.job(i)
            ov = {}
            if op[3] == "cb":
                self.boom = True
                ov = {"forward_callback": self.cb}
            elif op[3] == "mkdir":
                sim.fs_calls["mkdir"] = 0
                sim.fs_rules = [{"op": "mkdir", "nth": 0, "err": errno.EACCES, "persist": True}]
            else:
                j["store"]["path"] = os.path.join(sim.scratch, "st", "afile")
                if "disk" == j["store"]["mode"]:
                    j["store"]["mode"] = "disk"
            T = jobs.build(j)
            sim.begin(self.spec["sched"])
            try:
                jobs.call(j, T, **ov)
            except (Boom, OSError, RuntimeError) as e:
                sim.probe(f"forward failed: {op[3]}")
                e.__traceback__ = None
            sim.fs_rules = []
            sim.end()
            self.boom = False
            del T
            gc.collect()
        elif o in ("B", "K", "BX"):
            j, T, outs = self.held[i]
            torch = sim.torch
            self.boom = o == "BX"
            sim.begin(self.spec["sched"])
            lv = jobs.leaves(T)
            l = jobs.loss(j, outs)
            if isinstance(l, torch.Tensor) and l.requires_grad:
                try:
                    res = {}
                    jobs.derive(j, l, lv, res, keep=o != "B")
                except Boom:
                    sim.probe("backward failed")
                except Exception as e:
                    if op[3:] == ["lost"]:  # its creator has dropped the storage
                        sim.end()
                        return {}
                    raise core.Violation("unexpected-exception", f"backward of propagation {i}: {type(e).__name__}: {e}") from e
                else:
                    jobs.note(res)
                    only = None
                    if j["store"]["mode"] == "none":
                        only = lambda n: not n.startswith(("g:model", "h:"))  # noqa: E731
                    jobs.compare(res, {n: x for n, x in self.refs[i].items() if n in res}, jobs.tol_of(j),
                                 f"process {self.num}, propagation {i}", kind="wrong-gradient", only=only)
            sim.end()
            self.boom = False
        elif o == "D":
            if op[3]:
                sim.fs_calls.update(unlink=0, rmdir=0)
                sim.fs_rules = [{"op": "unlink", "nth": 0, "err": errno.EBUSY, "persist": True}]
            x = self.held.pop(i)
            # also through a reference cycle
            if i % 2:
                x.append(x)
            del x
            gc.collect()
            sim.fs_rules = []
        return {}


def remote(sim, spec, num, refs, kind, node=None):
    """Start a process; returns [pid, to, from]."""
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    main_pid = os.getpid()
    pid = os.fork()
    if pid:
        os.close(r1)
        os.close(w2)
        return [pid, os.fdopen(w1, "w"), os.fdopen(r2, "r")]
    try:
        os.close(w1)
        os.close(r2)
        if kind == "samepid":
            os.getpid = lambda: main_pid
        sim.urandom = core.URandom(f"{spec['useed']}:{num}")
        random.seed(num)
        if node is None:
            node = Node(sim, spec, num, refs)
        else:
            node.num = num
        # whatever this process had counted before stays with its parent
        sim.faults, sim.probes, sim.events, sim.interleavings = {}, {}, 0, []
        fi, fo = os.fdopen(r1, "r"), os.fdopen(w2, "w")
        for ln in fi:
            op = json.loads(ln)
            if op is None:  # an ordinary exit while results are alive
                atexit._run_exitfuncs()
                break
            out = {}
            try:
                node.do(op)
            except core.Violation as e:
                out = {"violation": [e.kind, e.detail]}
            except BaseException as e:  # noqa: BLE001
                import traceback
                out = {"error": traceback.format_exc()[-1500:]}
            out.update(digest=sim.digest.hexdigest(), faults=sim.faults, probes=sim.probes, events=sim.events,
                       inter=sim.interleavings)
            sim.faults, sim.probes, sim.events, sim.interleavings = {}, {}, 0, []
            fo.write(json.dumps(out) + "\n")
            fo.flush()
    finally:
        os._exit(0)


def scan(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.join(d, x)] = None
        for x in fs:
            out[os.path.join(d, x)] = os.path.getsize(os.path.join(d, x))
    return out


def run(spec, sim):
    if spec.get("exit"):
        return run_exit(spec, sim)
    root = os.path.realpath(sim.scratch)
    sim.scratch = root
    st = os.path.join(root, "st")
    for k in range(3):
        os.makedirs(os.path.join(root, f"cwd{k}"))
    os.chdir(os.path.join(root, "cwd0"))
    os.makedirs(os.path.join(st, "target"))
    os.symlink("target", os.path.join(st, "link"))
    with open(os.path.join(st, "afile"), "w") as f:
        f.write("user data")
    foreign = {}
    for d in (st, os.path.join(st, "target"), os.path.join(st, "a")):
        for f in spec["foreign"]:
            q = os.path.join(d, f.replace("{pid}", str(os.getpid())))
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, "w") as fh:
                fh.write("user data")
    foreign = scan(root)
    refs = []
    for j in spec["jobs"]:
        j2 = copy.deepcopy(j)
        if j["store"]["mode"] == "disk":
            j2["store"]["mode"] = "device"
        elif j["store"]["mode"] == "none":
            j2["store"] = {"mode": "device", "compress": False}
        sim.begin(None)
        refs.append(jobs.guarded("in memory", jobs.full, j2))
        sim.end()
    nodes = {0: Node(sim, spec, 0, refs)}
    kids = {int(k): remote(sim, spec, int(k), refs, v) for k, v in spec["procs"].items() if k != "0"}
    cwd = {k: 0 for k in [0, *kids]}
    owner = {}  # (proc that created it, i, serial) -> paths
    holders = {}  # serial -> set of (proc, i) that may still need it
    cur = {}  # (proc, i) -> serial
    created_by = {}
    serial = 0
    bases = set()

    def resolve(p, i):
        q = nodes[0].path(i)
        return os.path.realpath(os.path.join(root, f"cwd{cwd[p]}", q))

    def check(what):
        now = scan(root)
        for q, sz in foreign.items():
            if q not in now or now[q] != sz:
                raise core.Violation("foreign-file-touched", f"{what}: {q[len(root):]} {'changed' if q in now else 'is gone'}")
        ok = set(foreign) | bases
        for s, paths in owner.items():
            ok |= paths
            if holders.get(s):
                gone = [q for q in paths if q not in now]
                if gone:
                    raise core.Violation("storage-lost", f"{what}: {len(gone)} stored files that are still needed are gone")
        extra = [q for q in now if q not in ok]
        if extra:
            raise core.Violation("leftover", f"{what}: {len(extra)} files nobody needs, such as {extra[0][len(root):]}")

    def base_of(p, i):
        q = resolve(p, i)
        while q.startswith(root + os.sep):
            bases.add(q)
            q = os.path.dirname(q)

    try:
        for op in spec["ops"]:
            o, p, i = op[:3]
            what = f"after {op}"
            before = scan(root)
            if o == "fork":
                kids[i] = remote(sim, spec, i, refs, "fork", nodes[0])
                cwd[i] = cwd[0]
                for (q, k), s in list(cur.items()):
                    if q == 0:
                        cur[(i, k)] = s
                        # what happens to storage is up to the process that made it
                check(what)
                sim.probe("fork with live graphs")
                continue
            if o in ("kill", "exit"):
                pid, w, r = kids.pop(p)
                if o == "kill":
                    os.kill(pid, 9)
                    sim.fault("process-killed")
                else:
                    w.write("null\n")
                    w.flush()
                os.waitpid(pid, 0)
                w.close()
                r.close()
                for (q, k), s in list(cur.items()):
                    if q == p:
                        del cur[(q, k)]
                        if created_by[s] == p:
                            if o == "kill":  # no chance to clean up: stays as it is
                                foreign.update({x: before[x] for x in owner.get(s, ()) if x in before})
                            holders.pop(s, None)
                            owner[s] = set()
                check(what)
                continue
            j = spec["jobs"][i] if o not in ("chdir", "seed", "gc") else None
            if o in ("B", "K", "BX") and cur[(p, i)] not in owner:
                op = [*op, "lost"]
            if p == 0:
                nodes[0].do(op)
            else:
                pid, w, r = kids[p]
                w.write(json.dumps(op) + "\n")
                w.flush()
                ln = r.readline()
                if not ln:
                    _, stt = os.waitpid(pid, 0)
                    kids.pop(p)
                    raise core.Violation("crash", f"{what}: process {p} died ({stt})")
                out = json.loads(ln)
                sim.note(out["digest"])
                sim.events += out["events"]
                sim.interleavings += out["inter"]
                for k, v in out["faults"].items():
                    sim.fault(k, v)
                for k, v in out["probes"].items():
                    sim.probe(k, v)
                if "violation" in out:
                    raise core.Violation(*out["violation"])
                if "error" in out:
                    raise RuntimeError(out["error"])
            if o == "chdir":
                cwd[p] = i
            elif o in ("F", "X"):
                base_of(p, i)
                if o == "X":
                    bases.add(os.path.join(st, "afile"))
            if o == "F":
                new = {q for q in scan(root) if q not in before} - bases
                pth = resolve(p, i)
                for q in new:
                    if not q.startswith(pth + os.sep):
                        raise core.Violation("misplaced", f"{what}: created {q[len(root):]} outside {pth[len(root):]}")
                stores = j["store"]["mode"] == "disk" and any(j["rg"]["models"])
                if not stores and new:
                    raise core.Violation("misplaced", f"{what}: created {len(new)} files although nothing is stored on disk")
                serial += 1
                owner[serial] = new
                holders[serial] = {(p, i)}
                cur[(p, i)] = serial
                created_by[serial] = p
                if new:
                    sim.probe("stored")
            elif o == "D":
                s = cur.pop((p, i))
                if created_by.get(s) == p and s in owner:
                    if op[3]:
                        for x in owner.pop(s):  # could not be removed: may stay
                            bases.add(x)
                        holders.pop(s)
                    else:
                        owner.pop(s)
                        holders.pop(s)
                    # copies in forked processes have lost their storage with it
            elif o == "B":
                s = cur[(p, i)]
                if created_by.get(s) == p and s in holders:
                    holders[s] = set()
            check(what)
        # end: everything this process holds is dropped
        for i in list(nodes[0].held):
            nodes[0].held.pop(i)
        gc.collect()
        for (q, k), s in list(cur.items()):
            if q == 0 and created_by.get(s) == 0:
                owner.pop(s, None)
                holders.pop(s, None)
        check("after everything was dropped")
    finally:
        for pid, w, r in kids.values():
            try:
                os.kill(pid, 9)
                os.waitpid(pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass


SCRIPT = r"""
import json, sys, os
sys.path.insert(0, sys.argv[1])
import dwsim.core as core
core.setup(sys.argv[2])
import dwsim.jobs as jobs
j = json.loads(sys.argv[3])
T = jobs.build(j)
outs = jobs.call(j, T)
n = sum(len(f) for _, _, f in os.walk(j["store"]["path"]))
print("FILES", n, flush=True)
if sys.argv[4] == "raise":
    raise KeyError("end of the script")
if sys.argv[4] == "cycle":
    class A: pass
    a = A(); a.me = a; a.outs = outs; del outs
"""


def run_exit(spec, sim):
    """A whole interpreter that ends while results are alive."""
    j = copy.deepcopy(spec["jobs"][0])
    j["store"]["mode"] = "disk"
    j["rg"]["models"][0] = True
    d = os.path.join(sim.scratch, "st")
    os.mkdir(d)
    j["store"]["path"] = d
    root = str(__import__("pathlib").Path(__file__).resolve().parents[2])
    p = subprocess.run([sys.executable, "-B", "-c", SCRIPT, root, str(sim.pkg), json.dumps(j), spec["exit"]],
                       capture_output=True, text=True, timeout=120, cwd=sim.scratch)
    if "FILES" not in p.stdout:
        raise RuntimeError(p.stderr[-2000:])
    sim.begin({**spec["sched"]})
    sim.end()
    sim.note(p.stdout, p.returncode)
    if p.returncode not in (0, 1):
        raise core.Violation("crash", f"interpreter ended with {p.returncode}: {p.stderr[-300:]}")
    left = scan(d)
    if left:
        raise core.Violation("leftover", f"{len(left)} files left behind by an interpreter that ended ({spec['exit']})")
    sim.fault("interpreter-exit")


def valid(spec):
    """Would this history make sense?"""
    held, procs = {}, {int(k) for k in spec["procs"]}
    for op in spec["ops"]:
        o, p, i = op[:3]
        if p not in procs:
            return False
        if o == "fork":
            procs.add(i)
            held.update({(i, k): s for (q, k), s in list(held.items()) if q == 0})
        elif o in ("kill", "exit"):
            procs.discard(p)
        elif o in ("F", "X"):
            if (p, i) in held:
                return False
            if o == "F":
                held[(p, i)] = "live"
        elif o in ("B", "K", "BX"):
            if held.get((p, i)) != "live":
                return False
            if o == "B":
                held[(p, i)] = "done"
        elif o == "D":
            if (p, i) not in held:
                return False
            del held[(p, i)]
    return True


def shrink(spec):
    ops = spec["ops"]
    for k in (len(ops) // 2, len(ops) // 4, 1):
        if k:
            for a in range(0, len(ops), k):
                c = {**spec, "ops": ops[:a] + ops[a + k:]}
                if valid(c):
                    yield c
    if spec["foreign"]:
        yield {**spec, "foreign": []}
    if any(p != "a" for p in spec["paths"]):
        yield {**spec, "paths": ["a"] * len(spec["paths"])}
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
    for i in range(len(spec["jobs"])):
        for j in jobs.shrink_job(spec["jobs"][i]):
            c = copy.deepcopy(spec)
            c["jobs"][i] = j
            yield c
