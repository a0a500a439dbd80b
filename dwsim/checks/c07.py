"""Failing storage raises or still gives right results, never wrong ones."""
import copy
import errno
import os
import shutil

from .. import core, jobs

LEVEL = "fault_enumeration"
RUNS = (1200, 20000)
RULE = ("Each run stores wavefields on disk under a seeded schedule while one or more faults strike (at a random file "
        "operation of the forward or backward pass, or to the files in between), then repeats the failed step and the "
        "whole propagation without faults.")
ERRS = ["EIO", "ENOSPC", "EACCES", "EMFILE", "EINTR", "EDQUOT", "EBADF", "ENOENT"]
DAMAGE = ["truncate", "truncate-all", "unlink", "unlink-all", "rmtree", "dir-instead", "empty"]
WEIGHT = {"F": {"write": 40, "open": 16, "close": 20, "seek": 14, "flush": 4, "alloc": 6},
          "B": {"read": 44, "open": 18, "seek": 18, "close": 10, "alloc": 6, "flush": 4}}


def gen_rule(rng, phase):
    ops = WEIGHT[phase]
    op = rng.choices(list(ops), list(ops.values()))[0]
    r = {"op": op, "phase": phase, "frac": rng.choice([rng.random(), rng.random(), rng.random(), 0.0, 0.9999]),
         "err": rng.choice(ERRS), "arg": rng.randint(0, 99), "persist": rng.random() < 0.3}
    r["action"] = rng.choice(["fail", "fail", "short"]) if op in ("read", "write") else "fail"
    return r


def gen(rng, tier):
    j = jobs.gen_job(rng, max_shots=5, long_ok=False)
    if not any(j["rg"]["models"]):
        j["rg"]["models"][0] = True
    j["store"] = {"mode": "disk", "compress": rng.random() < 0.4}
    if rng.random() < 0.3:
        j["ndim"] == 2 and j["shape"].__setitem__(1, rng.randint(8, 17))
        jobs.fix(j)
    what = rng.choices(["rules", "damage", "both", "mkdir", "rm", "none"], [68, 14, 5, 5, 4, 4])[0]
    rules = []
    if what in ("rules", "both"):
        for _ in range(rng.choices([1, 2, 3], [70, 22, 8])[0]):
            rules.append(gen_rule(rng, rng.choice("FB")))
    fs = []
    if what == "mkdir":
        fs = [{"op": "mkdir", "nth": rng.randint(0, 1), "err": getattr(errno, rng.choice(["ENOSPC", "EACCES", "EIO", "EROFS", "EMLINK"])),
               "persist": rng.random() < 0.4}]
    elif what == "rm":
        fs = [{"op": rng.choice(["unlink", "rmdir"]), "nth": rng.randint(0, 3),
               "err": getattr(errno, rng.choice(["EACCES", "EBUSY", "EIO"])), "persist": rng.random() < 0.5}]
    s = {"job": j, "sched": core.gen_sched(rng, 8), "rules": rules, "fs": fs,
         "damage": rng.choice(DAMAGE) if what in ("damage", "both") else None, "dshot": rng.randrange(8),
         "dfrac": rng.choice([0.0, 0.3, 0.5, 0.9, 0.99]), "retry": rng.random() < 0.6}
    if rng.random() < 0.3:
        s["cb"] = [rng.choice(["f", "b", "fb"]), rng.choice([1, 2, 3])]
    return s


def over(spec):
    o = {}
    if spec.get("cb"):
        o["callback_frequency"] = spec["cb"][1]
        if "f" in spec["cb"][0]:
            o["forward_callback"] = lambda st: None
        if "b" in spec["cb"][0]:
            o["backward_callback"] = lambda st: None
    return o


def damage(spec, root):
    """Lose stored data the way a file system can: it is gone, not altered."""
    files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
    if not files:
        return 0
    k = spec["damage"]
    one = [files[spec["dshot"] % len(files)]]
    if k in ("truncate", "truncate-all", "empty"):
        n = 0
        for f in files if k != "truncate" else one:
            sz = os.path.getsize(f)
            keep = 0 if k == "empty" else min(int(sz * spec["dfrac"]), sz - 1)
            if sz:
                os.truncate(f, keep)
                n += 1
        return n
    if k in ("unlink", "unlink-all"):
        for f in files if k == "unlink-all" else one:
            os.unlink(f)
    elif k == "rmtree":
        shutil.rmtree(os.path.dirname(files[0]))
    else:
        os.unlink(one[0])
        os.mkdir(one[0])
    return 1


def run(spec, sim):
    j = copy.deepcopy(spec["job"])
    st = os.path.join(sim.scratch, "st")
    os.mkdir(st)
    j["store"]["path"] = st
    torch = sim.torch
    tol = jobs.tol_of(j)
    ov = over(spec)

    def fwd():
        T = jobs.build(j)
        return T, jobs.call(j, T, **ov)

    def bwd(T, outs, keep=False):
        res = jobs.outcome(j, outs)
        lv = jobs.leaves(T)
        l = jobs.loss(j, outs)
        if isinstance(l, torch.Tensor) and l.requires_grad:
            jobs.derive(j, l, lv, res, keep=keep)
        return res

    # without faults: the truth, and how many operations there are to fail
    sim.begin(spec["sched"])
    T, outs = jobs.guarded("forward", fwd)
    nF = {o: sim.op_count(o) for o in core.OPS}
    ref = jobs.guarded("backward", bwd, T, outs)
    nB = {o: sim.op_count(o) - nF[o] for o in core.OPS}
    del T, outs
    clock = sim.end()
    cap = clock * 40 + 50_000_000

    def rules_for(ph, base):
        out = []
        for r in spec["rules"]:
            if r["phase"] == ph:
                n = (nF if ph == "F" else nB)[r["op"]]
                if n:
                    out.append({"op": r["op"], "action": r["action"], "err": getattr(errno, r["err"]), "arg": r["arg"],
                                "nth": base.get(r["op"], 0) + min(n - 1, int(r["frac"] * n)), "persist": r["persist"]})
        return out

    hits = 0
    outs = T = None
    sim.begin(spec["sched"], cap)
    sim.fs_rules = spec["fs"]
    sim.rules(rules_for("F", {}))
    failed = None
    f0 = sum(sim.faults.values())
    try:
        T, outs = fwd()
    except Exception as e:  # noqa: BLE001
        failed = e
    hits = sim.stat(5) + sum(sim.faults.values()) - f0
    if failed is not None:
        if not hits:
            raise core.Violation("unexpected-exception", f"forward without a fault: {type(failed).__name__}: {failed}") from failed
        sim.probe("forward raised")
    else:
        if hits:
            sim.probe("forward survived")
        if spec["damage"]:
            k = damage(spec, st)
            hits += k
            if k:
                sim.fault("lost:" + spec["damage"], 1)
        cnt = {o: sim.op_count(o) for o in core.OPS}
        before, f0 = sim.stat(5), sum(sim.faults.values())
        sim.rules(rules_for("B", cnt))
        try:
            got = bwd(T, outs, keep=spec["retry"])
        except Exception as e:  # noqa: BLE001
            failed = e
        hits += sim.stat(5) - before + sum(sim.faults.values()) - f0
        if failed is not None:
            if not hits:
                raise core.Violation("unexpected-exception", f"backward without a fault: {type(failed).__name__}: {failed}") from failed
            sim.probe("backward raised")
        else:
            if hits:
                sim.probe("backward survived")
            jobs.note(got)
            jobs.compare(got, ref, tol, "no exception was raised although storage failed" if hits else "without faults",
                         kind="silent-corruption")
        if spec["retry"] and failed is not None:
            # the fault is over: the same backward again
            sim.rules([])
            try:
                got = bwd(T, outs)
            except Exception:  # noqa: BLE001
                sim.probe("retry raised")
            else:
                sim.probe("retry worked")
                jobs.compare(got, ref, tol, "backward repeated after a failed one", kind="silent-corruption")
    sim.note(str(type(failed)))
    sim.rules([])
    got = None
    try:
        T = outs = None  # the storage is removed: a failure there must not get out
        failed = None
    finally:
        sim.fs_rules = []
    sim.end()
    # faults have stopped
    os.makedirs(st, exist_ok=True)
    sim.begin(spec["sched"], cap)
    T, outs = jobs.guarded("forward after faults stopped", fwd)
    got = jobs.guarded("backward after faults stopped", bwd, T, outs)
    sim.end()
    jobs.note(got)
    jobs.compare(got, ref, tol, "after faults stopped", kind="no-recovery")


def shrink(spec):
    for i in range(len(spec["rules"])):
        if len(spec["rules"]) > 1 or spec["damage"] or spec["fs"]:
            yield {**spec, "rules": spec["rules"][:i] + spec["rules"][i + 1:]}
    if spec["damage"] and spec["rules"]:
        yield {**spec, "damage": None}
    for i, r in enumerate(spec["rules"]):
        for ch in ({"persist": False}, {"frac": 0.0}, {"action": "fail"}, {"err": "EIO"}):
            if any(r[k] != v for k, v in ch.items()):
                c = copy.deepcopy(spec)
                c["rules"][i].update(ch)
                yield c
    if spec.get("cb"):
        yield {**spec, "cb": None}
    if spec["retry"]:
        yield {**spec, "retry": False}
    if spec["job"]["store"]["compress"]:
        c = copy.deepcopy(spec)
        c["job"]["store"]["compress"] = False
        yield c
    if spec["sched"]["threads"] != [1]:
        yield {**spec, "sched": {**spec["sched"], "threads": [1]}}
        yield {**spec, "sched": {**spec["sched"], "threads": [2]}}
    for j in jobs.shrink_job(spec["job"]):
        if any(j["rg"]["models"]):
            yield {**spec, "job": j}
