import argparse
import json
import os
import sys

from . import runner


def main():
    ap = argparse.ArgumentParser(prog="dwsim")
    sp = ap.add_subparsers(dest="cmd", required=True)
    c = sp.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    c.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    c.add_argument("--workers", type=int)
    c.add_argument("--n", type=int)
    c.add_argument("--start", type=int, default=0)
    c.add_argument("--cap", type=float)
    r = sp.add_parser("replay")
    r.add_argument("file")
    r.add_argument("--pkg")
    d = sp.add_parser("digests")
    d.add_argument("prop")
    d.add_argument("--seed", type=int, default=1)
    d.add_argument("--n", type=int, default=40)
    d.add_argument("--workers", type=int, default=8)
    d.add_argument("--pkg")
    s = sp.add_parser("selftest")
    s.add_argument("props", nargs="+")
    s.add_argument("--n", type=int, default=40)
    s.add_argument("--seed", type=int, default=1)
    o = sp.add_parser("one")
    o.add_argument("prop")
    o.add_argument("index", type=int)
    o.add_argument("--seed", type=int, default=1)
    o.add_argument("--pkg")
    sp.add_parser("setup")
    a = ap.parse_args()
    if a.cmd == "setup":
        return runner.setup_check()
    if a.cmd == "one":
        return runner.one(a.prop, a.seed, a.index, a.pkg)
    if a.cmd == "check":
        return runner.check(a.prop, a.tier, a.seed, a.workers, a.n, a.cap, a.start)
    if a.cmd == "replay":
        return runner.replay(a.file, a.pkg)
    if a.cmd == "digests":
        print(json.dumps(runner.digests(a.prop, a.seed, a.n, a.workers, a.pkg)))
        return 0
    return runner.selftest(a.props, a.seed, a.n)


if __name__ == "__main__":
    # all of the allocator's blocks come from where its fill byte applies
    if "GLIBC_TUNABLES" not in os.environ:
        os.environ["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"
        so = runner.heap(sys.argv[1:])
        if so:
            os.environ.update(LD_PRELOAD=so, PYTHONMALLOC="malloc", DWSIM_HEAP=so)
        os.execv(sys.executable, [sys.executable, "-B", "-m", "dwsim", *sys.argv[1:]])
    if os.environ.get("DWSIM_HEAP"):
        os.unlink(os.environ["DWSIM_HEAP"])
        for name in ("LD_PRELOAD", "PYTHONMALLOC", "DWSIM_HEAP", "GLIBC_TUNABLES"):
            del os.environ[name]
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)  # frozen objects need no tearing down
