"""Applies planted bugs to /repo one by one: build, tests, demo, check (and undoes each).

Usage: seedtest.py [--no-tests] [--props C01,C02] ID...
"""
import json
import pathlib
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent
PY = "/opt/venv/bin/python"


def run(cmd, cwd="/repo", timeout=1500):
    try:
        p = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def main():
    a = sys.argv[1:]
    tests = "--no-tests" not in a
    props = None
    if "--props" in a:
        props = a[a.index("--props") + 1].split(",")
        del a[a.index("--props"):a.index("--props") + 2]
    ids = [x for x in a if not x.startswith("--")] or sorted(d.name for d in (ROOT / "seeded").iterdir())
    assert not run(["git", "status", "--porcelain"])[1].strip(), "/repo is not clean"
    for i in ids:
        d = ROOT / "seeded" / i
        meta = json.load(open(d / "meta.json"))
        print(f"{i}: ", end="", flush=True)
        try:
            r, o = run(["git", "apply", str(d / "patch.diff")])
            if r:
                print("DOES NOT APPLY", o)
                continue
            r, o = run(["bash", "/opt/vp/build.sh"])
            if r:
                print("DOES NOT BUILD", o[-500:])
                continue
            if tests:
                f = tempfile.mktemp()
                run(["bash", "/opt/vp/test.sh", f])
                t = json.load(open(f))
                print(f"tests passed {len(t['passed'])} failed {len(t['failed'])} {t['failed'][:3]}", end="; ", flush=True)
            r, o = run(["bash", str(d / "demo.sh")], timeout=300)
            print(f"demo patched {r} [{(o.strip().splitlines() or [''])[-1][:100]}]", end="; ", flush=True)
            for p in props or [meta["property"]]:
                r, o = run([PY, "-B", "-m", "dwsim", "check", p, "--tier", "quick"], cwd=ROOT)
                v = [x for x in o.splitlines() if x.startswith("VIOLATION") or ": " in x and not x.startswith((p, "probes"))]
                print(f"{p} exit {r} {v[0][:160] if v else ''}", end="; ", flush=True)
        finally:
            run(["git", "checkout", "--", "."])
        if tests:
            run(["bash", "/opt/vp/build.sh"])
            r, o = run(["bash", str(d / "demo.sh")], timeout=300)
            print(f"demo clean {r} {o[-200:] if r else ''}", end="")
        print(flush=True)
    run(["bash", "/opt/vp/build.sh"])


main()
