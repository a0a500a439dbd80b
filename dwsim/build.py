"""Builds the simulated package: Python files and C sources of /repo's working
tree, with the C code instrumented and linked against the dwsim runtime."""
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = pathlib.Path(os.environ.get("DWSIM_REPO", "/repo"))
HERE = pathlib.Path(__file__).resolve().parent
GCC = "/usr/bin/gcc"
WRAP = (
    "fopen fopen64 fclose fread fwrite fseek fseeko fseeko64 fflush open open64 close "
    "read write pread pwrite pread64 pwrite64 malloc calloc realloc posix_memalign aligned_alloc free memcpy memmove memset"
).split()
GENERIC = {"storage_utils", "simple_compress"}


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(" ".join(map(str, cmd)) + "\n" + p.stdout[-4000:] + p.stderr[-4000:])


def build(out: pathlib.Path, opt="-O0", jobs=None) -> dict:
    """Build into `out` (created), return facts about the build."""
    src = REPO / "src" / "deepwave"
    pkg = out / "pkg" / "deepwave"
    pkg.mkdir(parents=True)
    h = hashlib.sha256()
    for p in sorted(src.rglob("*.py")):
        rel = p.relative_to(src)
        (pkg / rel).parent.mkdir(parents=True, exist_ok=True)
        shutil.copy(p, pkg / rel)
        h.update(p.read_bytes())
    obj = out / "obj"
    obj.mkdir()
    csrc = out / "c"
    csrc.mkdir()
    for p in sorted(list(src.glob("*.c")) + list(src.glob("*.h"))):
        shutil.copy(p, csrc / p.name)
        h.update(p.read_bytes())
    flags = [opt, "-w", "-fsanitize=thread", "-mavx2", "-fopenmp", "-fPIC", "-g0",
             "-fno-builtin-memcpy", "-fno-builtin-memmove", "-fno-builtin-memset"]
    tasks = []
    for c in sorted(csrc.glob("*.c")):
        for ndim in (1, 2, 3):
            for dt in ("float", "double"):
                for acc in (2,) if c.stem in GENERIC else (2, 4, 6, 8):
                    o = obj / f"{c.stem}_{ndim}_{acc}_{dt}.o"
                    tasks.append((
                        -ndim * c.stat().st_size,
                        [GCC, *flags, f"-DDW_NDIM={ndim}", f"-DDW_ACCURACY={acc}",
                         f"-DDW_DTYPE={dt}", "-DDW_DEVICE=cpu", "-c", str(c), "-o", str(o)],
                    ))
    tasks.append((-(10**9), [GCC, "-O2", "-fPIC", "-c", str(HERE / "rt" / "sim.c"), "-o", str(obj / "dwsim.o")]))
    tasks.sort(key=lambda t: t[0])
    with ThreadPoolExecutor(jobs or os.cpu_count()) as ex:
        list(ex.map(lambda t: sh(t[1]), tasks))
    # the runtime's own block operations are not the code under test's
    sh(["objcopy", *[f"--redefine-sym={w}=__real_{w}" for w in ("memcpy", "memmove", "memset")], str(obj / "dwsim.o")])
    lib = pkg / "libdeepwave_C.so"
    sh([GCC, "-shared", "-o", str(lib), *map(str, sorted(obj.glob("*.o"))), "-Wl,-Bsymbolic",
        *[f"-Wl,--wrap={w}" for w in WRAP], "-Wl,-z,now", "-Wl,--no-undefined", "-lpthread", "-lm"])
    shutil.rmtree(obj)
    return {"source_sha256": h.hexdigest(), "objects": len(tasks)}


if __name__ == "__main__":
    import time
    t = time.time()
    out = pathlib.Path(sys.argv[1])
    print(build(out, *(sys.argv[2:3])), time.time() - t)
