"""Writes properties.jsonl and MANIFEST.json (the single source of both)."""
import importlib
import json
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(ROOT))
S = "src/deepwave/"
C = [S + f for f in ("scalar.c", "scalar_born.c", "acoustic.c", "elastic.c")]
P = [S + f for f in ("scalar.py", "scalar_born.py", "acoustic.py", "elastic.py")]
ST = [S + "storage_utils.c", S + "simple_compress.c", S + "common.py"]


def m(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


def p(id, title, statement, over, text, why, files, mech, observe=None, level_note=None, tech=None):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files, "mechanism": mech, "observe_at": observe or [], "hook_needed": None},
            "_note": level_note, "_tech": tech}


PROPS = [
    p("C01", "Worker threads never change results",
      "The final wavefields, receiver data and every gradient of a propagation are those of the same propagation run by "
      "one worker, up to rounding, whatever number of worker threads runs it and however they interleave. "
      "Propagation and backpropagation always finish.",
      ["schedules", "configurations", "inputs"],
      "every interleaving of the worker threads at every memory access, every team size (also one that changes between "
      "calls or is smaller than asked for), all four equations, 1D/2D/3D, all orders, forward and backward, with and "
      "without storage and callbacks",
      "Tests run whatever interleaving the host happens to produce, usually with few shots; a race between workers on a "
      "shared gradient, scratch buffer or file only shows under particular interleavings.",
      C + P + [S + "common_cpu.h"],
      m(("per-thread gradient accumulators reduced after the parallel loop", "src/deepwave/*.c combine_grad"),
        ("shots distributed over threads", "src/deepwave/*.c omp parallel for"),
        ("thread count passed from Python", "src/deepwave/*.py aux = min(n_shots, torch.get_num_threads())")),
      ["outputs of scalar, scalar_born, acoustic, elastic", "autograd gradients"],
      "Seeded schedules (8 kinds, including conflict-directed) at memory-access granularity of the compiled propagators; "
      "sampled, not exhaustive; sequentially consistent memory is assumed, weak-memory effects are not simulated.",
      "deterministic simulation of the OpenMP team"),
    p("C02", "Shots never influence each other",
      "What a shot yields, and its contribution to every gradient, does not depend on which other shots share the call, "
      "their order or their number. Infinities, NaNs or huge values in one shot never reach another. Sources and "
      "receivers interpolated between grid points (Hicks) likewise do not depend on the other points and shots.",
      ["inputs", "schedules", "configurations"],
      "every way of splitting and permuting a batch of shots, every content of the other shots (also non-finite), every "
      "schedule of the workers that propagate them, batched and shared models, with and without stored wavefields",
      "Tests compare a handful of batches of well-behaved shots under uncontrolled schedules; a worker that keeps state "
      "from the shot it ran before only shows for particular assignments of shots to workers.",
      C + P + ST,
      m(("shot offsets into all arrays", "src/deepwave/*.c shot loop"),
        ("one storage file and one scratch area per shot", "src/deepwave/common.py StorageManager.allocate")),
      ["outputs and gradients by shot"],
      "Sampled splits, corruptions and schedules.", "deterministic simulation with corrupted shots"),
    p("C03", "Observing a propagation never changes it",
      "Calling user functions during a propagation or backpropagation, at any interval and whatever else they do, and "
      "thinning how often gradients are sampled, changes neither the propagated wavefields nor the recorded data; calling "
      "user functions does not change gradients either.",
      ["schedules", "configurations", "programs"],
      "every callback interval (also longer than the propagation), callbacks that read, propagate other models, "
      "backpropagate, reseed, collect garbage, or make the thread count change under them; every sampling interval, also "
      "one that does not divide the number of time steps; all schedules",
      "Tests use one worker count, intervals that divide the number of steps and callbacks that only record.",
      C + P,
      m(("propagation split in chunks with buffers swapped by parity", "src/deepwave/*.py for step in range(0, n_steps, callback_frequency)"),
        ("gradients accumulated across chunks", "src/deepwave/*.c backward, *.py grad_*_thread")),
      ["outputs and gradients with and without callbacks"],
      "Sampled.", "deterministic simulation with re-entrant callbacks"),
    p("C04", "Callbacks see and control the true state",
      "A callback is called once per interval of sampled steps, in order, with the true state of the propagation at that "
      "step under the documented names, and the regions it asks for. Values it writes in place to wavefields take effect "
      "exactly as if the propagation had been restarted from them, and values it writes to gradients during "
      "backpropagation stay.",
      ["schedules", "histories", "configurations", "programs"],
      "every step, name and region, every interval, all equations and dimensions, forward and backward, compiled and "
      "plain Python execution, under all schedules of the workers, with edits of any field",
      "Tests check a few names for presence and shape, mostly in 2D; the values behind a name at an arbitrary step are "
      "only known from a propagation stopped there.",
      P + [S + "common.py"],
      m(("dictionary of named buffers given to callbacks", "src/deepwave/*.py callback_wavefields"),
        ("regions", "src/deepwave/common.py CallbackState._get_view"),
        ("buffer swap after odd chunks", "src/deepwave/*.py chunk_nt % 2")),
      ["CallbackState.get_wavefield/get_model/get_gradient", "outputs after edits"],
      "The state expected at a step comes from an independent propagation stopped or restarted at that step; sampled.",
      "deterministic simulation against a stop-and-restart reference"),
    p("C05", "Stopping, saving and resuming changes nothing",
      "A propagation performed in pieces, each started from the wavefields the previous one returned, gives the final "
      "wavefields, data and gradients of the uninterrupted one, also when pieces are recomputed during backpropagation or "
      "run in processes that are killed at any instant and restarted from the last state saved.",
      ["crash_points", "schedules", "histories"],
      "every set of cut points, every instant at which the process dies, both kinds of recomputation, with and without "
      "stored wavefields and callbacks, all schedules",
      "One test cuts one propagation once; no test kills anything.",
      P + C,
      m(("initial and final wavefields as inputs and outputs", "src/deepwave/common.py create_or_pad; *.py wfc[s]"),
        ("saved tensors read once", "src/deepwave/*.py saved_tensors")),
      ["outputs and gradients"],
      "Processes are killed at a simulated instant (a memory access of the compiled code) by the simulator; what was "
      "saved is what reached the file system. Sampled.", "deterministic simulation with crash and restart"),
    p("C06", "Where intermediate data is kept never changes results",
      "Keeping intermediate data in memory or on disk gives the same results and gradients, whichever and however many "
      "propagations share a storage directory at the same time, and lossy compression changes only gradients of models, "
      "equally wherever it is kept and within its quantisation error.",
      ["histories", "configurations", "schedules", "inputs"],
      "every interleaving of forwards and backwards of several live propagations with different storage settings in the "
      "same or nested directories, all orders of backpropagation, repeated backpropagation, all schedules",
      "Tests store one propagation at a time and compare one backward with tolerance.",
      ST + C + P,
      m(("unique directory per propagation, one file per shot", "src/deepwave/common.py TemporaryStorage"),
        ("offset of each step within the file", "src/deepwave/storage_utils.c"),
        ("block quantisation", "src/deepwave/simple_compress.c")),
      ["gradients"], "Sampled histories.", "deterministic simulation of storage histories"),
    p("C07", "Storage failures never give wrong results",
      "When storing or loading intermediate data fails in any way the system can report (a full disk, a failed, partial "
      "or late-failing write, a failed open, seek, read, flush or close, a lost or shortened file, failed allocation), "
      "the call raises an exception or still gives right results. It never returns wrong numbers and never crashes or "
      "hangs, and the next propagation after the fault works.",
      ["fault_sequences", "crash_points", "schedules"],
      "every operation at which a fault may strike, every kind of fault, once or lasting, in forward or in backward, with "
      "any number of workers, all schedules",
      "No test injects any fault.",
      [S + "storage_utils.c", S + "common.py"] + C + P,
      m(("return codes of file operations", "src/deepwave/storage_utils.c, *.c goto/err"),
        ("non-zero result raises", "src/deepwave/*.py raise RuntimeError")),
      ["exceptions", "outputs and gradients"],
      "Faults are injected at the libc seam of the compiled code and at os.mkdir/unlink/rmdir; sampled sequences.",
      "deterministic simulation with storage fault injection"),
    p("C08", "Temporary storage lives exactly as long as it is needed",
      "Temporary files exist inside the chosen directory for as long as a backpropagation may still need them, and are "
      "gone once nothing does, whatever happened in between. No other file or directory is ever changed or removed, by "
      "this process or by one forked from it.",
      ["histories", "fault_sequences", "crash_points"],
      "every sequence of propagations, backpropagations (also repeated), drops, exceptions, forks, directory changes, "
      "failed removals and neighbouring files, with directories named in any way",
      "Tests check that the directory is empty after one propagation.",
      [S + "common.py"],
      m(("creation and removal of the directory", "src/deepwave/common.py TemporaryStorage"),
        ("reference from the autograd graph", "src/deepwave/*.py ctx.storage_manager")),
      ["file system"], "Sampled histories.", "deterministic simulation of file-system histories"),
    p("C09", "Concurrent callers get what they would get alone",
      "Propagations and backpropagations called from several threads of one process give each caller the results it would "
      "get running alone, and all of them finish.",
      ["schedules", "programs"],
      "every interleaving of the callers (at Python lines and memory accesses of the compiled code, which releases the "
      "interpreter lock) and of their workers, with shared models, shared storage directories, shared autograd graphs "
      "and callbacks",
      "No test calls a propagator from two threads.",
      [S + "backend_utils.py", S + "common.py"] + P + C,
      m(("no shared mutable state between calls", "src/deepwave/backend_utils.py, *.c"),
        ("unique storage directory", "src/deepwave/common.py TemporaryStorage")),
      ["outputs and gradients of each caller"],
      "Callers are real threads released one at a time by the simulator; sampled interleavings.",
      "deterministic simulation of caller threads"),
    p("C10", "An interrupted call leaves everything usable",
      "When a propagation or backpropagation is cut short by any exception, wherever it strikes (in a callback, an "
      "interrupt, failed allocation, a failed operation), the exception reaches the caller, the caller's tensors are as "
      "they were, nothing is left on disk once the graph is dropped, and the same call made again gives the right result.",
      ["crash_points", "fault_sequences", "histories"],
      "every line of the package at which an exception may strike and every callback invocation, in forward and backward, "
      "several times in a row, all storage modes",
      "Tests only cover arguments that are rejected before anything starts.",
      P + [S + "common.py"],
      m(("storage owned by the graph", "src/deepwave/common.py"), ("work on copies", "src/deepwave/common.py create_or_pad")),
      ["inputs", "file system", "next results"],
      "Exceptions are raised at a chosen traced line of the package's Python code; sampled.",
      "deterministic simulation with exceptions at arbitrary lines"),
    p("C11", "Inputs are never written to",
      "At no instant of a propagation or backpropagation does any tensor given by the caller differ from what it was "
      "given, no result shares memory with an input or with another result, and results do not depend on how the inputs "
      "are laid out or shared in memory.",
      ["schedules", "configurations", "crash_points", "histories"],
      "every instant (each line of the package, each callback), every layout of the inputs (views, shared, expanded, "
      "non-contiguous, exactly the padded size), every argument combination that needs no padding or conversion",
      "Tests compare inputs after the call in one layout.",
      P + [S + "common.py"],
      m(("padding copies the wavefields", "src/deepwave/common.py create_or_pad"),
        ("contiguous copies", "src/deepwave/*.py .contiguous()")),
      ["inputs at each instant"], "Sampled.", "deterministic simulation with invariant checks at every line"),
    p("C12", "Backpropagation is independent of the history around it",
      "The gradients of a propagation are the same whether it is backpropagated at once, later, in parts, repeatedly "
      "(where the graph is kept), or interleaved with other propagations; changing an input in place in between is "
      "reported rather than used. Second derivatives of the scalar propagator do not depend on it either.",
      ["histories", "programs", "schedules"],
      "every interleaving of forwards, partial and repeated backwards, in-place updates, drops and unrelated "
      "propagations, all schedules",
      "Tests backpropagate once, immediately after the forward.",
      P + C,
      m(("saved tensors and their versions", "src/deepwave/*.py save_for_backward"),
        ("stored wavefields", "src/deepwave/common.py StorageManager")),
      ["gradients"], "Sampled histories.", "deterministic simulation of autograd histories"),
    p("C13", "Results never depend on stale or uninitialised memory",
      "The same call with the same number of workers gives the same bits every time, whatever memory contained before, "
      "whatever ran before in the process, and whatever the schedule.",
      ["histories", "schedules", "configurations"],
      "every content of fresh memory, every earlier call (also failed), every schedule for a fixed number of workers",
      "Tests run with zeroed or recycled memory of one content.",
      C + P + ST,
      m(("zero-initialised buffers", "src/deepwave/*.py zeros, fill_(0)"),
        ("static assignment of shots to workers", "src/deepwave/*.c omp for")),
      ["bits of outputs and gradients"],
      "Memory obtained from torch.empty and from malloc in the compiled code is filled with chosen content; sampled.",
      "deterministic simulation with hostile memory"),
    p("C14", "Nothing is leaked, whatever happens",
      "However many propagations and backpropagations are run, completed, failed or abandoned, the process holds no more "
      "open files, memory or tensors than before once their results are dropped.",
      ["histories", "fault_sequences"],
      "every sequence of completed, failing (faulted storage, failing allocation, raising callbacks) and abandoned calls, "
      "all storage modes",
      "No test looks at resources.",
      C + P + ST,
      m(("files closed and buffers freed on every path", "src/deepwave/*.c"),
        ("no reference cycles", "src/deepwave/*.py")),
      ["open descriptors, allocations of the compiled code, live tensors, files"],
      "Allocations and file handles are counted at the libc seam; sampled histories.",
      "deterministic simulation with resource accounting"),
    p("C23", "Compiled code stays inside live memory",
      "The compiled propagators read and write only within the bounds of arrays that are alive at that instant: the "
      "tensors of the call, its storage, and what they allocated themselves. This holds whatever the sizes, the number of "
      "workers, the schedule, storage failures and history, also when the caller has let go of everything but the results "
      "before the backward pass, and when the backward pass runs again.",
      ["inputs", "schedules", "histories", "fault_sequences", "configurations"],
      "every grid, boundary, number of shots, sources, receivers and time steps, all equations and storage modes, every "
      "schedule and team size, failing file operations and allocations, every order of forward, backward and release",
      "A stray access usually lands in memory that happens to be mapped and harmless, so tests pass; whether a "
      "temporary array has been freed and reused when a worker reads it depends on allocator, history and schedule.",
      C + P + ST + [S + "common_cpu.h"],
      m(("pointers passed to compiled code", "src/deepwave/*.py data_ptr()"),
        ("array sizes computed twice, in Python and in C", "src/deepwave/*.py torch.empty/zeros, *.c offsets"),
        ("compression work areas", "src/deepwave/simple_compress.c, storage_utils.c")),
      ["every load, store, block copy and file transfer of the compiled code"],
      "Accesses are compared with the blocks alive on a heap with red zones and quarantine; an access that lands inside "
      "another live block would be missed. Sampled.",
      "deterministic simulation on a checked heap"),
    p("C24", "What else the process is set to neither matters nor changes",
      "Results do not depend on PyTorch's default dtype or device, deterministic mode, anomaly detection, autocast, saved "
      "tensor hooks, function or dispatch modes, the global random generators, the current directory, the garbage "
      "collector's settings or the environment, whenever these change (also between the forward and backward passes, in "
      "callbacks, or from another thread in the middle of a call), and none of these settings is changed, not even "
      "temporarily for process-wide ones.",
      ["histories", "schedules", "configurations"],
      "every setting, changed before, between, in callbacks and at every line of the package; every propagator, back end and "
      "helper; forward, backward and second derivatives",
      "Tests run with the default settings of a fresh process; a tensor created with the default dtype or a setting "
      "exchanged for a moment shows only when the application sets something else or another thread looks.",
      P + [S + "common.py", S + "location_interpolation.py"],
      m(("tensors created with the dtype and device of the inputs", "src/deepwave/*.py torch.empty/zeros/arange"),
        ("saved tensors", "src/deepwave/*.py ctx.save_for_backward")),
      ["outputs and gradients", "process-wide settings at lines of the package"],
      "Settings are flipped at sampled lines and read back at sampled lines; sampled.",
      "deterministic simulation with ambient settings flipped at chosen instants"),
    p("C15", "A worker-count or schedule independent Python and compiled agreement",
      "The plain Python execution of the propagators and the compiled one give the same results for every input.",
      ["inputs", "configurations"], "every input", "Tests compare both on a few inputs.", P + C,
      m(("two implementations of each equation", "src/deepwave/*.py *_python, *.c"))),
    p("C16", "Propagated waves solve the wave equation",
      "Propagation converges to the solution of the documented equation as the grid is refined, and waves leave through "
      "the absorbing boundary.", ["inputs", "configurations"], "every model and source", "Tests use a few models.", C,
      m(("finite differences", "src/deepwave/regular_grid.h, staggered_grid.h"))),
    p("C17", "Gradients are the derivatives of the discrete propagation",
      "Without lossy options, gradients are the exact derivatives of the discrete propagation.", ["inputs", "configurations"],
      "every model, source and initial wavefield", "Tests use gradcheck on a few inputs.", C,
      m(("adjoint time stepping", "src/deepwave/*.c backward"))),
    p("C18", "Time-step refinement and resampling are transparent",
      "A user time step that is too long for stability is refined internally and data are resampled without aliasing, so "
      "results match those of the finer time step.", ["inputs", "configurations"], "every time step and signal",
      "Tests use a few values.", [S + "common.py"], m(("cfl_condition, upsample, downsample", "src/deepwave/common.py"))),
    p("C19", "Restricting the model to the survey area is sound",
      "Propagating only in the part of the model around the survey gives the data of the full model within the chosen "
      "padding, and rejects inconsistent arguments.", ["inputs", "configurations"], "every survey geometry",
      "Tests use a few geometries.", [S + "common.py"], m(("extract_survey", "src/deepwave/common.py"))),
    p("C20", "Sub-grid locations are interpolated adjointly",
      "Source injection and receiver sampling at locations between grid points are transposes of each other and "
      "reproduce band-limited signals.", ["inputs"], "every location", "Tests use a few locations.",
      [S + "location_interpolation.py"], m(("Hicks interpolation", "src/deepwave/location_interpolation.py"))),
    p("C21", "Invalid arguments are rejected before anything runs",
      "Arguments that are inconsistent or out of range raise an exception that says so.", ["inputs", "configurations"],
      "every argument", "Tests cover chosen arguments.", [S + "common.py"] + P, m(("validation", "src/deepwave/common.py"))),
    p("C22", "The GPU back end agrees with the CPU one",
      "Propagation on a GPU gives the results of the CPU.", ["configurations", "schedules"], "every input and schedule",
      "No GPU is available to the tests here.", [S + f for f in ("scalar.cu", "scalar_born.cu", "acoustic.cu", "elastic.cu")],
      m(("CUDA kernels", "src/deepwave/*.cu"))),
]
PURE = ("a pure function of its input: no schedule, clock, fault or interleaving takes part in it, so simulation would only be "
        "input generation under another name")
NA = {
    "C15": PURE, "C16": PURE, "C17": PURE, "C18": PURE, "C19": PURE, "C20": PURE, "C21": PURE,
    "C22": "the CUDA sources cannot be compiled or executed here (no CUDA toolchain, no GPU), so there is nothing to put under the simulator",
}


def main():
    built = sorted(f.stem.upper() for f in (ROOT / "dwsim" / "checks").glob("c*.py"))
    with open(ROOT / "properties.jsonl", "w") as f:
        for q in PROPS:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for q in PROPS:
        i = q["id"]
        if i in built:
            mod = importlib.import_module(f"dwsim.checks.{i.lower()}")
            checks.append({"property": i,
                           "quick_cmd": f"/opt/venv/bin/python -B -m dwsim check {i} --tier quick",
                           "thorough_cmd": f"/opt/venv/bin/python -B -m dwsim check {i} --tier thorough",
                           "technique": q["_tech"], "level": mod.LEVEL, "level_note": q["_note"]})
        else:
            na.append({"property": i, "reason": NA.get(i, "not built yet")})
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -m dwsim setup",
           "checks": checks, "not_applicable": na,
           "notes": "Every check builds an instrumented copy of /repo's working tree in a temporary directory; /repo carries no hooks."}
    (ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")


if __name__ == "__main__":
    main()
