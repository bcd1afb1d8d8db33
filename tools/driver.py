"""check <property>: builds what the property needs from /repo's working tree, searches simulated runs, writes evidence."""
import json, os, subprocess, sys, time

import build
from build import B, VERIF

LIBDIR = B + "/lib"
SCHED_RULE = ("One evaluation is one whole simulated execution decided by one seed: the seed draws the configuration (sizes, rank or thread "
              "count, data, options), every scheduling decision, every delay and every fault. Two evaluations are counted as distinct when the "
              "hash over their scheduling decisions (who ran, in which order, at which simulated time, which fault) differs; an execution without any "
              "scheduling or fault decision is not counted. ")
MPI_REAL = ["{}", "cxx/*.cpp (Filter, CubeDecomp, MultiArrayIter, writeVTK, CmdLineArgParser)", "libstdc++ streams"]
MPI_STUB = ["MPI library (simulated: ranks, windows, collectives, clocks)", "process launcher", "kernel file I/O", "heap (guarded, poisoned)"]
OMP_STUB = ["OpenMP runtime (simulated: threads, work sharing, barriers, tasks)", "kernel file I/O", "heap (guarded, poisoned)"]

# engine parts: libs that must build (programs) and libs that may not (harnesses over internal classes)
P = {}


def prop(pid, rule, runs, libs=(), optional=(), real=(), stub=(), quick=40, thorough=1500, py=None, pyruns=0, assumptions=()):
    P[pid] = dict(rule=SCHED_RULE + rule, runs=runs, libs=list(libs), optional=list(optional), real=list(real), stub=list(stub), quick=quick,
                  thorough=thorough, py=py, pyruns=pyruns, assumptions=list(assumptions))


A_MPI = ["MPI semantics as modelled: non-overtaking messages, RMA data moved at any time inside its epoch, fences with NOPRECEDE/NOSUCCEED need not "
         "synchronise, collectives may return before all ranks have entered them, reductions are combined in any order",
         "the code under test is compiled with gcc -O1, its instruction-level behaviour is the real one"]
A_OMP = ["sequentially consistent interleavings of instrumented memory accesses (no weak-memory effects)", "gcc -O1 code generation"]

MP = ["laplacian", "upwindmpi", "stencil2d"]
prop("C01", "Oracle: serial periodic stencil, cell by cell.", 20000, libs=["stencil2d"], optional=["filterops"], real=["public Filter class driven by harness/filter_ops.cxx", "laplacian/cxx/testStencil2d.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C02", "Oracle: the same operation history on a single-process model, every observation compared.", 16000, libs=[], optional=["filterops"], real=["public Filter class driven by harness/filter_ops.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C03", "Oracle: serial reference of the whole program run; printed numbers compared.", 8000, libs=["laplacian", "upwindmpi"], real=["laplacian.cxx, upwindMpi.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C04", "Oracle: no deadlock, crash, MPI misuse, memory error or leaked MPI resource; exit status and MPI call history of every rank.", 14000, libs=MP, optional=["filterops"], real=["laplacian.cxx, upwindMpi.cxx, testStencil2d.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C05", "Oracle: VTK reader, geometry and field of the serial reference.", 11000, libs=MP, optional=["filterops"], real=["laplacian.cxx, upwindMpi.cxx, testStencil2d.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C06", "Faults: open failure, ENOSPC at a byte, EIO at a write, close failure, EINTR, short writes. Oracle: success only with a complete and correct file; interruptions and short writes never matter.", 8000, libs=MP + ["upwindcxx", "upwindtasks"] + ["upwindf90", "upwindf03", "upwindf08", "upwindf08gpu"], optional=["upwindacc", "upwindacc2", "upwindomp5"], py=True, pyruns=2400, real=["laplacian.cxx, upwindMpi.cxx, testStencil2d.cxx, upwind.cxx, upwindOMPTasks.cxx, upwindAcc.cxx, upwindAcc2.cxx, upwindOMP5.cxx, the Fortran programs, upwind.py, upwindMPI.py"] + MPI_REAL[1:] + ["libgfortran", "mpinum, numpy"], stub=MPI_STUB + OMP_STUB[:1] + ["mpi4py"], assumptions=A_MPI)
prop("C07", "Faults: a rank dies, an MPI call fails, an allocation or MPI_Alloc_mem fails, at a drawn point. Oracle: failure status, no hang, nothing wrong printed or written before.", 16000, libs=MP, real=["laplacian.cxx, upwindMpi.cxx, testStencil2d.cxx"] + MPI_REAL[1:], stub=MPI_STUB, assumptions=A_MPI)
prop("C08", "Oracle: printed statistics against the recorded readings of the simulated clocks.", 8000, libs=["laplacian", "upwindmpi"], py=True, pyruns=1200, real=["laplacian.cxx, upwindMpi.cxx, upwindMPI.py"] + MPI_REAL[1:] + ["mpinum, numpy"], stub=MPI_STUB + ["mpi4py"], assumptions=A_MPI)
CXXUP = ["upwindcxx", "upwindtasks"]
FUP = ["upwindf90", "upwindf03", "upwindf08", "upwindf08gpu"]
prop("C09", "Oracle: serial upwind scheme; check sum, spread, saved files, and through the solver class every cell.", 32000, libs=CXXUP, optional=["upwindclass", "upwindclasst", "upwindcxx_o0", "upwindtasks_o0"], real=["upwind/cxx/upwind.cxx, upwindOMPTasks.cxx (programs and solver class), saveVTK.h", "cxx/CmdLineArgParser.cpp"], stub=OMP_STUB, assumptions=A_OMP)
prop("C10", "Oracle: serial upwind scheme; check sum and saved file.", 32000, libs=FUP, optional=["f90class", "f03class", "f08class", "gpuclass"] + [x + "_o0" for x in FUP], real=["upwind/fortran/upwind.F90, upwindF03.F90, upwindF08.F90, upwindF08Gpu.F90", "libgfortran"], stub=OMP_STUB + ["do concurrent: iterations executed by simulated threads in a drawn order"], assumptions=A_OMP)
prop("C11", "Oracle: serial upwind scheme; check sum, spread and saved file; accesses to the memory of the other side.", 28000, libs=["upwindomp5", "upwindgpuomp"],
     optional=["upwindacc", "upwindacc2", "accclass", "acc2class", "omp5class", "f90accclass", "gpuaccclass", "gpukerclass", "gpuompclass", "upwindgpuacc", "upwindgpuker", "upwindf90acc"] + [x + "_o0" for x in ("upwindomp5", "upwindgpuomp", "upwindacc", "upwindacc2", "upwindgpuacc", "upwindgpuker", "upwindf90acc")], real=["upwind/cxx/upwindAcc.cxx, upwindAcc2.cxx, upwindOMP5.cxx", "upwind/fortran/upwindF08Gpu.F90 (OpenMP offload, OpenACC parallel, OpenACC kernels), upwind.F90 (OpenACC)"],
     stub=OMP_STUB + ["accelerator (simulated: memory of its own, mappings, leagues of teams of threads)", "OpenACC directives are compiled as the corresponding OpenMP target directives"], assumptions=A_OMP)
prop("C12", "Oracle: the program's own comparison plus the sizes asked for; the concurrent product called directly, every element against the sum over the inner index.", 60000, libs=["matmult"], optional=["matmultlib", "matmult_o0", "matmultlib_o0"], real=["matmult/fortran/matmult.F90", "libgfortran"], stub=OMP_STUB + ["do concurrent: iterations executed by simulated threads in a drawn order"], assumptions=A_OMP)
prop("C13", "Oracle: the team really formed.", 50000, libs=CXXUP + ["upwindf90", "upwindf03", "upwindf08gpu"], real=["the five programs that print a thread banner", "libgfortran"], stub=OMP_STUB, assumptions=A_OMP)
prop("C14", "Faults: a rank dies, an MPI call fails, a rank stalls. Oracle: serial upwind scheme; check sum line, saved file, exit statuses.", 0, py=True, pyruns=6000, real=["upwind/python/upwindMPI.py, saveVTK.py", "mpinum, numpy"],
     stub=["mpi4py (simulated: ranks, windows, collectives, messages)", "kernel file I/O under Python's real buffering layers"], assumptions=A_MPI[:1] + ["preemption of a rank between its lines, not inside one"])
prop("C15", "Oracle: brute-force enumeration of decompositions; every rank's view compared.", 26000, optional=["filterops"], real=["cxx/CubeDecomp.cpp, cxx/MultiArrayIter.cpp queried by every rank"], stub=MPI_STUB, assumptions=A_MPI)

FAULTS = ["rank_crash", "mpi_error", "alloc_failure", "open_failure", "write_eintr", "short_write", "disk_full", "write_eio", "close_failure", "rename_failure",
          "rank_stalls", "slow_rank_runs", "clock_skew_runs", "random_delays", "rma_late_transfers", "rma_split_transfers", "fence_without_sync",
          "reduction_reordered", "collective_early_return", "fewer_threads_than_requested", "preemptions", "iteration_order_permuted",
          "poisoned_memory_runs", "invalid_decompositions", "device_mappings", "survivors_run_on"]


def findings():
    """known_findings.txt: 'known: property=C01 match=class;key=value | what fails' and 'fixed: ...' lines."""
    out = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, what = line[6:].partition("|")
            d = dict(x.split("=", 1) for x in head.replace("match=", "match=", 1).split(" ") if "=" in x and x.split("=")[0] in ("property",))
            d["match"] = head.split("match=", 1)[1].strip() if "match=" in head else ""
            d["what"] = what.strip()
            out.append(d)
    except OSError:
        pass
    return out


def prepare(pid, notes):
    p = P[pid]
    with build.Lock():
        exe = build.build_sim()
        for t in p["libs"]:
            build.build_lib(t, LIBDIR)
        for t in p["optional"]:
            try:
                build.build_lib(t, LIBDIR)
            except build.BuildError as e:
                build.drop_lib(t, LIBDIR)
                notes.append("%s does not compile against this tree, its scenarios were left out: %s" % (t, str(e)[-600:]))
    return exe


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, bool):
            a[k] = a.get(k, False) or v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        elif v:
            a[k] = v
    return a


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    p = P[pid]
    notes = []
    try:
        exe = prepare(pid, notes)
    except build.BuildError as e:
        print("HARNESS: " + str(e), file=sys.stderr)
        return 2
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    os.makedirs(VERIF + "/replays", exist_ok=True)
    workers = int(os.environ.get("VERIF_WORKERS", 0)) or max(1, min(16, os.cpu_count() or 8))
    budget = p["quick"] if tier == "quick" else p["thorough"]
    runs = p["runs"] if tier == "quick" else p["runs"] * 400
    runs = min(runs, int(os.environ.get("VERIF_RUNS", runs)))
    known = [k for k in findings() if k.get("property") == pid]
    kf = B + "/known.%s.%d" % (pid, os.getpid())
    with open(kf, "w") as f:
        for k in known:
            f.write(k["match"] + "\n")
    res, rc, saw = {}, 0, []
    if runs:
        js = B + "/result.%s.%d.json" % (pid, os.getpid())
        cmd = [exe, "run", "--prop", pid, "--seed", str(seed), "--runs", str(runs), "--workers", str(workers), "--libdir", LIBDIR, "--json", js,
               "--replay-dir", VERIF + "/replays", "--maxtime", str(budget), "--known", kf, "--mintime", "25" if tier == "quick" else "120"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=VERIF)
        rc = r.returncode if r.returncode in (0, 1, 2) else 2
        sys.stdout.write(r.stdout)
        saw += [l for l in r.stdout.splitlines() if l.startswith("known finding:")]
        try:
            merge(res, json.load(open(js)))
            os.unlink(js)
        except (OSError, ValueError) as e:
            print("HARNESS: no result: %s" % e, file=sys.stderr)
            rc = rc or 2
    os.unlink(kf)
    if p["py"] and rc == 0:
        import pysim_driver
        r2, out = pysim_driver.run(pid, p, seed, tier, workers)
        merge(res, out)
        rc = r2
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    wall = time.time() - t0
    c = res.get("counters", {})
    n = int(res.get("runs", 0))
    sw = max(1e-9, res.get("search_wall_s", wall))
    cov = dict(evaluations=n, distinct_nontrivial=int(res.get("distinct_schedules", 0)), rule=p["rule"], samples=res.get("samples", []) or ["none"],
               distinct_executions=int(res.get("distinct_executions", 0)), held=int(res.get("held", 0)), known_findings_seen=int(res.get("known", 0)),
               seeds="%d runs derived from VERIF_SEED=%d" % (n, seed), runs_per_hour=int(n / sw * 3600), simulated_seconds=res.get("simulated_seconds", 0),
               search_wall_s=res.get("search_wall_s", 0), stopped_by_time=bool(res.get("stopped_by_time", False)),
               repeated_runs_identical=int(res.get("repeat_checked", 0)), faults_injected={k: c[k] for k in FAULTS if c.get(k)},
               activity={k: v for k, v in c.items() if k not in FAULTS}, runs_per_scenario=res.get("scenario_runs", {}),
               real_code=p["real"], stubs=p["stub"])
    if notes:
        cov["notes"] = notes
    if res.get("replay"):
        cov["replay"] = res["replay"]
        cov["violation"] = res.get("message", "")
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=p["assumptions"], wall_s=round(wall, 3),
              violations=int(res.get("violations", 0)))
    with open(VERIF + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for x in notes:
        print("note: " + x.splitlines()[0])
    if rc == 0 and n == 0 and not notes:
        print("HARNESS: nothing was run", file=sys.stderr)
        return 2
    print("%s: %s, %d simulated runs (%d distinct schedules) in %.1f s, %.3g simulated s" % (pid, ["held", "VIOLATED", "HARNESS ERROR"][rc], n, cov["distinct_nontrivial"], wall, cov["simulated_seconds"]))
    return rc


def main(a):
    if not a or a[0] in ("-h", "--help"):
        print(__import__("__main__").__doc__)
        return 2
    if a[0] == "setup":
        with build.Lock():
            build.build_sim()
            for t in a[1:]:
                print(t, build.build_lib(t, LIBDIR))
        return 0
    if a[0] == "replay":
        head = open(a[1]).read(4000)
        pid = [l.split()[1] for l in head.splitlines() if l.startswith("property ")][0]
        notes = []
        if head.startswith("pysim-replay"):
            import pysim_driver
            return pysim_driver.replay(a[1])
        exe = prepare(pid, notes)
        return subprocess.run([exe, "replay", a[1], "--libdir", LIBDIR]).returncode
    if a[0] == "list":
        for k in sorted(P):
            print(k)
        return 0
    if a[0] in P:
        return check(a[0])
    print("unknown property " + a[0], file=sys.stderr)
    return 2
