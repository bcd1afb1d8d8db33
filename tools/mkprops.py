#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    P.append(d)

FILT = ["cxx/Filter.cpp", "cxx/Filter.h", "cxx/CubeDecomp.cpp", "cxx/MultiArrayIter.cpp", "cxx/MultiArrayIter.h"]
MPIP = ["laplacian/cxx/laplacian.cxx", "upwind/cxx/upwindMpi.cxx"]

p("C01", "Distributed stencil equals the serial periodic stencil",
  "Applying a stencil to a distributed field gives in every cell the weighted sum over the periodic global grid that a single process computing serially would give, for every process count that divides the grid, every grid shape in one to four dimensions (sizes need not be equal or powers of two), every set of axis-aligned offsets whose reach does not exceed the sub-domain extents, and all data and weights. "
  "The result never depends on the relative speed of the ranks or on when, within the rules of MPI one-sided communication, a transfer is actually carried out.",
  ["inputs", "configurations", "schedules"],
  "all (grid dims 1-4D, process count with a valid decomposition, axis-aligned stencil, weights, data, rank interleavings, legal RMA completion times)",
  "The stencil tests run one 32x32 grid on 4 ranks on an idle machine and only look at whether a line was printed; wrong halo cells, non-power-of-two wrap-around, anisotropic grids, wide stencils or a fence that only works because ranks are in step are never seen.",
  FILT,
  [("halo windows and fetch between two fences", "cxx/Filter.cpp Filter::newWindow, Filter::fetch, Filter::applyFilter"),
   ("periodic wrap and neighbour look-up", "cxx/Filter.cpp Filter::applyFilter; cxx/CubeDecomp.cpp CubeDecomp::getNeighborRank")],
  [("winData", "per side: exposed source buffer and fetched destination buffer", "cxx/Filter.h"), ("inData/outData", "local field before and after the stencil", "cxx/Filter.h")],
  ["per-cell output printed by every rank after applyFilter", "reduced check sums"])

p("C02", "Any history of filter operations matches a serial reference",
  "Once its input has been set or copied, after any sequence of set-data (by position or by index), apply, copy-output-to-input, check-sum and save operations, performed collectively by all ranks on one or on several filters alive at the same time, the input and output fields and every returned check sum are those of the same sequence on a single-process reference. "
  "Check-sum, save and print operations change nothing, an operation on one filter never affects another, and ranks may drift arbitrarily far apart between collective calls.",
  ["histories", "schedules", "inputs"],
  "all finite sequences of public filter operations, all interleavings of the ranks executing them, all grids and stencils of C01",
  "The tests only run the fixed sequence set, apply, print or set, (apply, copy) x n on one filter, with all ranks nearly in step.",
  FILT + ["cxx/writeVTK.cpp"],
  [("halo source buffers refreshed whenever the input changes", "cxx/Filter.cpp setInData, setInDataByIndices, copyOutToIn"),
   ("collective reduction of the check sums", "cxx/Filter.cpp computeCheckSum")],
  [("srcData", "copy of the boundary layer of the input field that other ranks read", "cxx/Filter.cpp")],
  ["fields printed per rank", "check sums returned on rank 0", "saved VTK files"])

p("C03", "MPI programs print the right numbers for every rank count and schedule",
  "The Laplacian and upwind MPI programs print check sums (for upwind: input and output sums for every time step, in order, and the final sum) equal, up to floating-point rounding, to those of a serial reference computation of the same problem. "
  "This holds for every valid number of processes, number of cells, dimensions and steps (at least one), and the same numbers come out whatever the timing of the ranks, the transfers and the reduction order; each result line appears exactly once.",
  ["configurations", "schedules", "inputs"],
  "all command lines with a valid decomposition, all rank interleavings, RMA timings and reduction orders",
  "The tests match the label of the check-sum line and at most its first character, for one grid and 4 ranks.",
  MPIP + FILT,
  [("10 apply/copy iterations and two reductions", "laplacian/cxx/laplacian.cxx main"),
   ("time loop with per-step check sums", "upwind/cxx/upwindMpi.cxx main")], None,
  ["standard output of rank 0 (and silence of the others)"])

p("C04", "MPI jobs always finish: no deadlock, no crash, clean shutdown",
  "Started with any process count, grid size and options, every rank of the MPI programs (including the 2-D stencil test driver) runs to completion within a bounded number of steps, finalizes MPI exactly once as its last MPI action and exits normally, whatever the interleaving; no rank blocks on a collective call that another never makes. "
  "If the grid cannot be divided evenly among the processes, all ranks recognise it, rank 0 reports it, no result or output file is produced and every rank still finishes cleanly. "
  "Windows and memory obtained from MPI for halo exchange are all released when a filter is destroyed.",
  ["configurations", "schedules", "histories"],
  "all command lines (valid and invalid decompositions, help, bad arguments), all interleavings of the ranks",
  "The tests never start a job whose decomposition is impossible and never vary the schedule.",
  MPIP + ["laplacian/cxx/testStencil2d.cxx"] + FILT + ["cxx/CmdLineArgParser.cpp"],
  [("validity flag computed identically on every rank", "cxx/Filter.cpp constructor, isDecompValid"),
   ("matching collective calls", "Filter.cpp, laplacian.cxx, upwindMpi.cxx"), ("destructor frees every window", "cxx/Filter.cpp ~Filter, deleteWindow")],
  [("validDecomp", "whether a decomposition was found", "cxx/Filter.h"), ("windows", "side to MPI window", "cxx/Filter.h")],
  ["exit status of each rank", "MPI call history", "window and allocation balance"])

p("C05", "Saved parallel VTK file holds the whole final field, once",
  "When a parallel run saves its field (1 to 3 dimensions), exactly one well-formed VTK file is written, by rank 0 only, whose dimensions, node coordinates and cell values are those of the global grid and of the final output field of a serial reference computation, every cell in its own place. "
  "A field of more than three dimensions, which the format cannot hold, is not written: the run completes, warns and leaves no file. "
  "This holds for every valid process count, grid shape and schedule.",
  ["configurations", "schedules", "inputs"],
  "all valid process counts and grid shapes in 1-3D, all interleavings",
  "No test writes a VTK file.",
  ["cxx/Filter.cpp", "cxx/writeVTK.cpp"] + MPIP,
  [("gather and reassembly of the sub-domains on rank 0", "cxx/Filter.cpp Filter::saveVTK"), ("file layout", "cxx/writeVTK.cpp writeVTK")], None,
  ["files created", "their content"])

p("C06", "No silent loss of output files under disk faults",
  "Interrupted and partial writes are invisible: the VTK file written by any of the programs (C++, MPI C++, Fortran, Python) is complete and holds the same field as without faults. "
  "If the file cannot be created or written completely (open failure, disk full, write or close I/O error), the program does not finish as if all were well: a program that exits with status zero has written every VTK file of up to three dimensions it announced, completely and correctly.",
  ["fault_sequences", "configurations"],
  "all programs that write VTK files, all positions and combinations of open failures, EINTR, short writes, ENOSPC at any byte, EIO at any write, close failure",
  "No test writes a file, and no test can make the disk fail.",
  ["upwind/cxx/saveVTK.h", "cxx/writeVTK.cpp", "cxx/Filter.cpp", "upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90", "upwind/python/saveVTK.py"],
  [("stream writes and close", "upwind/cxx/saveVTK.h saveVTK; cxx/writeVTK.cpp writeVTK"), ("open/write/close statements", "upwind/fortran/*.F90 upwind_saveVTK"), ("with open(...)", "upwind/python/saveVTK.py rectilinear")],
  None, ["exit status", "final file content"])

p("C07", "A failing rank or MPI call never yields a wrong result",
  "If a rank dies, an MPI call reports an error or memory cannot be obtained at any point of an MPI run, the job ends with a failure status instead of hanging, and no check sum, timing or output file that it may have produced before ending is wrong: whatever result lines it printed are those of the fault-free run. "
  "A run that ends with success has printed the complete correct results.",
  ["crash_points", "fault_sequences", "schedules"],
  "every MPI call and every allocation of every rank as the failure point, all interleavings",
  "Tests cannot make a rank, MPI or the allocator fail at a chosen point.",
  MPIP + ["cxx/Filter.cpp", "cxx/writeVTK.cpp"],
  [("default error handler (errors are fatal)", "MPI_COMM_WORLD and windows, no handler installed by the programs"), ("uncaught exceptions abort the rank", "whole C++ code")],
  None, ["exit status of the job", "standard output", "files"])

p("C08", "Reported wall-clock statistics are those of the measured loop",
  "The minimum, maximum and average times printed by the Laplacian and upwind MPI programs are the minimum, maximum and mean over all ranks of each rank's own elapsed time across the main iteration loop, with start-up, file output and final reductions excluded and every halo exchange of the loop included. "
  "They are non-negative and ordered (min <= avg <= max), and unaffected by constant offsets between the clocks of different ranks, whatever delays ranks and messages suffer. "
  "The Python MPI program prints, once, the time rank 0 itself spent in its time loop.",
  ["schedules", "fault_sequences", "configurations"],
  "all clock offsets, stalls of any rank at any point, slow networks, rank counts",
  "Wall times differ on every run and no test looks at them.",
  MPIP + ["upwind/python/upwindMPI.py"],
  [("two clock readings around the loop", "laplacian.cxx, upwindMpi.cxx: tic, toc"), ("SUM, MIN and MAX reductions", "laplacian.cxx, upwindMpi.cxx")], None,
  ["printed times against the simulated clocks"])

p("C09", "Threaded C++ upwind gives the serial answer under every thread schedule",
  "The OpenMP upwind programs and their solver class give, for any number of threads (including fewer threads than requested and more threads than cells), any loop schedule and any interleaving of the threads, the field, check sum, spread and saved files of the serial upwind scheme, for every grid size, number of steps and velocity sign.",
  ["schedules", "configurations", "inputs"],
  "all interleavings of the team at the granularity of memory accesses, team sizes 1-64, schedules, grids in 1-3D, velocity signs, step counts",
  "The tests run 1, 2, 4 and 8 threads on one grid, observe one accidental schedule each and match the first character of the check sum.",
  ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/cxx/saveVTK.h"],
  [("work-sharing loops and their implicit barriers", "upwind/cxx/upwind.cxx Upwind::advect; upwind/cxx/upwindOMPTasks.cxx Upwind::advect"), ("old field copied before it is read", "same")],
  [("f/oldF", "new and previous field shared by the team", "upwind/cxx/upwind.cxx")], ["check sum, std, VTK files, printed field"])

p("C10", "Threaded Fortran upwind gives the serial answer under every thread schedule",
  "The Fortran upwind programs (OpenMP and do-concurrent variants) give, for any number of threads, any interleaving of them and any order in which the iterations of a concurrent loop are executed, the check sum and saved field of the serial upwind scheme, for every number of cells and steps; their solver types do so in any number of dimensions, for any number of cells per direction, domain size and velocity sign.",
  ["schedules", "configurations", "inputs"],
  "all interleavings at the granularity of memory accesses, team sizes 1-64, iteration orders of do concurrent, grid sizes and step counts",
  "The tests run up to 8 threads on one grid under one accidental schedule and match the first character of the check sum; do concurrent is always executed in order by the installed compiler.",
  ["upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08.F90", "upwind/fortran/upwindF08Gpu.F90"],
  [("PARALLEL DO with private index variables", "upwind.F90, upwindF03.F90, upwindF08Gpu.F90 advect"), ("do concurrent with local index set", "upwindF08.F90 advect")], None,
  ["check sum line", "up.vtk"])

p("C11", "Accelerator variants are correct with separate memory and any work distribution",
  "The OpenACC and OpenMP-offload upwind programs, C++ and Fortran, and their solver types give the field, check sum and saved files of the serial upwind scheme when the annotated loops really run on a device: with device memory separate from host memory and holding garbage until data are transferred, with any number of teams, gangs and threads, and with the iterations of each parallel loop executed in any order and interleaving.",
  ["schedules", "configurations"],
  "all distributions of the annotated loops over teams/gangs/threads, all interleavings, separate or shared device memory, grids and step counts",
  "The tests build these programs without any accelerator support, so the annotations are ignored and the code runs serially; the offload variant is not built at all.",
  ["upwind/cxx/upwindAcc.cxx", "upwind/cxx/upwindAcc2.cxx", "upwind/cxx/upwindOMP5.cxx", "upwind/cxx/compute_index_set.h", "upwind/cxx/compute_flat_index_offset_x.h", "upwind/fortran/upwindF08Gpu.F90", "upwind/fortran/upwind.F90", "upwind/fortran/upwindF08.F90"],
  [("data clauses", "upwindAcc*.cxx acc data/enter data, upwindOMP5.cxx target data map"), ("private clauses and one kernel per dependent loop", "same")], None,
  ["check sum line", "VTK files"])

p("C12", "Parallel matrix product equals the naive one under any iteration order",
  "The matrix multiplication program reports SUCCESS for every matrix size it is given, and reports the sizes it was asked for, whatever the order and interleaving in which the iterations of its concurrent loop are executed.",
  ["schedules", "inputs"],
  "all sizes n, m, el >= 1, all orders and interleavings of the concurrent iterations",
  "The test uses the default sizes and the compiler's serial order, and the program compares two computations only for that order.",
  ["matmult/fortran/matmult.F90"],
  [("do concurrent over columns", "matmult/fortran/matmult.F90 matmult1"), ("comparison with the naive product", "program test")], None, ["standard output"])

p("C13", "Thread-count banner is printed once with the true team size",
  "Every OpenMP program prints its thread banner exactly once, stating the number of threads actually in the team and the configured maximum, under every interleaving of the threads and when fewer threads than requested are available.",
  ["schedules", "configurations"],
  "all interleavings of the team executing the banner, team sizes 1-64, reduced teams",
  "The tests never look at the banner, and whether it is garbled depends on the schedule.",
  ["upwind/cxx/upwind.cxx", "upwind/cxx/upwindOMPTasks.cxx", "upwind/fortran/upwind.F90", "upwind/fortran/upwindF03.F90", "upwind/fortran/upwindF08Gpu.F90"],
  [("only thread 0 prints", "main programs"), ("variables private to each thread", "main programs")], None, ["standard output"])

p("C14", "Python MPI upwind equals the serial scheme for every rank count and schedule",
  "The Python MPI upwind program gives the check sum and, on request, the VTK file (written once, by rank 0) of the serial upwind scheme for every process count that divides the grid, every number of cells and steps, and every interleaving of ranks and one-sided transfers. "
  "If the grid cannot be divided evenly every rank stops with a non-zero status without printing a result, and if a rank or an MPI call fails no wrong result is reported.",
  ["schedules", "configurations", "fault_sequences"],
  "all rank counts, grids, steps, interleavings, RMA timings and single failures",
  "The Python test runs one grid with one timing and at most matches a label.",
  ["upwind/python/upwindMPI.py", "upwind/python/saveVTK.py"],
  [("ghosted distributed arrays, one fetch per axis and step", "upwind/python/upwindMPI.py advect"), ("gather on the root", "upwind/python/upwindMPI.py gatherRoot")], None,
  ["standard output", "upMPI.vtk", "exit status"])

p("C15", "Every decomposition partitions the grid and all ranks agree on it",
  "For every process count and grid, the ranks either all find that no even decomposition exists, which happens exactly when none does, or all use the same decomposition, in which every cell belongs to exactly one rank, all sub-domains have equal shape, and neighbour relations are periodic and mutual (if B is A's neighbour in a direction then A is B's neighbour in the opposite one). "
  "The decomposition chosen has the smallest ratio of sub-domain surface to volume among all that are possible.",
  ["configurations", "inputs"],
  "all process counts and grid dimensions in 1-4D",
  "The decomposition test driver checks a few hand-picked cases and is not even run by the test suite.",
  ["cxx/CubeDecomp.cpp", "cxx/CubeDecomp.h", "cxx/MultiArrayIter.cpp", "cxx/MultiArrayIter.h"],
  [("enumeration of divisors and selection by cost", "cxx/CubeDecomp.cpp computeOptimalDecomp, getPrimeFactors, computeCost"), ("row-major rank to sub-domain map", "cxx/CubeDecomp.cpp getBegIndices, getEndIndices, getNeighborRank")], None,
  ["indices held by each rank", "decomposition line"])

p("C16", "Command-line options are parsed as documented",
  "Every option given on the command line overrides its default with exactly the value given, unspecified options keep their defaults, and unknown or incomplete options make the program report an error instead of computing something else.",
  ["inputs"], "all argument vectors", "The tests even pass positional arguments that are ignored with an error and still pass.",
  ["cxx/CmdLineArgParser.cpp", "cxx/CmdLineArgParser.h"], [("option tables", "cxx/CmdLineArgParser.cpp parse")])

p("C17", "Multi-dimensional iterator visits every index set once, in order",
  "For any lower and upper bounds and either storage order, iterating visits every index set in the box exactly once in storage order, and flat index and index set map onto each other one to one.",
  ["inputs"], "all boxes and both orders", "The iterator test driver prints a few cases and is not run by the test suite.",
  ["cxx/MultiArrayIter.cpp", "cxx/MultiArrayIter.h"], [("dimension products", "cxx/MultiArrayIter.cpp build")])

p("C18", "Serial Python upwind solves the upwind scheme",
  "The single-process Python upwind program prints the check sum of the upwind scheme and its field for every grid size, number of steps and velocity.",
  ["inputs"], "all command lines", "The test uses one grid and matches a label.",
  ["upwind/python/upwind.py"], [("vectorised update", "upwind/python/upwind.py advect")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for d in P: f.write(json.dumps(d) + '\n')
print(len(P))
