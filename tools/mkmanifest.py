#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import driver
V = driver.VERIF
T = {
 "C01": "deterministic simulation: real Filter code on simulated MPI ranks, seeded RMA timing and rank schedules, serial stencil oracle",
 "C02": "deterministic simulation: random operation histories on simulated ranks against a single-process model",
 "C03": "deterministic simulation: real MPI programs on simulated ranks, printed numbers against a serial reference",
 "C04": "deterministic simulation: schedules and configurations of real MPI programs, deadlock, misuse, exit and resource invariants",
 "C05": "deterministic simulation: real MPI programs, saved VTK files read back and compared with a serial reference",
 "C06": "deterministic simulation with injected disk faults under the real programs",
 "C07": "deterministic simulation with injected rank crashes, MPI errors and allocation failures",
 "C08": "deterministic simulation with simulated, skewed clocks and stalls, statistics recomputed from the history",
 "C09": "deterministic simulation: real OpenMP C++ programs on a simulated OpenMP runtime, preempted at memory accesses",
 "C10": "deterministic simulation: real Fortran programs on a simulated OpenMP runtime, permuted concurrent loops",
 "C11": "deterministic simulation: accelerator programs on a simulated device with separate poisoned memory and seeded work distribution",
 "C12": "deterministic simulation: concurrent loop of the matrix product executed in seeded orders and interleavings",
 "C13": "deterministic simulation: real OpenMP programs under seeded thread schedules and reduced teams, banner compared with the real team",
 "C14": "deterministic simulation: real Python MPI program over a simulated mpi4py, seeded schedules and failures",
 "C15": "deterministic simulation: every rank's decomposition collected from simulated jobs, brute-force oracle",
}
NOTE = ("Seeded search over simulated executions of the real code; a clean run is evidence, not proof. Every execution is a pure function of its seed "
        "(a tenth of the runs is executed twice and compared), every violation is minimised and replayed in a fresh process before it is reported. ")
NA = {
 "C16": "Argument parsing is a pure single-threaded function of argv: no schedule, clock, fault or second party for a simulation to decide.",
 "C17": "The iterator is a pure single-threaded data structure without schedule, clock, I/O or fault.",
 "C18": "The serial Python program is a pure single-threaded computation; its file output is covered by C06 where faults matter.",
}
checks = []
for k in sorted(T):
    if k in driver.P:
        p = driver.P[k]
        checks.append(dict(property=k, quick_cmd="./check " + k, thorough_cmd="VERIF_TIER=thorough ./check " + k, evidence_file="evidence/%s.json" % k,
                           technique=T[k], level="exploration", level_note=NOTE + "Assumes: " + "; ".join(p["assumptions"]) + "."))
    else:
        NA[k] = "Check under construction."
m = dict(version=1, setup_cmd="./check setup", checks=checks, not_applicable=[dict(property=k, reason=NA[k]) for k in sorted(NA)],
         notes="No hooks in /repo: the seams are link-time symbols (MPI, OpenMP, OpenACC, libc, mpi4py). ./check replay FILE runs a recorded execution again.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
