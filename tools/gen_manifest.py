#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(f"{here}/properties.jsonl")]
TECH = "deterministic simulation with fault injection: seeded search over "
N = ("real Newton solver driven by scripted fault-injecting callbacks (recoverable, unrecoverable, declining, panicking, stalling, non-finite); "
     "histories judged by a reference state machine of one solve; sampled, so a clean batch is evidence, not proof. Assumes callbacks misbehave only in the listed ways.")
D = ("real Dense solver, sessions interleaved call by call, singular and non-finite matrices injected; judged by exact expectations, an independent elimination "
     "with double-double residuals, and bit equality with a new/lone solver; sampled, not exhaustive; sizes up to 70.")
S = ("real Newton, Dense and weighted norm together on model problems with known contraction, faults injected in callbacks, Jacobians stale or perturbed; judged against the harness's own "
     "arithmetic; sampled, not exhaustive. Trusts the harness's model problems.")
I = ("the integrator sources of /repo/src, compiled unchanged against stand-ins for the missing ndarray/failure crates and an adapter onto the repository's real linear and nonlinear crates; judged on recorded histories; sampled.")
claimed = {
 "N01": (TECH+"callback faults and schedules, bounded-work oracle", N),
 "N02": (TECH+"callback faults, success-integrity oracle over the history", N),
 "N03": (TECH+"callback faults, reference state machine for the retry rule", N),
 "N04": (TECH+"callback faults, reference state machine for error propagation", N),
 "N05": (TECH+"callback faults and long solve histories, counting oracle", N),
 "N06": (TECH+"callback faults, data-flow oracle over the history", N),
 "N07": (TECH+"fault histories, differential against a new solver", N),
 "N08": (TECH+"interleavings, nestings and clones, differential against running alone", N),
 "D01": (TECH+"setup/solve histories with failed setups, backward-error oracle and differential against a new solver", D),
 "D02": (TECH+"setup/solve histories with injected singular matrices, exact oracle", D),
 "D03": (TECH+"setup/solve histories over storage layouts, memory and repeatability oracle", D),
 "D04": (TECH+"interleavings and clones, differential against running alone", D),
 "S01": (TECH+"callback faults on model problems, true-error oracle", S),
 "S02": (TECH+"non-finite data faults on model problems", S),
 "S03": (TECH+"fault histories followed by fault-free solves, bounded-recovery oracle", S),
 "I01": (TECH+"step failures, call schedules and crashes of callbacks into NaN; contract, bounded-work and recovery oracle", I),
 "I02": (TECH+"step failures, extrapolation oracle over the accepted points", I),
 "I03": (TECH+"root functions, output schedules and step failures; sign-change oracle over the recorded history", I),
 "I04": (TECH+"step failures, recomputed error test and exact solutions as oracle", I),
 "I05": (TECH+"queries and step failures, interpolation oracle over the accepted points", I),
 "I06": (TECH+"setup, solve and residual faults, data-flow oracle over the history", I),
 "I07": (TECH+"output schedules and interleavings, differential against other schedules of the same integration", I),
 "I08": (TECH+"step failures, counting oracle over the history", I),
 "I09": (TECH+"step failures, reference controller tracking all states the history allows", I),
 "I10": (TECH+"step failures, reference controller tracking all states the history allows", I),
 "I11": (TECH+"step failures and perturbed Jacobians, recomputed convergence test", I),
 "I12": (TECH+"misbehaving weights and tolerances at machine epsilon, recomputed checks", I),
 "I13": (TECH+"faults and queries, bitwise comparison with rescaled and time-reversed runs", I),
 "S04": (TECH+"faults, crashes and restarts of a time-stepping client, trajectory oracle", S),
}
NA = {
 "P01": "pure function of its arguments: no schedule, time, fault or history can affect it, so it is no simulation target (the composed checks S01 and S02 use the norm on the way)",
 "P02": "pure function of its arguments: the form of the factors has no schedule, time, fault or history in it (what a user can observe of it is decided by D01-D03)",
}
todo = "check under construction"
import sys
ready = [p for p in claimed if p in set((open(f"{here}/tools/ready.txt").read()).split())]
m = {
 "version": 1,
 "setup_cmd": "bash build.sh",
 "checks": [{
   "property": p,
   "quick_cmd": f"bash check.sh {p}",
   "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p}",
   "evidence_file": f"evidence/{p}.json",
   "technique": claimed[p][0],
   "level": "exploration",
   "level_note": claimed[p][1],
 } for p in props if p in ready],
 "not_applicable": [{"property": p, "reason": NA.get(p) or todo} for p in props if p not in ready],
 "notes": "No hooks in /repo: every seam the simulator needs is already there (problem, tolerance and solver traits, the solvers' own arguments). The integrator of /repo/src, which the repository's own build leaves out, is compiled unchanged from the working tree together with stand-ins for two crates and two modules it lacks (ida/).",
}
json.dump(m, open(f"{here}/MANIFEST.json", "w"), indent=1)
print([c["property"] for c in m["checks"]])
