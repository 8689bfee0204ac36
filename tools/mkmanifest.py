#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
SIM="deterministic simulation with fault injection: "
C={
"C01":("seeded search over component/handle histories in simulated RAM with buffer faults; poisoned guards",
 "Samples histories. Memory outside the buffers is 4096 poisoned guard cells on either side plus crash detection; a share of the runs keeps all simulated RAM under watch (page faults plus single steps), where every load and store of the code under test is recorded exactly."),
"C02":("seeded search over instruction-level preemption points (trap-flag stepping) of two contexts on shared memory",
 "Every machine instruction of the optimised x86-64 build is a possible preemption point; which point and what the preempting context does are sampled. Trusts that the x86-64 build stands for the embedded target."),
"C03":("seeded search over operation- and instruction-level interleavings of many instances; bit-exact comparison with the isolated run",
 "Samples interleavings. Covers the functions and components listed as real in the evidence."),
"C04":("seeded search over delay-line histories with overwritten slots and moved storage; reference ring",
 "Bit-exact comparison with a reference ring; histories are sampled."),
"C05":("seeded search over writes interleaved with modulated fractional taps; double-precision reference",
 "Tolerance scales with the condition of the interpolation; histories and offsets are sampled."),
"C06":("seeded search over tick/automation/fault schedules; teacher-forced reference recurrence",
 "Histories sampled; tolerance of a few rounding errors per sample."),
"C07":("seeded search over tick/fault schedules; teacher-forced reference recurrence",
 "Histories sampled; tolerance of a few rounding errors per sample."),
"C08":("seeded search over schedules and corruption, invariant each sample, bounded liveness after faults stop",
 "Histories sampled; drain bound derived from the gains in force."),
"C09":("seeded search over gate and parameter schedules; range invariant on every sample",
 "Histories sampled, no_std math as shipped."),
"C10":("seeded search over gate and parameter schedules; reference state machine and curves",
 "Histories sampled; the curve tolerance includes the measured error of the power approximation in use."),
"C11":("seeded search over gate edges after arbitrary histories; continuity check at every edge",
 "Histories sampled; one-sample step bound derived from the reference curve."),
"C12":("seeded search over long tick/control schedules; exact integer phase model",
 "Exact on every advance; histories sampled."),
"C13":("seeded search over control schedules and faulty phase sources behind the PhaseAccumulator seam",
 "Phase sources are simulated (stall, jump, jitter, reverse) and real; histories sampled."),
"C14":("seeded search over control schedules, faulty phase sources and table rewrites; circular interpolation model",
 "Histories sampled; poison around the table shows any access outside it."),
"C15":("seeded search over coefficient-change schedules; double-precision reference recurrence",
 "Histories sampled; tolerance of a few rounding errors per sample."),
"C16":("seeded search over reconfiguration storms, then bounded-liveness ring-out",
 "Histories sampled; ring-out bound derived from the slowest pole the request calls for."),
"C17":("seeded search over reconfiguration histories; measured steady-state gain against the selected response",
 "Histories and probe frequencies sampled; 2% tolerance."),
"C18":("seeded search over aliasing-handle graphs and task interleavings; index-range reference model",
 "Histories sampled, results compared exactly."),
"C19":("seeded search over crash points (trap-flag stepping) and restarts on surviving simulated RAM",
 "Every machine instruction of the optimised x86-64 build is a possible crash point; which one is sampled."),
"C20":("seeded search over arguments, buffer lengths, histories and preemptions; every instruction of the counted operation goes through the trap-flag stepper",
 "Samples arguments and histories. Instructions are those of the optimised x86-64 build; the bound leaves a factor of more than ten over the unchanged tree, so only growing work is reported, not slower constant work."),
"C21":("seeded search over scores and fault sequences of whole instruments on two simulated devices scheduled differently; bit-exact comparison, bounded-liveness silence",
 "Samples instruments, scores and schedules."),
"C22":("seeded search over histories and fault sequences executed by two simulated devices of different word size: the crate in the 64-bit simulator and a freshly started freestanding i686 program; bit-exact comparison of every answer and of the memory",
 "Samples histories. The 32-bit device is an i686 build (SSE2 floating point) run natively, not an ARM core; built with -Zbuild-std from the toolchain's own core sources. Two builds of one source agreeing says nothing about whether the answer is right: that is what C01-C21 decide."),
}
NA={
"C30":"pure function of its argument: no state, schedule, clock, fault or second party for a simulator to vary",
"C31":"pure function of its argument: no state, schedule, clock, fault or second party for a simulator to vary",
"C32":"pure functions of their arguments (the interpolation of shared and moving buffers is claimed as C05, C14, C18)",
"C33":"pure function of its arguments: nothing to schedule or to fail",
"C34":"pure function of a 32-bit word: nothing to schedule or to fail",
"C35":"pure function of phase and degree: nothing to schedule or to fail (its re-entrancy is part of C03)",
"C36":"pure functions of their arguments: nothing to schedule or to fail (their re-entrancy is part of C03)",
"C37":"pure function of its argument, and three of the four clippers are unimplemented inside the range: nothing to schedule or to fail",
}
m={"version":1,"setup_cmd":"./check --setup","checks":[
 {"property":k,"quick_cmd":f"./check {k}","thorough_cmd":f"VERIF_TIER=thorough ./check {k}","evidence_file":f"evidence/{k}.json",
  "technique":SIM+t,"level":"exploration","level_note":n} for k,(t,n) in C.items()],
 "not_applicable":[{"property":k,"reason":r} for k,r in NA.items()],
 "notes":"One simulator (sim/) for all checks; ./check --replay FILE replays a violation. No hooks in /repo: every seam used is public API (buffers, handles, the PhaseAccumulator trait) or the CPU's trap flag."}
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1)+"\n")
