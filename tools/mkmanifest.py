"""Regenerates MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = {
 "C01": ("checks/pcg.py", "deterministic simulation: seeded lockstep scheduling of real generator processes and pool workers, byte comparison with sequential generation", "Sampled schedules; the pool and manager are a lockstep stand-in with fork semantics, everything else is real code."),
 "C02": ("checks/pcg.py", "deterministic simulation with fault injection: failing tasks, worker deaths, I/O errors, formatter failures under seeded schedules", "Sampled fault placements and schedules; a worker killed from outside may stall the pool."),
 "C03": ("checks/cache.py", "deterministic simulation: seeded interleaving at file-system-call granularity of real processes sharing the cache, reference results computed without the cache", "Sampled interleavings and histories."),
 "C04": ("checks/cache.py", "deterministic simulation with fault injection: kills, torn/short writes, errno faults at file-system calls, then recovery by a fresh process", "Sampled crash points; process-crash model (completed system calls survive)."),
 "C05": ("checks/files.py", "deterministic simulation with fault injection: crash or I/O error at a chosen file operation of whole-project generation, then re-run and compare trees", "Sampled crash points over BHaH, superB, ETLegacy and CarpetX projects."),
 "C06": ("checks/files.py", "deterministic simulation with fault injection: update histories with exceptions, formatter failures, I/O errors and kills against a reference model", "Sampled histories and fault points."),
 "C07": ("checks/cprog.py", "deterministic simulation: generated programs on a simulated OpenMP runtime with seeded thread schedules, happens-before race detection and comparison with the one-thread run", "Sampled schedules and workloads; threads are fibers switched at instrumented accesses."),
 "C08": ("checks/cprog.py", "deterministic simulation with fault injection: generated programs stopped at seeded points and restarted, history compared with the uninterrupted run", "Sampled stop points and workloads."),
 "C09": ("checks/cprog.py", "deterministic simulation with fault injection: kill, torn write, I/O error, full disk, power loss at every kind of checkpoint-file operation, then restart", "Sampled fault points; journalling file-system model for power loss."),
 "C10": ("checks/cprog.py", "deterministic simulation with fault injection: simulated clock that stands still, jumps, runs backwards or fast; comparison with the steady-clock run", "Sampled clock behaviours."),
 "C11": ("checks/superb.py", "deterministic simulation: generated superB programs on a simulated Charm++ runtime with seeded message delays over random decompositions, compared with the one-chare run and the single-domain BHaH program", "Sampled schedules and decompositions; the Charm++ runtime and .ci translator are stand-ins."),
 "C12": ("checks/superb.py", "deterministic simulation: seeded message delays, slow chares and entry methods over random decompositions; hang, livelock, early exit and incomplete files are detected", "Sampled schedules and decompositions; the Charm++ runtime and .ci translator are stand-ins."),
 "C13": ("checks/superb.py", "deterministic simulation: seeded delays of messages and parallel-I/O callbacks over random decompositions, including runs that go unstable; every output file compared with the one-chare run and the BHaH program", "Sampled schedules and decompositions; CkIO is a stand-in."),
 "C14": ("checks/superb.py", "deterministic simulation with fault injection: chares packed, destroyed and unpacked at seeded events, program killed at seeded points and restarted from its checkpoint, compared with the undisturbed run", "Sampled points; the PUP framework and checkpoint store are stand-ins, the pup routines are real."),
 "C15": ("checks/envsim.py", "deterministic simulation with fault injection: whole-project generation in seeded simulated surroundings (directories, environment, clock, random state, listing order, leftovers), byte comparison with a reference generation and an audit of every file-system change", "Sampled combinations of surroundings."),
 "C16": ("checks/thorns.py", "deterministic simulation with fault injection: the generated thorns compiled unmodified against a simulated Cactus flesh whose scheduler, decomposition, storage, threads, crashes and refused registrations are drawn from a seed; history compared with the listed-order one-component one-thread run", "Sampled schedules; flesh, driver, MoL and boundary thorns are stand-ins; one refinement level."),
}
NA = {
 "N01": "pure function of its input: no schedule, clock, I/O or fault can influence a stencil's coefficients",
 "N02": "pure symbolic computation: nothing for a simulator to schedule or fail",
 "N03": "pure symbolic computation: nothing for a simulator to schedule or fail",
 "N04": "pure compiler pass: the value of a lowered expression depends only on its input",
 "N05": "constant tables: no nondeterminism",
 "N06": "pure parsing of a given text; simulation would only dress input generation in simulator vocabulary",
 "N07": "pure function: no nondeterminism",
}
PENDING = "check not built yet"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash setup.sh", "hooks": {"guard": "none", "enable": "no hooks in /repo: all seams are outside it (LD_PRELOAD, patched process pool, replacement OpenMP and Charm++ runtimes)", "source_commits": []}, "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CL:
        s, t, n = CL[i]
        m["checks"].append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 {s} {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 {s} {i}", "technique": t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, PENDING)})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
