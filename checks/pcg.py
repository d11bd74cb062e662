"""C01 (schedule independence of parallel code generation) and C02 (no silent loss)."""
import json
import os
import random
import re
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pyrun
import vlib

WL = os.path.join(vlib.VERIF, "workloads")
BASE = None


def synth(rng, nfail=0):
    n = rng.choice([1, 2, 3, 5, 8, 13, 21])
    shared_cp = [[f"shared{i}", float(i) + 0.5, False] for i in range(3)]
    shared_gf = [[f"sgf{i}v", rng.choice(["EVOL", "AUX", "AUXEVOL"])] for i in range(3)]
    tasks = []
    for i in range(n):
        spec = {"cfuncs": [f"f{i}_{j}" for j in range(rng.randrange(0, 4))]}
        if rng.random() < 0.5:
            spec["code_params"] = [[f"cp{i}_{j}", rng.choice([0.25, 1e-3, 7.0]), rng.random() < 0.5] for j in range(rng.randrange(1, 3))]
        if rng.random() < 0.4:
            spec.setdefault("code_params", []).append(rng.choice(shared_cp))
        if rng.random() < 0.4:
            spec["params"] = [[f"p{i}", rng.choice([1, "text", True, 2.5])]]
        if rng.random() < 0.5:
            spec["gfs"] = [[f"gf{i}_{j}v", rng.choice(["EVOL", "AUX", "AUXEVOL"])] for j in range(rng.randrange(1, 4))]
        if rng.random() < 0.3:
            spec.setdefault("gfs", []).append(rng.choice(shared_gf))
        if rng.random() < 0.4:
            spec["extras"] = [[f"mod{i}", f"REAL x{i}_{j}"] for j in range(rng.randrange(1, 3))]
        if rng.random() < 0.3:
            spec["defines"] = [[f"dmod{i}", f"#define D{i} {i}\n"]]
        if rng.random() < 0.2:
            spec["simplify"] = rng.randrange(2, 4)
        if rng.random() < 0.3:
            spec["format"] = True
        if rng.random() < 0.3:
            spec["subdir"] = rng.choice(["Spherical", "diag"])
        tasks.append([f"t{i}", spec])
    fails = []
    for _ in range(nfail):
        i = rng.randrange(n)
        kind = rng.choice(["early", "late", "import", "attr", "type", "key", "opaque", "zerodiv"])
        tasks[i][1]["fail"] = kind
        fails.append([i, kind])
    return {
        "pre_params": [["prep", 3]],
        "pre_code_params": [["precp", 1.0]],
        "pre_gfs": ["pregf"] if rng.random() < 0.5 else [],
        "pre_cfuncs": ["prefunc"],
        "tasks": tasks,
    }, fails


WAVE_COORDS = ["Cartesian", "Spherical", "SinhSpherical", "Cylindrical", "SinhCartesian", "SymTP", "SinhSymTP", "SinhCylindrical"]


def wavecfg(rng):
    rfmp = rng.random() < 0.7
    return {
        "coords": rng.sample(WAVE_COORDS, rng.choice([1, 1, 2])),
        "fd_order": rng.choice([2, 4]),
        "MoL": rng.choice(["RK4", "RK2 Heun", "Euler", "SSPRK3", "DP5"]),
        "simd": rfmp and rng.random() < 0.6,
        "rfm_precompute": rfmp,
        "KO": rng.random() < 0.3,
        "checkpoint": rng.random() < 0.7,
        "wave": rng.choice(["SphericalGaussian", "PlaneWave"]),
    }


def structural(path):
    """Order-insensitive signature of a generated C file (for files whose floating-point operand order is history dependent)."""
    with open(path, encoding="utf-8", errors="replace") as f:
        t = f.read()
    sig = sorted(set(re.findall(r"#pragma[^\n]*|#include[^\n]*|\bIDX4\w*\([^;]*?\)|\w+GF\b|^(?:void|int|REAL|static)[^{;]*\{", t, re.M)))
    return json.dumps(sig)


def reference(args):
    """Sequential generation of one workload (parallel code generation disabled), fault free, one process."""
    wl, base = args
    case = {"procs": [dict(wl, name="main")], "sequential": True, "nproc": 1, "policy": {"deviations": []}}
    r = pyrun.simulate(case, base, keep=True)
    p = r["procs"]["main"]
    return {"rc": p["rc"], "tree": p["tree"], "out": p["out"], "cache": os.path.join(r["dir"], "cache"), "work": os.path.join(r["dir"], "w")}


def compare(wl, ref, r, workdir):
    p = r["procs"]["main"]
    if r["deadlock"]:
        return "the generation never finishes: every process waits for work nobody will do"
    if p["rc"] != 0:
        return f"fault-free parallel generation failed (exit {p['rc']}) although the sequential one succeeds:\n{p['out'][-1200:]}"
    bad = sorted(k for k in set(p["tree"]) | set(ref["tree"]) if p["tree"].get(k) != ref["tree"].get(k))
    if wl.get("loose"):
        keep = []
        for k in bad:
            if k in p["tree"] and k in ref["tree"] and re.search(r"(rhs_eval|Ricci_eval|constraints_eval|psi4)[^/]*\.(c|cpp|cxx)$", k):
                if structural(os.path.join(workdir, k)) == structural(os.path.join(ref["work"], k)):
                    continue
            keep.append(k)
        bad = keep
    if bad:
        miss = [k for k in bad if k not in p["tree"]]
        detail = ""
        k = bad[0]
        if k in p["tree"] and k in ref["tree"]:
            a = open(os.path.join(ref["work"], k), errors="replace").read().splitlines()
            b = open(os.path.join(workdir, k), errors="replace").read().splitlines()
            import difflib

            detail = "\n".join(list(difflib.unified_diff(a, b, "sequential", "parallel", lineterm="", n=0))[:16])
        return f"generated output depends on the schedule: {len(bad)} file(s) differ from the sequential result, e.g. {bad[:4]} (missing: {miss[:4]})\n{detail}"
    return None


def run_one(job):
    """job: {wl, ref, case} -> result summary"""
    wl, ref, case, base = job["wl"], job["ref"], job["case"], job["base"]
    c = dict(case, procs=[dict(wl, name="main")])
    if case.get("warm"):
        c["cache_from"] = ref["cache"]
    r = pyrun.simulate(c, base, keep=True)
    if job.get("expect_fail"):
        p = r["procs"]["main"]
        msg = None
        if p["rc"] == 0 and not r["deadlock"]:
            msg = f"a task failed ({job['expect_fail']}) but do_parallel_codegen returned normally and generation exited 0"
        # a fatal worker death may stall the pool (never success); a task exception must be reported, not hang
        elif r["deadlock"] and not any(k in ("kill",) for k in r["fired"]):
            msg = f"a task failed ({job['expect_fail']}) and the generation hung instead of reporting it"
        elif not r["deadlock"] and p["rc"] is not None and p["rc"] > 0 and "Error" not in p["out"]:
            msg = "generation failed without any diagnostic"
    elif job.get("or_fail"):
        p = r["procs"]["main"]
        msg = None
        if p["rc"] == 0 and not r["deadlock"]:
            msg = compare(wl, ref, r, os.path.join(r["dir"], "w"))
    else:
        msg = compare(wl, ref, r, os.path.join(r["dir"], "w"))
    shutil.rmtree(r["dir"], ignore_errors=True)
    return {
        "msg": msg,
        "trace": r["trace"],
        "steps": r["steps"],
        "switches": r["switches"],
        "fired": r["fired"],
        "sched": r["sched_hash"],
        "loghash": r["loghash"],
        "deadlock": r["deadlock"],
        "rc": r["procs"]["main"]["rc"],
        "wall": 0,
    }


def minimise(job, res):
    """Shrink the deviations of a failing run; returns the replay object."""

    def fails(devs):
        j = dict(job, case=dict(job["case"], policy={"deviations": devs}))
        return run_one(j)["msg"] is not None

    devs = vlib.ddmin(res["trace"], fails) if len(res["trace"]) < 400 else res["trace"]
    return {"wl": job["wl"], "case": dict(job["case"], policy={"deviations": devs}), "expect_fail": job.get("expect_fail"), "or_fail": job.get("or_fail")}


def replay(chk, case):
    pyrun.build_shim()
    wl = case["wl"]
    ref = reference((wl, chk.scratch)) if not case.get("expect_fail") else None
    return run_one({"wl": wl, "ref": ref, "case": case["case"], "base": chk.scratch, "expect_fail": case.get("expect_fail"), "or_fail": case.get("or_fail")})["msg"]


def workloads(rng, chk, nsyn, nwave, mods):
    wls = []
    for _ in range(nsyn):
        cfg, _f = synth(rng)
        wls.append({"kind": "script", "target": os.path.join(WL, "wl_pcg.py"), "args": [json.dumps(cfg)], "cls": "synthetic"})
    for _ in range(nwave):
        wls.append({"kind": "script", "target": os.path.join(WL, "wl_wave.py"), "args": [json.dumps(wavecfg(rng))], "cls": "wave"})
    for m, loose in mods:
        wls.append({"kind": "module", "target": f"nrpy.examples.{m}", "args": [], "cls": m, "loose": loose})
    return wls


def account(chk, results, wls, jobs):
    fired = {}
    for r in results:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
    scheds = {(r["sched"]) for r in results}
    chk.cov["evaluations"] += len(results)
    chk.cov["distinct_nontrivial"] += len({r["sched"] for r in results if r["switches"] > 0 or r["fired"]})
    chk.cov["distinct_schedules"] = chk.cov.get("distinct_schedules", 0) + len(scheds)
    chk.cov["scheduler_steps"] = chk.cov.get("scheduler_steps", 0) + sum(r["steps"] for r in results)
    chk.cov["context_switches"] = chk.cov.get("context_switches", 0) + sum(r["switches"] for r in results)
    f = chk.cov.setdefault("faults_fired", {})
    for k, v in fired.items():
        f[k] = f.get(k, 0) + v
    cls = chk.cov.setdefault("runs_by_workload", {})
    for j in jobs:
        cls[j["wl"]["cls"]] = cls.get(j["wl"]["cls"], 0) + 1


COMMON = {
    "rule": "A run executes one workload in parallel mode under one seeded schedule; non-trivial = the schedule switched between processes at least once (or a fault fired), distinct = hash of the (process, operation, fault) sequence differs.",
}


def determinism(chk, jobs, results, n):
    """Re-run a sample in fresh processes and compare complete event logs."""
    idx = list(range(0, len(jobs), max(1, len(jobs) // n)))[:n]
    again = chk.map(run_one, [jobs[i] for i in idx], jobs=3)
    for i, r in zip(idx, again):
        if r["loghash"] != results[i]["loghash"]:
            raise vlib.HarnessError(f"run {i} is not deterministic")
    chk.cov["determinism_reruns_identical"] = chk.cov.get("determinism_reruns_identical", 0) + len(idx)


def body_c01(chk):
    pyrun.build_shim()
    rng = random.Random(vlib.derive(chk.seed, "C01"))
    mods = [("nrpyelliptic_conformally_flat", False), ("superB_nrpyelliptic_conformally_flat", False)]
    if chk.thorough:
        mods += [
            ("wave_equation_curvilinear", False),
            ("wave_equation_multicoord_wavetoy", False),
            ("two_blackholes_collide", True),
            ("superB_two_blackholes_collide", True),
            ("carpet_wavetoy_thorns", True),
            ("carpetx_wavetoy_thorns", True),
            ("spinning_blackhole", True),
            ("seobnrv5_aligned_spin_inspiral", True),
            ("tovola_neutron_star", True),
        ]
    else:
        mods += [("two_blackholes_collide", True), ("carpet_wavetoy_thorns", True)]
    wls = workloads(rng, chk, chk.pick(14, 60), chk.pick(8, 30), mods)
    refs = chk.map(reference, [(w, chk.scratch) for w in wls])
    for w, r in zip(wls, refs):
        if r["rc"] != 0:
            raise vlib.Broken(f"sequential generation of {w['cls']} {w['args']} failed: {r['out'][-1500:]}")
    jobs = []
    for w, r in zip(wls, refs):
        heavy = w["cls"] not in ("synthetic", "wave")
        bh = heavy and w.get("loose") and "wavetoy" not in w["cls"]
        n = chk.pick(8 if w["cls"] == "synthetic" else 4 if w["cls"] == "wave" else 2 if bh else 4, 24 if w["cls"] == "synthetic" else 10 if not heavy else 6)
        for k in range(n):
            s = vlib.derive(chk.seed, "C01", len(jobs))
            q = random.Random(s)
            jobs.append(
                {
                    "wl": w,
                    "ref": r,
                    "base": chk.scratch,
                    "case": {
                        "nproc": q.choice([1, 2, 3, 4, 7, 16]) if not heavy else q.choice([2, 3, 5, 8]),
                        "hashseed": q.choice([0, 1, 2, 42]),
                        "warm": q.random() < (0.3 if not heavy else 0.7),
                        "policy": {"seed": s, "cfg": {"switch": q.choice([0.02, 0.1, 0.4, 0.8])}},
                    },
                }
            )
    results = chk.map(run_one, jobs)
    account(chk, results, wls, jobs)
    chk.cov["rule"] = COMMON["rule"]
    chk.cov["worker_counts"] = sorted({j["case"]["nproc"] for j in jobs})
    chk.cov["hash_seeds"] = sorted({j["case"]["hashseed"] for j in jobs})
    chk.cov["samples"] = [{"workload": jobs[0]["wl"]["args"][0][:600], "case": jobs[0]["case"], "trace_prefix": results[0]["trace"][:10]}]
    chk.cov["real_components"] = ["nrpy code generation", "sympy", "clang-format", "CPython", "kernel file system (scratch)"]
    chk.cov["stub_components"] = ["multiprocess.Pool/Manager (lockstep fork pool with the same contract)"]
    rep = 0
    for j, r in zip(jobs, results):
        if r["msg"] and rep < 1:
            rep += 1
            obj = minimise(j, r)
            chk.violation(r["msg"], obj)
    if not rep:
        determinism(chk, jobs, results, chk.pick(6, 24))
    chk.assumptions += ["fork start method", "byte comparison; for BSSN-type kernels the floating-point operand order inside an expression may vary with task placement"]


def body_c02(chk):
    pyrun.build_shim()
    rng = random.Random(vlib.derive(chk.seed, "C02"))
    jobs = []
    n = chk.pick(70, 500)
    wls = []
    for i in range(n):
        mode = rng.choice(["task", "task", "task", "io", "io", "kill", "clang"])
        cfg, fails = synth(rng, nfail=rng.choice([1, 1, 2]) if mode == "task" else 0)
        if mode == "clang":
            for t in cfg["tasks"]:
                t[1]["format"] = True
                t[1]["cfuncs"] = t[1]["cfuncs"] or [f"g_{t[0]}"]
        wl = {"kind": "script", "target": os.path.join(WL, "wl_pcg.py"), "args": [json.dumps(cfg)], "cls": f"synthetic/{mode}"}
        s = vlib.derive(chk.seed, "C02", i)
        q = random.Random(s)
        case = {"nproc": q.choice([1, 2, 3, 4, 7]), "hashseed": q.choice([0, 3]), "policy": {"seed": s, "cfg": {"switch": q.choice([0.02, 0.2, 0.6])}}}
        job = {"wl": wl, "ref": None, "base": chk.scratch, "case": case}
        if mode == "task":
            job["expect_fail"] = str(fails)
        else:
            job["or_fail"] = True
            if mode == "io":
                case["policy"]["cfg"].update(faults={"errno": 1, "short": 1}, fault_rate=0.05, max_faults=q.choice([1, 3]), read_faults=q.random() < 0.3)
            elif mode == "kill":
                case["policy"]["cfg"].update(faults={"kill": 1, "torn": 1}, fault_rate=0.08, max_faults=1, extra_ops=("MGR", "POOLDONE", "POOLGET"))
            else:
                case["clang_faults"] = {str(q.randrange(0, 6)): q.choice(["exit1", "partial_exit1", "sigkill"]) for _ in range(2)}
        jobs.append(job)
    need = [j for j in jobs if j.get("or_fail")]
    for j, r in zip(need, chk.map(reference, [(j["wl"], chk.scratch) for j in need])):
        if r["rc"] != 0:
            raise vlib.Broken("fault-free sequential reference failed: " + r["out"][-1500:])
        j["ref"] = r
    results = chk.map(run_one, jobs)
    account(chk, results, wls, jobs)
    chk.cov["rule"] = "A run executes a synthetic task set in which a task raises, a worker dies, the disk fails or the formatter fails; non-trivial = the failure fired or the schedule switched."
    chk.cov["failing_task_runs"] = sum(1 for j in jobs if j.get("expect_fail"))
    chk.cov["outcomes"] = {
        "failed_loudly": sum(1 for r in results if r["rc"] not in (0, None) and not r["deadlock"]),
        "stalled_after_worker_death": sum(1 for r in results if r["deadlock"]),
        "succeeded_with_identical_output": sum(1 for r in results if r["rc"] == 0 and not r["deadlock"]),
    }
    chk.cov["samples"] = [{"tasks": jobs[0]["wl"]["args"][0][:500], "case": jobs[0]["case"]}]
    rep = 0
    for j, r in zip(jobs, results):
        if r["msg"] and rep < 1:
            rep += 1
            chk.violation(r["msg"], minimise(j, r))
    if not rep:
        determinism(chk, jobs, results, chk.pick(5, 20))


if __name__ == "__main__":
    P = sys.argv[1]
    vlib.main(P, body_c01 if P == "C01" else body_c02, replay)
