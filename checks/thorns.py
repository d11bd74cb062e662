"""C16: generated Cactus thorns (ETLegacy and CarpetX) on a simulated flesh - schedule order, decomposition, threads, crash and recovery, refused registrations."""
import array
import hashlib
import json
import os
import pickle
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import cactus
import crun
import vlib

RUNEX = os.path.join(vlib.VERIF, "workloads", "run_example.py")


def ex(m, **over):
    if not over:
        return {"kind": "module", "target": f"nrpy.examples.{m}", "args": []}
    return {"kind": "script", "target": RUNEX, "args": [f"nrpy.examples.{m}", json.dumps(over)]}


# cls: generator, parameters of the run, ghost zones, names of the thorns wanted (None: all of the project)
MODELS = {
    "wave": (ex("carpet_wavetoy_thorns"), {}, 5),
    "wavex": (ex("carpetx_wavetoy_thorns"), {}, 4),
    "baikal": (ex("carpet_baikal_thorns", thorn_names=["Baikal"], fd_order_list=[2]), {"FD_order": 2}, 2),
    "baikalx": (ex("carpetx_baikal_thorns", thorn_names=["BaikalX"], fd_order_list=[2]), {"FD_order": 2}, 2),
}
MORE = {
    "baikalvac": (ex("carpet_baikal_thorns", thorn_names=["BaikalVacuum"], fd_order_list=[4]), {"FD_order": 4}, 3),
    "baikalvacx": (ex("carpetx_baikal_thorns", thorn_names=["BaikalVacuumX"], fd_order_list=[4]), {"FD_order": 4}, 3),
}
CACHE, REFS = {}, {}


def world(n, ng, iters):
    dx = [0.31, 0.29, 0.33]
    return {"grid": {"n": n, "ng": ng, "org": [-(n[d] / 2 + ng - 0.37) * dx[d] for d in range(3)], "dx": dx, "dt": 0.05, "iters": iters}, "decomp1": [[ng, ng + x] for x in n]}


def make(args):
    cls, base = args
    wl, par, _ng = {**MODELS, **MORE}[cls]
    d = os.path.join(base, cls)
    dirs = []
    for p in crun.generate(wl, d):
        dirs += [os.path.join(p, t) for t in sorted(os.listdir(p)) if os.path.exists(os.path.join(p, t, "schedule.ccl"))]
    if not dirs:
        raise vlib.Broken(f"{wl['target']} {wl['args']} generated no thorn")
    m = cactus.Model(dirs, par)
    m.build(os.path.join(d, "exe"))
    return cls, d, dirs


def model(job):
    k = (job["cls"], tuple(job["dirs"]))
    if k not in CACHE:
        CACHE[k] = cactus.Model(job["dirs"], {**MODELS, **MORE}[job["cls"]][1])
    return CACHE[k]


def execute(job, case):
    """One simulated run: returns (exit status, values per dumped variable, script hash, race list, text, stats)."""
    m = model(job)
    script, dump, picks = m.script(case, job["W"])
    wd = os.path.join(job["base"], f"r{vlib.derive(1, job['cls'], json.dumps(job['W']), json.dumps(case, sort_keys=True), os.getpid()):x}")
    with open(wd + ".s", "w", encoding="utf-8") as f:
        f.write(script)
    cfg = {"threads": case.get("threads", 1), "seed": vlib.derive(case.get("seed", 0), "thr") % 2**62}
    if cfg["threads"] > 1:
        cfg.update(strategy=case.get("strategy", 0), mean=case.get("mean", 40))
    r = crun.run(os.path.join(job["dir"], "exe"), wd, cfg, args=[wd + ".s", wd + ".o"], timeout=200)
    vals = None
    if r["rc"] == 0 and os.path.exists(wd + ".o"):
        vals = array.array("d", open(wd + ".o", "rb").read())
    for x in (".s", ".o"):
        if os.path.exists(wd + x):
            os.unlink(wd + x)
    shutil.rmtree(wd, ignore_errors=True)
    return {"rc": r["rc"], "vals": vals, "dump": dump, "picks": picks, "script": hashlib.sha256(script.encode()).hexdigest(), "races": r["races"], "out": r["out"], "err": r["err"], "stats": r["stats"]}


def name(m, v):
    return f"{m.vars[v]['impl']}::{m.vars[v]['name']}"


def differ(m, W, a, b, tol):
    """First difference between the dumped histories, in words."""
    if len(a["vals"]) != len(b["vals"]):
        return "the runs put out different amounts of data"
    if not tol and a["vals"].tobytes() == b["vals"].tobytes():
        return None
    g = W["grid"]
    sh = [n + 2 * g["ng"] for n in g["n"]]
    G, nd = sh[0] * sh[1] * sh[2], len(a["dump"])
    bad, first = {}, None
    for blk in range(len(a["vals"]) // G):
        x, y = a["vals"][blk * G : (blk + 1) * G], b["vals"][blk * G : (blk + 1) * G]
        if x == y:
            continue
        for q in range(G):
            if x[q] == y[q] or (x[q] != x[q] and y[q] != y[q]):
                continue
            if tol and abs(x[q] - y[q]) <= tol * max(1.0, abs(x[q])):
                continue
            n = name(m, a["dump"][blk % nd])
            bad.setdefault(n, 0)
            bad[n] += 1
            if first is None:
                first = f"{n} after iteration {blk // nd} at point ({q % sh[0]},{q // sh[0] % sh[1]},{q // sh[0] // sh[1]}): {x[q]!r} in the reference run, {y[q]!r} here"
    if first is None:
        return None
    return f"{first}; {sum(bad.values())} values of {len(bad)} variables differ ({', '.join(list(bad)[:6])})"


def verdict(job, case, r):
    m = model(job)
    if job["ref"] not in REFS:
        with open(job["ref"], "rb") as f:
            REFS[job["ref"]] = pickle.load(f)
    ref = REFS[job["ref"]]
    if r["rc"] == 99:
        raise vlib.HarnessError("simulated flesh: " + r["out"][-500:])
    if case.get("failreg") is not None:
        if r["rc"] in (86, 87):
            return None
        if r["rc"] == 0:
            return f"registration call number {case['failreg']} of the run was refused, and the thorn carried on as if it had been accepted"
        return f"registration call number {case['failreg']} was refused and the thorn crashed instead of reporting it: exit {r['rc']} {r['out'][-300:]} {r['err'][-300:]}"
    if r["rc"] != 0:
        return f"the run stops (exit {r['rc']}) although the reference run completes: {r['out'][-600:]} {r['err'][-600:]}"
    if r["races"]:
        return "two threads of one scheduled function touch the same memory without ordering: " + "; ".join(" / ".join(crun.sym(os.path.join(job["dir"], "exe"), list(x[1:3]))) for x in r["races"][:3])
    d = differ(m, job["W"], ref, r, 1e-9 if case.get("recover") else 0.0)
    return d and "the evolution depends on the environment: " + d


def run_case(job):
    case = job["case"]
    try:
        r = execute(job, case)
        msg = verdict(job, case, r)
    except vlib.Broken as e:
        return {"msg": str(e), "sig": "broken", "script": "", "switches": 0, "steps": 0}
    return {"msg": msg, "script": r["script"], "hash": hashlib.sha256((r["vals"].tobytes() if r["vals"] is not None else b"") + r["out"].encode()).hexdigest(), "switches": int(r["stats"].get("switches", 0) or 0), "steps": int(r["stats"].get("steps", 0) or 0)}


def narrow(job):
    """Reduce a failing case: drop whole features, then single deviations of the order."""
    case = dict(job["case"])
    fails = lambda c: run_case(dict(job, case=c))["msg"] is not None
    for k in ("threads", "shuffle", "comps", "pad", "fill", "stale", "presync", "recover", "decomp2", "decomp", "devs"):
        if k in case:
            c = {a: b for a, b in case.items() if a != k}
            if fails(c):
                case = c
    if case.get("devs"):
        case["devs"] = vlib.ddmin(case["devs"], lambda d: fails(dict(case, devs=d)))
    return case


def describe(job, case):
    """The order of scheduled functions of the minimised run, next to the listed one."""
    if not case.get("devs"):
        return ""
    m = model(job)

    def calls(c):
        out = []
        for l in m.script(c, job["W"])[0].split("\n"):
            t = l.split()
            if t and t[0] in ("call", "once"):
                out.append(m.funcs[int(t[1])])
        return out

    a, b = calls({}), calls(dict(case, decomp=None, recover=None))
    k = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), None)
    if k is None:
        return "\n(order of boundary and driver actions differs)"
    return f"\norder in this run from the first difference: {' -> '.join(b[k:k+6])}\norder in the reference run:               {' -> '.join(a[k:k+6])}"


def cuts(q, n, ng):
    """A random split of each dimension into 1..3 blocks of at least one stencil width."""
    out = []
    for d in range(3):
        k = q.choice([1, 1, 2, 2, 3])
        lo = max(2, ng)
        while k > 1 and n[d] < k * lo:
            k -= 1
        ins = []
        if k == 2:
            ins = [q.randrange(lo, n[d] - lo + 1)]
        elif k == 3:
            a = q.randrange(lo, n[d] - 2 * lo + 1)
            ins = [a, q.randrange(a + lo, n[d] - lo + 1)]
        out.append([ng] + [ng + x for x in ins] + [ng + n[d]])
    return out


def gen_case(q, cls, W, picks, nreg, i):
    g = W["grid"]
    case = {"seed": q.randrange(2**48)}
    if not cls.endswith("x") and q.random() < 0.35:
        case["presync"] = 1
    if nreg and i % 6 == 5:
        case["failreg"] = q.randrange(nreg)
        return case
    if q.random() < 0.75:
        p = q.choice([0.15, 0.5, 1.0])
        case["devs"] = [k for k in range(picks) if q.random() < p]
    if q.random() < 0.7:
        case["decomp"] = cuts(q, g["n"], g["ng"])
        if q.random() < 0.7:
            case["comps"] = 1
    if q.random() < 0.5:
        case["pad"] = [q.randrange(0, 4), q.randrange(0, 3)]
    if q.random() < 0.7:
        case["fill"] = q.choice(["nan", "7.25e+3", "-1e-3"])
    if q.random() < 0.5:
        case["stale"] = q.choice(["nan", "3.5"])
    if cls.endswith("x"):
        if q.random() < 0.7:
            case["shuffle"] = 1
    elif q.random() < 0.6:
        case.update(threads=q.choice([2, 3, 5]), strategy=q.choice([0, 0, 1, 2, 3]), mean=q.choice([7, 40, 300]))
    if q.random() < 0.3:
        case["recover"] = q.randrange(1, g["iters"] + 1)
        if q.random() < 0.7:
            case["decomp2"] = cuts(q, g["n"], g["ng"])
    return case


def keep(job, r):
    job["ref"] = os.path.join(job["base"], f"ref-{job['cls']}-{vlib.derive(1, json.dumps(job['W'])):x}")
    with open(job["ref"], "wb") as f:
        pickle.dump(r, f)


def prepare(chk, classes):
    made = chk.map(make, [(c, chk.scratch) for c in classes], jobs=len(classes))
    jobs = {}
    q = random.Random(vlib.derive(chk.seed, "C16", "world"))
    for cls, d, dirs in made:
        ng = {**MODELS, **MORE}[cls][2]
        for w in range(chk.pick(1, 3)):
            n = [q.randrange(2 * max(ng, 3), 2 * max(ng, 3) + 4) for _ in range(3)] if w else [2 * ng + 1, 2 * ng, 2 * ng + 2] if ng > 3 else [7, 6, 8]
            jobs[(cls, w)] = {"cls": cls, "dir": d, "dirs": dirs, "base": chk.scratch, "W": world(n, ng, 2)}
    for k, j in jobs.items():
        r = execute(j, {})
        if r["rc"] == 99:
            raise vlib.HarnessError(r["out"][-500:])
        if r["rc"] != 0:
            raise vlib.Broken(f"{j['cls']}: the reference run (listed order, one component, one thread) fails: exit {r['rc']} {r['out'][-800:]} {r['err'][-500:]}")
        bad = sorted({name(model(j), r["dump"][i // max(1, len(r["vals"]) // len(r["dump"]) // 3) % len(r["dump"])]) for i, x in enumerate(r["vals"]) if x != x}) if any(x != x for x in r["vals"]) else []
        if bad:
            raise vlib.Broken(f"{j['cls']}: the reference run uses data nothing has set (NaN) in {bad[:6]}")
        keep(j, r)
        j["picks"] = r["picks"]
        j["nreg"] = int(r["out"].split("nreg=")[1].split()[0])
    return jobs


def body(chk):
    worlds = prepare(chk, list(MODELS) + (list(MORE) if chk.thorough else []))
    jobs = []
    per = chk.pick({"wave": 90, "wavex": 90, "baikal": 70, "baikalx": 90}, {})
    for k, j in sorted(worlds.items()):
        q = random.Random(vlib.derive(chk.seed, "C16", *k))
        for i in range(per.get(k[0], 600)):
            jobs.append(dict(j, case=gen_case(q, k[0], j["W"], j["picks"], j["nreg"], i)))
    chk.log(f"{len(worlds)} thorn sets built, {len(jobs)} runs")
    results = chk.map(run_case, jobs)
    seen = {}
    for j, r in zip(jobs, results):
        if r["msg"] and seen.get(j["cls"], 0) < 1:
            seen[j["cls"]] = seen.get(j["cls"], 0) + 1
            case = narrow(j)
            msg = run_case(dict(j, case=case))["msg"]
            chk.violation(f"{j['cls']} thorns: {msg}{describe(j, case)}", {"cls": j["cls"], "W": j["W"], "case": case}, signature=None)
    if not seen:
        idx = list(range(0, len(jobs), max(1, len(jobs) // chk.pick(12, 60))))
        for i, r in zip(idx, chk.map(run_case, [jobs[i] for i in idx], jobs=3)):
            if r["hash"] != results[i]["hash"] or r["script"] != results[i]["script"]:
                raise vlib.HarnessError(f"run {i} is not deterministic")
        chk.cov["determinism_reruns_identical"] = len(idx)
    chk.cov["evaluations"] = len(results)
    chk.cov["distinct_nontrivial"] = len({(j["cls"], r["script"], j["case"].get("seed") if j["case"].get("threads", 1) > 1 else 0) for j, r in zip(jobs, results)})
    chk.cov["rule"] = "A run executes one generated thorn set through startup, registration, initial data, two time steps of two substeps and analysis; distinct = the script of scheduled actions (order, decomposition, padding, poison, crash point) or, with several threads, the thread schedule seed differs."
    chk.cov["simulated_time_steps"] = 2 * len(results)
    chk.cov["faults_fired"] = {
        "order_of_scheduled_functions_changed": sum(1 for j in jobs if j["case"].get("devs")),
        "several_components": sum(1 for j in jobs if j["case"].get("decomp")),
        "uninitialised_storage_poisoned": sum(1 for j in jobs if j["case"].get("fill")),
        "padded_arrays": sum(1 for j in jobs if j["case"].get("pad")),
        "crash_and_recovery": sum(1 for j in jobs if j["case"].get("recover")),
        "recovery_on_other_decomposition": sum(1 for j in jobs if j["case"].get("decomp2")),
        "refused_registration": sum(1 for j in jobs if j["case"].get("failreg") is not None),
        "boundaries_by_the_driver": sum(1 for j in jobs if j["case"].get("presync")),
        "several_threads": sum(1 for j in jobs if j["case"].get("threads", 1) > 1),
        "loop_points_in_random_order": sum(1 for j in jobs if j["case"].get("shuffle")),
    }
    chk.cov["thread_switches"] = sum(r["switches"] for r in results)
    by = chk.cov["runs_by_thorn_set"] = {}
    for j in jobs:
        by[j["cls"]] = by.get(j["cls"], 0) + 1
    chk.cov["samples"] = [{"thorns": jobs[0]["cls"], "case": jobs[0]["case"]}, {"thorns": jobs[-1]["cls"], "case": jobs[-1]["case"]}]
    chk.cov["real_components"] = ["nrpy code generation", "all generated thorn sources, compiled unmodified", "generated interface.ccl, param.ccl, schedule.ccl, make.code.defn, as data for the flesh"]
    chk.cov["stub_components"] = ["Cactus flesh and scheduler, driver (components, ghost exchange, storage, checkpoint), MoL/ODESolvers, Boundary, NewRad, ADMBase, TmunuBase, CarpetX loops: simulated from their documented contracts"]
    chk.assumptions += ["one refinement level; a two-stage Runge-Kutta method", "functions not ordered by BEFORE/AFTER may run in any order, in the same order every time within one run", "after recovery values agree to 1e-9 (the post-step projection runs once more)"]


def replay(chk, case):
    cls, d, dirs = make((case["cls"], chk.scratch))
    job = {"cls": cls, "dir": d, "dirs": dirs, "base": chk.scratch, "W": case["W"]}
    keep(job, execute(job, {}))
    return run_case(dict(job, case=case["case"]))["msg"]


if __name__ == "__main__":
    vlib.main("C16", body, replay)
