"""C05: crash/fault consistency of project generation.  C06: ConditionalFileUpdater histories under faults."""
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pyrun
import vlib

WL = os.path.join(vlib.VERIF, "workloads")

# ------------------------------------------------------------------ C06
PARTS = ["", "int x;\n", "int x;", "  int x;\n\n", "int  x ;\n", "int main(){return 0;}\n", "// \u03b1\n", "a\nb\n", "a\nb", "#define A 1\n", "x" * 9000 + "\n", "\n\n"]


def cfu_case(seed):
    rng = random.Random(seed)
    steps = []
    names = ["a.h", "b.c", "sub.txt"]
    for _ in range(rng.choice([2, 3, 5, 8])):
        n = rng.choice([0, 1, 1, 2, 3])
        content = [rng.choice(PARTS) for _ in range(n)]
        if steps and rng.random() < 0.35:
            content = list(rng.choice(steps)[1])
            if rng.random() < 0.5:
                content = content + [rng.choice(["\n", " ", "", ";"])]
        fmt = rng.random() < 0.35
        boom = rng.choice([None, None, None, 0, 1, 5])
        steps.append([rng.choice(names[: rng.choice([1, 2, 3])]), content, fmt, boom])
    mode = rng.choice(["clean", "clang", "errno", "kill"])
    cfg, clang = {}, None
    if mode == "clang":
        clang = {str(rng.randrange(0, 3)): rng.choice(["exit1", "partial_exit1", "sigkill"])}
        for s in steps:
            s[2] = s[2] or rng.random() < 0.6
    if mode == "errno":
        cfg = {"faults": {"errno": 1, "short": 1}, "fault_rate": 0.25, "max_faults": rng.choice([1, 2])}
    if mode == "kill":
        cfg = {"faults": {"kill": 1, "torn": 1}, "fault_rate": 0.2, "max_faults": 1}
    return {"steps": steps, "cfg": cfg, "clang": clang, "seed": seed}


def lines(path):
    out = []
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            out = [json.loads(x) for x in f]
    return out


def clang_ref(text):
    r = vlib.run(["/opt/venv/bin/clang-format", "-style={BasedOnStyle: LLVM, ColumnLimit: 150}"], input=text.encode(), env=vlib.base_env())
    if r.returncode:
        raise vlib.HarnessError("clang-format failed on " + text[:80])
    return r.stdout.decode()


def cfu_judge(steps, log, faulted, clang):
    """Check every acknowledged step against the model."""
    for rec in log:
        if rec[1] == "start":
            continue
        i, out, before, after = rec
        fn, content, fmt, boom = steps[i]
        old = before[0] if before else None
        if boom is not None:
            if out not in ("boom",):
                return f"step {i}: the body raised but the error did not propagate (outcome {out})"
            if (after and after[0]) != old:
                return f"step {i}: the body raised part-way, yet {fn} changed from {old!r:.80} to {(after and after[0])!r:.80}"
            if before and after[1] != before[1]:
                return f"step {i}: the body raised part-way, yet {fn} was rewritten"
            continue
        if out == "formatter":
            if not clang:
                return f"step {i}: formatter failure reported although none was injected"
            if (after and after[0]) != old:
                return f"step {i}: the formatter failed, yet {fn} changed from {old!r:.80} to {(after and after[0])!r:.80}"
            continue
        if out.startswith("oserror"):
            if not faulted:
                return f"step {i}: {out} although no I/O fault was injected"
            continue
        new = "".join(content)
        if fmt:
            new = clang_ref(new)
        if new.strip() == (old or "").strip():
            if (after and after[0]) != old or (before and after and after[1] != before[1]):
                return f"step {i}: content unchanged but {fn} was rewritten ({old!r:.60} -> {(after and after[0])!r:.60})"
        else:
            if after is None or after[0] != new:
                return f"step {i}: update succeeded but {fn} holds {(after and after[0])!r:.100} instead of {new!r:.100}"
    return None


def cfu_run(job):
    case, base = job["case"], job["base"]
    sc = tempfile.mkdtemp(prefix="u", dir=base)
    try:
        ack = os.path.join(sc, "ack")
        pol = {"deviations": case["deviations"]} if "deviations" in case else {"seed": case["seed"], "cfg": case["cfg"]}
        c = {"procs": [{"name": "main", "kind": "script", "target": os.path.join(WL, "wl_cfu.py"), "args": [json.dumps({"steps": case["steps"], "ack": ack})]}], "policy": pol}
        if case.get("clang"):
            c["clang_faults"] = case["clang"]
        r = pyrun.simulate(c, sc, keep=True)
        p = r["procs"]["main"]
        log = lines(ack)
        msg = cfu_judge(case["steps"], log, bool(r["fired"]), case.get("clang"))
        if not msg and p["rc"] != 0 and not p["killed"]:
            msg = f"unexpected failure (exit {p['rc']}):\n{p['out'][-800:]}"
        if not msg:
            # clean pass over whatever was left: the same updates (without the scripted exceptions) must all land
            ack2 = os.path.join(sc, "ack2")
            steps2 = [[a, b, f, None] for a, b, f, _ in case["steps"]]
            c2 = {
                "procs": [{"name": "main", "kind": "script", "target": os.path.join(WL, "wl_cfu.py"), "args": [json.dumps({"steps": steps2, "ack": ack2})]}],
                "policy": {"deviations": []},
                "work_from": os.path.join(r["dir"], "w"),
                "cache_from": os.path.join(r["dir"], "cache"),
            }
            v = pyrun.simulate(c2, sc)
            log2 = lines(ack2)
            msg = cfu_judge(steps2, log2, False, None)
            if not msg and (v["procs"]["main"]["rc"] != 0 or sum(1 for x in log2 if x[1] == "ok") != len(steps2)):
                msg = f"a clean run over the leftovers fails (exit {v['procs']['main']['rc']}):\n{v['procs']['main']['out'][-800:]}"
            if msg:
                msg = "on the clean re-run: " + msg
        return {"msg": msg, "trace": r["trace"], "fired": r["fired"], "steps": r["steps"], "sched": r["sched_hash"] + json.dumps(case["steps"]), "loghash": r["loghash"], "nt": bool(r["fired"]) or any(s[3] is not None for s in case["steps"]) or len(case["steps"]) > 1}
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def body_c06(chk):
    pyrun.build_shim()
    n = chk.pick(120, 2500)
    jobs = [{"case": cfu_case(vlib.derive(chk.seed, "C06", i)), "base": chk.scratch} for i in range(n)]
    results = chk.map(cfu_run, jobs)
    report(chk, jobs, results, cfu_run)
    chk.cov["rule"] = "A run is a history of 2-8 conditional updates over up to three files with scripted exceptions, formatter failures, I/O errors or a kill, followed by a clean pass over the leftovers; non-trivial = a fault or exception fired or more than one update; distinct by (history, schedule) hash."
    chk.cov["body_exceptions"] = sum(1 for j in jobs for s in j["case"]["steps"] if s[3] is not None)
    chk.cov["real_components"] = ["nrpy.helpers.conditional_file_updater", "clang-format", "kernel file system"]
    chk.cov["stub_components"] = ["clang-format front end in formatter-failure runs only"]


def report(chk, jobs, results, fn, minim=None):
    fired = {}
    for r in results:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
    chk.cov.update(
        evaluations=len(results),
        distinct_nontrivial=len({r["sched"] for r in results if r["nt"]}),
        faults_fired=fired,
        scheduler_steps=sum(r["steps"] for r in results),
        samples=[jobs[0]["case"]],
    )
    for j, r in zip(jobs, results):
        if r["msg"] and minim:
            chk.violation(r["msg"], {"case": minim(j, r)})
            return
        if r["msg"]:
            case = dict(j["case"])

            def fails(d, case=case, j=j):
                return fn(dict(j, case=dict(case, deviations=d)))["msg"] is not None

            case["deviations"] = vlib.ddmin(r["trace"], fails) if r["trace"] else []
            chk.violation(r["msg"], {"case": case})
            return
    n = len(jobs)
    idx = list(range(0, n, max(1, n // chk.pick(5, 20))))
    for i, r in zip(idx, chk.map(fn, [jobs[i] for i in idx], jobs=3)):
        if r["loghash"] != results[i]["loghash"]:
            raise vlib.HarnessError(f"run {i} is not deterministic")
    chk.cov["determinism_reruns_identical"] = len(idx)


# ------------------------------------------------------------------ C05
def gens(chk, rng):
    def wave(**k):
        return {"kind": "script", "target": os.path.join(WL, "wl_wave.py"), "args": [json.dumps(k)], "cls": "wave"}

    def mod(m):
        return {"kind": "module", "target": f"nrpy.examples.{m}", "args": [], "cls": m}

    g = [
        (wave(coords=["Cartesian"], simd=True), wave(coords=["Cartesian"], simd=False, MoL="RK2 Heun", checkpoint=False)),
        (wave(coords=["Spherical"], fd_order=4), wave(coords=["Spherical"], fd_order=2, KO=True)),
        (mod("nrpyelliptic_conformally_flat"), None),
        (mod("superB_nrpyelliptic_conformally_flat"), None),
        (mod("carpet_wavetoy_thorns"), None),
        (mod("carpetx_wavetoy_thorns"), None),
        (mod("wave_equation_cartesian"), None),
    ]
    if chk.thorough:
        g += [(mod("seobnrv5_aligned_spin_inspiral"), None), (mod("tovola_neutron_star"), None), (mod("wave_equation_curvilinear"), None), (mod("nrpypn_quasicircular_momenta"), None)]
    return g


def gref(args):
    wl, base = args
    r = pyrun.simulate({"procs": [dict(wl, name="main")], "policy": {"deviations": []}, "nproc": 3}, base, keep=True)
    p = r["procs"]["main"]
    if p["rc"] != 0:
        raise vlib.Broken(f"fault-free generation of {wl['cls']} failed:\n{p['out'][-1500:]}")
    return {"tree": p["tree"], "cache": os.path.join(r["dir"], "cache"), "work": os.path.join(r["dir"], "w"), "mut": r["mutating_ops"], "wops": r["wops"]}


def gen_run(job):
    """A history of generation attempts (lives) in one directory, then a clean one."""
    case, base = job["case"], job["base"]
    sc = tempfile.mkdtemp(prefix="g", dir=base)
    try:
        wl, ref, stale = case["wl"], job["ref"], job.get("stale")
        extra_ok = case.get("over") == "stale"
        work = {"self": ref["work"], "stale": stale and stale["work"]}.get(case.get("over"))
        cache = ref["cache"] if case["warm"] else None
        traces, fired, hashes, steps, hist, msg = [], {}, [], 0, [], None

        def cmp(t):
            return sorted(k for k in (set(ref["tree"]) if extra_ok else set(t) | set(ref["tree"])) if t.get(k) != ref["tree"].get(k))

        for i, L in enumerate(case["lives"] + [None]):
            if L is None:
                if not fired:
                    break
                L = {"deviations": [], "nproc": 2}
            pol = {"deviations": L["deviations"]} if "deviations" in L else {"seed": L["seed"], "cfg": L["cfg"]}
            c = {"procs": [dict(wl, name="main")], "policy": pol, "nproc": L["nproc"], "cache_from": cache, "work_from": work}
            if L.get("clang"):
                c["clang_faults"] = L["clang"]
            r = pyrun.simulate(c, sc, keep=True)
            if i:
                shutil.rmtree(os.path.dirname(work), ignore_errors=True)
            p = r["procs"]["main"]
            work, cache = os.path.join(r["dir"], "w"), os.path.join(r["dir"], "cache")
            traces.append(r["trace"])
            hashes.append(r["loghash"])
            steps += r["steps"]
            hist.append(r["fired"] or "no fault")
            what = f"attempt {i + 1} to generate {wl['cls']} (directory at first: {case.get('over') or 'empty'}; faults per attempt {hist})"
            for k, v in r["fired"].items():
                fired[k] = fired.get(k, 0) + v
            if p["rc"] == 0 and not r["deadlock"]:
                bad = cmp(p["tree"])
                if bad:
                    msg = f"{what} reported success, but {len(bad)} file(s) are missing or wrong: {bad[:5]}"
                    break
            elif not r["fired"]:
                msg = f"{what} fails without a fault in it (exit {p['rc']}):\n{p['out'][-1200:]}"
                break
        return {"msg": msg, "trace": traces, "fired": fired, "steps": steps, "sched": "".join(hashes) + wl["cls"] + str(case.get("over")), "loghash": hashes, "nt": bool(fired) or bool(case.get("over"))}
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def gen_minimise(j, r):
    case = json.loads(json.dumps(j["case"]))
    for L, t in zip(case["lives"], r["trace"]):
        L.pop("seed", None)
        L.pop("cfg", None)
        L["deviations"] = t
    case["lives"] = case["lives"][: len(r["trace"])]

    def fails(c):
        return gen_run(dict(j, case=c))["msg"] is not None

    i = 0
    while i < len(case["lives"]) and len(case["lives"]) > 1:
        t = dict(case, lives=case["lives"][:i] + case["lives"][i + 1 :])
        if fails(t):
            case = t
        else:
            i += 1
    for i, L in enumerate(case["lives"]):
        for d in L["deviations"]:
            if d[1][0] != "run":
                continue
            t = json.loads(json.dumps(case))
            t["lives"][i]["deviations"] = [x for x in L["deviations"] if x[1][0] != "run"]
            if fails(t):
                case = t
            break
    return case


def gen_life(q, ref, target, pool):
    """One attempt: where and how it is hit."""
    mode = q.choice(["kill", "kill", "torn", "torn", "errno", "errno", "clang", "none"]) if not target else q.choice(["kill", "torn", "torn", "errno"])
    L = {"cfg": {"switch": q.choice([0.0, 0.2])}, "seed": q.randrange(1 << 50), "nproc": q.choice([1, 3]), "mode": mode}
    if mode == "clang":
        L["clang"] = {str(q.randrange(0, 30)): q.choice(["exit1", "partial_exit1", "sigkill"])}
    elif mode != "none":
        f = {mode: 1}
        if target:
            ks = [k for k, (op, path) in enumerate(ref["wops"]) if path == target]
            w = [k for k in ks if ref["wops"][k][0] == "write"]
            L["cfg"].update(faults=f, fault_wop=q.choice(w) if w and (mode == "torn" or q.random() < 0.5) else q.choice(ks), max_faults=1)
        else:
            k = q.randrange(1, max(2, ref["mut"]))
            L["cfg"].update(faults=f, fault_at=[k] if mode != "errno" else [k, k + q.randrange(1, 9)], max_faults=q.choice([1, 2]))
    return L


def body_c05(chk):
    pyrun.build_shim()
    rng = random.Random(vlib.derive(chk.seed, "C05"))
    g = gens(chk, rng)
    flat = [w for a, b in g for w in (a, b) if w]
    refs = dict(zip([json.dumps(w) for w in flat], chk.map(gref, [(w, chk.scratch) for w in flat])))
    jobs = []
    order = {}
    for i in range(chk.pick(70, 900)):
        q = random.Random(vlib.derive(chk.seed, "C05", i))
        a, b = g[i % len(g)]
        if b and q.random() < 0.5:
            a, b = b, a
        ref = refs[json.dumps(a)]
        key = json.dumps(a)
        if key not in order:
            # every project file becomes a target in turn: the files of each kind first, then the bulk of C functions
            files = sorted({p for op, p in ref["wops"] if op == "write"})
            q2 = random.Random(vlib.derive(chk.seed, "C05", key))
            q2.shuffle(files)
            kinds = {}
            for f in files:
                kinds.setdefault(os.path.splitext(f)[1] or os.path.basename(f), []).append(f)
            order[key] = [v[0] for v in kinds.values()] + [x for n in range(1, 400) for v in kinds.values() for x in v[n : n + 1]]
        lives = []
        over = q.choice([None, None, "self", "stale"])
        if over == "stale" and not b:
            over = "self"
        for n in range(q.choice([1, 2, 3])):
            t = None
            if order[key] and q.random() < 0.75 and (over is None or n == 0):
                t = order[key].pop(0)
                order[key].append(t)
                if n == 0:
                    over = q.choice([None, None, None, "stale" if b else None])
            lives.append(gen_life(q, ref, t, None))
        if all(L["mode"] == "none" for L in lives) and not over:
            over = "self"
        warm = not any(L["mode"] == "clang" for L in lives) and q.random() < 0.8
        jobs.append({"ref": ref, "stale": refs[json.dumps(b)] if b else None, "base": chk.scratch, "case": {"wl": a, "stale_wl": b, "lives": lives, "warm": warm, "over": over}})
    results = chk.map(gen_run, jobs)
    report(chk, jobs, results, gen_run, gen_minimise)
    chk.cov["rule"] = "A run is a history of 1-3 attempts to generate a whole project (BHaH, superB, ETLegacy or CarpetX) in one directory (first empty, holding an identical project or a differently configured one), each hit by a kill, torn write, I/O error or formatter failure at a chosen file operation, then a clean attempt; project files take turns as targets; non-trivial = a fault fired or the directory was not empty; distinct by event-sequence hash and directory state."
    by = {}
    for j in jobs:
        by[j["case"]["wl"]["cls"]] = by.get(j["case"]["wl"]["cls"], 0) + 1
    chk.cov["runs_by_workload"] = by
    chk.cov["generation_attempts"] = sum(len(r["loghash"]) for r in results)
    chk.cov["real_components"] = ["nrpy generation and file output", "sympy", "clang-format", "kernel file system"]
    chk.cov["stub_components"] = ["multiprocess.Pool/Manager (lockstep fork pool)"]
    chk.assumptions.append("process crash model: completed system calls survive, nothing else does; power loss with reordered metadata is not modelled")


def replay(chk, rp):
    pyrun.build_shim()
    case = rp["case"]
    if chk.prop == "C06":
        return cfu_run({"case": case, "base": chk.scratch})["msg"]
    ref = gref((case["wl"], chk.scratch))
    stale = gref((case["stale_wl"], chk.scratch)) if case.get("stale_wl") else None
    return gen_run({"case": case, "ref": ref, "stale": stale, "base": chk.scratch})["msg"]


if __name__ == "__main__":
    P = sys.argv[1]
    vlib.main(P, body_c05 if P == "C05" else body_c06, replay)
