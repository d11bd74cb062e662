"""C15: project generation depends only on the script, and changes nothing but its project and its cache."""
import json
import os
import random
import shutil
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pcg
import pyrun
import vlib

WL = os.path.join(vlib.VERIF, "workloads")


def mod(m, loose=False, **k):
    return dict({"kind": "module", "target": "nrpy.examples." + m, "args": [], "cls": m, "loose": loose}, **k)


def wave(**k):
    return {"kind": "script", "target": os.path.join(WL, "wl_wave.py"), "args": [json.dumps(k)], "cls": "wave"}


QUICK = [
    {"kind": "script", "target": os.path.join(WL, "wl_carpetx_rhs.py"), "args": [], "cls": "carpetx_bssn_rhs", "loose": True, "incremental": True},
    mod("wave_equation_cartesian"),
    mod("wave_equation_curvilinear"),
    mod("carpet_wavetoy_thorns", True, incremental=True),
    mod("carpetx_wavetoy_thorns", True, incremental=True),
    mod("nrpyelliptic_conformally_flat"),
    mod("superB_nrpyelliptic_conformally_flat"),
    mod("nrpypn_quasicircular_momenta"),
    mod("two_blackholes_collide", True),
]
MORE = [
    mod("wave_equation_multicoord_wavetoy"),
    mod("spinning_blackhole", True),
    mod("superB_two_blackholes_collide", True),
    mod("tovola_neutron_star", True),
    mod("blackhole_spectroscopy", True),
    mod("superB_blackhole_spectroscopy", True),
    mod("seobnrv5_aligned_spin_inspiral", True),
    mod("hydro_without_hydro", True),
    mod("manga_bhah_lib", True),
    {"kind": "script", "target": os.path.join(WL, "run_example.py"), "args": ["nrpy.examples.carpetx_baikal_thorns", '{"thorn_names": ["BaikalX"], "fd_order_list": [2]}'], "cls": "carpetx_baikal", "loose": True, "incremental": True},
    {"kind": "script", "target": os.path.join(WL, "run_example.py"), "args": ["nrpy.examples.carpet_baikal_thorns", '{"thorn_names": ["Baikal"], "fd_order_list": [2]}'], "cls": "carpet_baikal", "loose": True, "incremental": True},
]

# Each dimension of the surroundings: name -> function(rng) -> setting.  A run takes a random subset of them.
DIMS = {
    "work": lambda q: q.choice(["deep/er/nest", "with space/a b", "ünï-cødé", "project/project", "nrpy", "w.d", "x" * 80]),
    "source": lambda q: q.choice(["opt/nrpy src", "site-packages", "a/b/c/d"]),
    "run_as_script": lambda q: True,
    "locale": lambda q: q.choice([{"LC_ALL": "POSIX", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0", "LANG": None}, {"LC_ALL": "C", "LANG": None}, {"LANG": None}, {"LANG": "de_DE.UTF-8", "LC_NUMERIC": "de_DE.UTF-8"}]),
    "home_cache": lambda q: {"HOME": "@SCRATCH@/home of user", "XDG_CACHE_HOME": None},
    "tmpdir": lambda q: {"TMPDIR": q.choice(["@SCRATCH@/t m p", "/nonexistent/tmp"])},
    "umask": lambda q: q.choice([0o077, 0o027, 0o000, 0o002]),
    "listing": lambda q: q.randrange(1, 1 << 30),
    "random": lambda q: q.randrange(1, 1 << 30),
    "host": lambda q: q.choice(["node17", "laptop", "localhost"]),
    "clock": lambda q: {"SIM_CLOCK": q.choice(["0 0", "86399 0.5", "4102444800 3600", "1709164800 86400", "1700000000 -10", "951782400 31536000"])},
    "tz": lambda q: {"TZ": q.choice(["UTC-14", "PST8PDT", "Asia/Kolkata"])},
    "optimise": lambda q: {"PYTHONOPTIMIZE": q.choice(["1", "2"])},
    "env": lambda q: dict(q.sample(sorted({"USER": "alice", "LOGNAME": "bob", "TERM": "dumb", "COLUMNS": "40", "CC": "icc", "CFLAGS": "-Ofast", "CXX": "clang++", "OMP_NUM_THREADS": "7", "SHELL": "/bin/false", "PWD": "/nowhere", "EDITOR": "vi", "NO_COLOR": "1", "CI": "true", "GITHUB_ACTIONS": "true", "CUDA_PATH": "/opt/cuda", "DEBUG": "1"}.items()), 5)),
    "junk": lambda q: {"README.txt": "mine\n", ".clang-format": "BasedOnStyle: GNU\nColumnLimit: 60\n", "project/.clang-format": "BasedOnStyle: Mozilla\n", "project/other/keep.c": "int keep;\n", "project/notes.txt": "mine too\n", "data/checkpoint.dat": "x" * 100},
    "stale": lambda q: True,
    "namesakes": lambda q: True,
    "nproc": lambda q: q.choice([1, 2, 5, 16]),
    "prior": lambda q: True,
}


def sample(q):
    k = q.choice([1, 3, 6, 12])
    return {d: DIMS[d](q) for d in q.sample(sorted(DIMS), k)}


def world_of(dims, ref):
    w = {"work": dims.get("work", "w"), "env": {}, "hook": {}, "junk": dict(dims.get("junk") or {})}
    if "source" in dims:
        w["source"] = dims["source"]
    for d in ("locale", "home_cache", "tmpdir", "clock", "tz", "optimise", "env"):
        w["env"].update(dims.get(d) or {})
    if "umask" in dims:
        w["umask"] = dims["umask"]
    for d in ("listing", "random", "host"):
        if d in dims:
            w["hook"][d] = dims[d]
    if dims.get("namesakes") and ref:
        # files of the user that happen to be called like files of the project
        for f in ref["tree"]:
            t = f.split("/")
            for n in {t[-1], "/".join(t[-2:]), "project/" + t[-1]}:
                if not owned(n, ref) and not any(d == n or d.startswith(n + "/") for d in ref["projects"]):
                    w["junk"][n] = f"/* notes of mine on {t[-1]} */\n"
    if dims.get("stale") and ref:
        # files of an earlier, different generation of the same project
        for p in ref["projects"]:
            w["junk"][os.path.join(p, "zz_stale_file.c")] = "#error stale\n"
            w["junk"][os.path.join(p, "zz_stale_dir", "old.h")] = "#error stale\n"
        for f in ref["some"]:
            w["junk"][f] = "stale contents\n"
    return w


def launch(wl, dims, ref, base, prior=None, cold=True):
    p = dict(wl, name="main")
    if dims.get("run_as_script") and wl["kind"] == "module":
        p["kind"], p["target"] = "script", "@SOURCE@/" + wl["target"].replace(".", "/") + ".py"
    case = {"procs": [p], "nproc": dims.get("nproc", 3), "hashseed": 0, "policy": {"deviations": []}, "world": world_of(dims, ref), "wall": 800.0, "watch_work": False}
    if ref and not cold and "home_cache" not in dims:
        case["cache_from"] = ref["cache"]
    if dims.get("prior") and prior:
        case["work_from"] = prior["workdir"]
    return pyrun.simulate(case, base, keep=True)


def owners(t):
    """The directories that belong to the generated project: the topmost ones that hold files (a thorn each for Cactus)."""
    dirs = sorted({os.path.dirname(k) for k in t}, key=lambda d: d.count("/"))
    top = []
    for d in dirs:
        if d.startswith("project/") and not any(d == x or d.startswith(x + "/") for x in top):
            top.append(d)
    return top


def owned(k, ref):
    return any(k.startswith(d + "/") for d in ref["projects"])


def reference(args):
    wl, base = args
    r = launch(wl, {}, None, base)
    p = r["procs"]["main"]
    t = p["tree"]
    projects = owners(t)
    rng = random.Random(len(t))
    some = rng.sample(sorted(t), min(3, len(t)))
    return {"rc": p["rc"], "out": p["out"], "tree": t, "cache": os.path.join(r["dir"], "cache"), "work": r["work"], "workdir": r["work"], "projects": projects, "some": some, "stray": stray(r, {})}


def stray(r, dims):
    """Attempts to change the file system outside the project directory, the cache and temporary files."""
    ok = [os.path.join(r["work"], "project"), r["env"]["XDG_CACHE_HOME"] or os.path.join(r["env"]["HOME"], ".cache"), os.path.join(r["dir"], "_priv"), os.path.join(os.path.dirname(r["dir"]), "pyc"), "/dev"]
    tmp = r["env"]["TMPDIR"]
    for t in {tmp, "/tmp", "/var/tmp", "/usr/tmp"}:
        if t and not r["dir"].startswith(t + "/"):
            ok.append(t)
    bad = []
    for op, p in r["audit"]:
        if any(p == x or p.startswith(x + "/") for x in ok):
            continue
        if os.path.dirname(p) in ("/tmp", "/var/tmp", "/usr/tmp", r["work"]) and not os.path.lexists(p):
            continue  # a temporary file (tempfile probes the working directory last), gone again
        if tmp and (p == tmp or p.startswith(tmp + "/")):
            continue
        q = p.replace(r["dir"], "<scratch>")
        bad.append(f"{op} {q}")
    if tmp and tmp.startswith(r["dir"]) and os.path.isdir(tmp):
        left = sorted(os.listdir(tmp))
        if left:
            bad.append(f"temporary files left behind: {left[:5]}")
    return bad


def judge(wl, dims, ref, r, prior):
    p = r["procs"]["main"]
    if p["rc"] != 0 or r["deadlock"]:
        return f"generation of {wl['cls']} fails (exit {p['rc']}) in these surroundings, and succeeds elsewhere:\n{p['out'][-1200:]}"
    t = dict(p["tree"])
    junk = world_of(dims, ref)["junk"]
    for k, text in junk.items():
        if owned(k, ref):
            continue
        full = os.path.join(r["work"], k)
        if not os.path.exists(full) or open(full, encoding="utf-8").read() != text:
            return f"generation of {wl['cls']} changed or removed {k}, which was there before and is none of its business"
        t.pop(k, None)
    if dims.get("prior") and prior:
        for k, h in prior["tree"].items():
            if owned(k, ref):
                continue
            if t.pop(k, None) != h:
                return f"generation of {wl['cls']} changed {k}, a file of the project {prior['projects']} generated earlier in the same place"
    extra = sorted(k for k in t if k not in ref["tree"])
    if wl.get("incremental"):
        # Cactus thorns are updated in place: files of an earlier generation stay, but are not part of the thorn
        for k in extra:
            if junk.get(k):
                t.pop(k)
        extra = [k for k in extra if k in t]
    if extra:
        what = "left over from before" if all(k in junk for k in extra) else "that it does not make elsewhere"
        return f"generation of {wl['cls']} ends with file(s) {what}: {extra[:5]}"
    fake = {"procs": {"main": dict(p, tree=t)}, "deadlock": False}
    m = pcg.compare(wl, ref, fake, r["work"])
    if m:
        return m.replace("generated output depends on the schedule", f"generation of {wl['cls']} depends on its surroundings").replace("the sequential result", "the result elsewhere")
    bad = [b for b in stray(r, dims) if b not in ref["stray"]] + ref["stray"]
    if bad:
        return f"generation of {wl['cls']} touches what is none of its business: {bad[:5]}"
    return None


def run_one(job):
    r = launch(job["wl"], job["dims"], job["ref"], job["base"], job.get("prior"), job["cold"])
    m = judge(job["wl"], job["dims"], job["ref"], r, job.get("prior"))
    h = r["loghash"]
    shutil.rmtree(r["dir"], ignore_errors=True)
    return {"msg": m, "steps": r["steps"], "loghash": h, "nwrites": len(r["audit"])}


def minimise(job):
    def fails(keys):
        return run_one(dict(job, dims={k: job["dims"][k] for k in keys}))["msg"] is not None

    keys = vlib.ddmin(sorted(job["dims"]), fails)
    dims = {k: job["dims"][k] for k in keys}
    return dims, run_one(dict(job, dims=dims))["msg"]


def replay(chk, case):
    pyrun.build_shim()
    ref = reference((case["wl"], chk.scratch))
    prior = reference((QUICK[1], chk.scratch)) if case["dims"].get("prior") else None
    return run_one({"wl": case["wl"], "dims": case["dims"], "ref": ref, "base": chk.scratch, "prior": prior, "cold": case["cold"]})["msg"]


def body(chk):
    pyrun.build_shim()
    wls = QUICK + (MORE if chk.thorough else [])
    refs = chk.map(reference, [(w, chk.scratch) for w in wls])
    for w, r in zip(wls, refs):
        if r["rc"] != 0:
            raise vlib.Broken(f"generation of {w['cls']} fails away from the source tree: {r['out'][-1500:]}")
        if r["stray"]:
            raise vlib.Broken(f"generation of {w['cls']} touches what is none of its business: {r['stray'][:5]}")
        if not r["tree"]:
            raise vlib.HarnessError(f"{w['cls']} wrote no project")
    chk.log("references", {w["cls"]: len(r["tree"]) for w, r in zip(wls, refs)})
    jobs = []
    for w, r in zip(wls, refs):
        slow = w["cls"] in ("two_blackholes_collide", "carpetx_bssn_rhs") or w in MORE
        for k in range(chk.pick(2 if slow else 6, 8 if slow else 40)):
            q = random.Random(vlib.derive(chk.seed, "C15", w["cls"], k))
            jobs.append({"wl": w, "ref": r, "base": chk.scratch, "dims": sample(q), "prior": refs[1] if w is not wls[1] else refs[2], "cold": q.random() < (0.5 if not slow else 0.2)})
    results = chk.map(run_one, jobs)
    chk.cov["evaluations"] = len(jobs)
    chk.cov["distinct_nontrivial"] = len({json.dumps([j["wl"]["cls"], j["dims"], j["cold"]], sort_keys=True) for j in jobs})
    chk.cov["rule"] = "A run generates one project in one seeded combination of surroundings (1 to 12 of the dimensions changed); distinct by project and combination."
    fired = {}
    for j in jobs:
        for d in j["dims"]:
            fired[d] = fired.get(d, 0) + 1
    chk.cov["faults_fired"] = fired
    chk.cov["audited_file_system_changes"] = sum(r["nwrites"] for r in results)
    chk.cov["projects"] = [w["cls"] for w in wls]
    chk.cov["samples"] = [{"workload": jobs[0]["wl"]["cls"], "dims": jobs[0]["dims"]}]
    chk.cov["real_components"] = ["nrpy code generation", "sympy", "clang-format", "CPython", "kernel file system (scratch)"]
    chk.cov["stub_components"] = ["multiprocess.Pool/Manager (lockstep fork pool)", "realtime clock", "directory listing order", "random state", "host and user names"]
    rep = 0
    for j, r in zip(jobs, results):
        if r["msg"] and rep < 1:
            rep += 1
            dims, msg = minimise(j)
            chk.violation((msg or r["msg"]) + f"\nsurroundings: {dims}", {"wl": j["wl"], "dims": dims, "cold": j["cold"]})
    if not rep:
        idx = list(range(0, len(jobs), max(1, len(jobs) // 3)))[:3]
        for i, r in zip(idx, chk.map(run_one, [jobs[i] for i in idx])):
            if (r["loghash"], r["msg"]) != (results[i]["loghash"], results[i]["msg"]):
                raise vlib.HarnessError(f"run {i} is not deterministic")
        chk.cov["determinism_reruns_identical"] = len(idx)
    chk.assumptions += ["string-hash seed fixed here (varied under C01)", "a home directory exists and is writable"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], body, replay)
