"""Run one simulated generator scenario (used by C01..C06)."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

import vlib

sys.path.insert(0, os.path.join(vlib.VERIF, "sim", "pysim"))
import driver  # noqa: E402

SHIM = os.path.join(vlib.BUILD, "shim.so")


def build_shim():
    os.makedirs(vlib.BUILD, exist_ok=True)
    src = os.path.join(vlib.VERIF, "sim", "pysim", "shim.c")
    if os.path.exists(SHIM) and os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    fd, tmp = tempfile.mkstemp(dir=vlib.BUILD, suffix=".so")
    os.close(fd)
    r = vlib.run(["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", tmp, src, "-ldl"])
    if r.returncode:
        raise vlib.HarnessError(r.stdout.decode())
    os.replace(tmp, SHIM)


def simulate(case, base, keep=False):
    """case: {
      procs: [{name, kind, target, args, env?}], nproc, hashseed, sequential, cache_from (dir to copy), cache_dir (shared, absolute),
      work_from (dir to copy as the initial working directory),
      world: {work, junk, env, umask, hook} (the surroundings of the process, see checks/envsim.py),
      policy: {"seed":..., "cfg":...} | {"deviations": [...]}, fake_clang: {...}
    }"""
    sc = tempfile.mkdtemp(prefix="r", dir=base)
    os.makedirs(os.path.join(sc, "_priv"))
    cache = os.path.join(sc, "cache")
    if case.get("cache_from"):
        shutil.copytree(case["cache_from"], cache)
    else:
        os.makedirs(cache)
    env = vlib.base_env(
        HOME=sc,
        XDG_CACHE_HOME=cache,
        LD_PRELOAD=SHIM,
        SIM_NPROC=str(case.get("nproc", 3)),
        PYTHONHASHSEED=str(case.get("hashseed", 0)),
        PYTHONPYCACHEPREFIX=os.path.join(base, "pyc"),
    )
    env.pop("PYTHONDONTWRITEBYTECODE")
    if case.get("sequential"):
        env["SIM_SEQUENTIAL"] = "1"
    if case.get("clang_faults"):
        # A front end for clang-format that fails on the k-th invocation of the whole run, chosen by the simulator.
        bind = os.path.join(sc, "bin")
        os.makedirs(bind)
        with open(os.path.join(bind, "clang-format"), "w", encoding="utf-8") as f:
            f.write(FAKE_CLANG)
        os.chmod(os.path.join(bind, "clang-format"), 0o755)
        env["PATH"] = bind + ":" + env["PATH"]
        env["SIM_CLANG_FAULTS"] = json.dumps(case["clang_faults"])
        env["SIM_CLANG_COUNT"] = os.path.join(sc, "_priv", "clang_count")
    pol = case.get("policy") or {"deviations": []}
    policy = driver.ReplayPolicy(pol["deviations"]) if "deviations" in pol else driver.SeededPolicy(pol["seed"], pol["cfg"])
    watch = [cache]
    world = case.get("world") or {}
    shared_work = os.path.join(sc, world.get("work", "w"))
    if case.get("work_from"):
        shutil.copytree(case["work_from"], shared_work)
    else:
        os.makedirs(shared_work)
    for rel, text in (world.get("junk") or {}).items():
        os.makedirs(os.path.dirname(os.path.join(shared_work, rel)), exist_ok=True)
        with open(os.path.join(shared_work, rel), "w", encoding="utf-8") as f:
            f.write(text)
    if world:
        for k, v in (world.get("env") or {}).items():
            if v is None:
                env.pop(k, None)
            else:
                env[k] = v.replace("@SCRATCH@", sc)
                if v.startswith("@SCRATCH@/") and k in ("HOME", "TMPDIR"):
                    os.makedirs(env[k], exist_ok=True)
        if world.get("source"):
            os.makedirs(os.path.dirname(os.path.join(sc, world["source"])), exist_ok=True)
            os.symlink(vlib.REPO, os.path.join(sc, world["source"]))
            env["PYTHONPATH"] = os.path.join(sc, world["source"])
        env["SIM_WORLD"] = json.dumps(world.get("hook") or {})
        env["SIM_AUDIT"] = os.path.join(sc, "_priv", "audit")
    if case.get("watch_work", True):
        watch.append(shared_work)
    sim = driver.Sim(sc, policy, watch, wall=case.get("wall", 400.0))
    outs = {}
    for p in case["procs"]:
        w = shared_work if case.get("share_work") or len(case["procs"]) == 1 else os.path.join(shared_work, p["name"])
        os.makedirs(w, exist_ok=True)
        out = os.path.join(sc, "_priv", f"log.{p['name']}")
        outs[p["name"]] = out
        e = dict(env)
        e.update(p.get("env") or {})
        sim.spawn(p["name"], [vlib.PY, os.path.join(vlib.VERIF, "sim", "pysim", "boot.py"), p["kind"], p["target"].replace("@SOURCE@", env["PYTHONPATH"])] + list(p.get("args", [])), e, w, out, umask=world.get("umask", -1))
    sim.run()
    res = {
        "steps": sim.step,
        "switches": sim.switches,
        "deadlock": sim.deadlock,
        "fired": sim.fired,
        "trace": sim.trace,
        "loghash": hashlib.sha256(repr([x[:4] for x in sim.log]).encode()).hexdigest(),
        "sched_hash": hashlib.sha256(repr([(x[1], x[2], x[5]) for x in sim.log]).encode()).hexdigest(),
        "procs": {},
        "mutating_ops": sum(1 for x in sim.log if x[2] in driver.MUTATING),
        "wops": [(x[2], os.path.relpath(x[6], shared_work)) for x in sim.log if x[2] in driver.MUTATING and x[6].startswith(shared_work + "/")],
        "dir": sc,
    }
    if world:
        with open(env["SIM_AUDIT"], encoding="utf-8") as f:
            res["audit"] = sorted({tuple(json.loads(l)) for l in f})
        res["work"], res["tmp"], res["env"] = shared_work, env.get("TMPDIR"), {k: env.get(k) for k in ("HOME", "XDG_CACHE_HOME", "TMPDIR", "PYTHONPATH")}
    for p in case["procs"]:
        q = sim.procs[p["name"]]
        with open(outs[p["name"]], "rb") as f:
            txt = f.read().decode(errors="replace")
        w = shared_work if case.get("share_work") or len(case["procs"]) == 1 else os.path.join(shared_work, p["name"])
        res["procs"][p["name"]] = {"rc": q.rc, "killed": q.killed, "faulted": q.faulted, "out": txt[-3000:], "tree": vlib.tree(w)}
    if case.get("clang_faults"):
        try:
            with open(env["SIM_CLANG_COUNT"], "rb") as f:
                cnt = len(f.read())
        except OSError:
            cnt = 0
        n = sum(1 for k in case["clang_faults"] if int(k) < cnt)
        if n:
            res["fired"]["formatter_failure"] = n
    if not keep:
        shutil.rmtree(sc, ignore_errors=True)
    return res


FAKE_CLANG = r'''#!/usr/bin/python3
# clang-format front end with scripted failures (the real formatter does the formatting)
import json, os, subprocess, sys
f = json.loads(os.environ["SIM_CLANG_FAULTS"])
p = os.environ["SIM_CLANG_COUNT"]
with open(p, "ab") as fh:
    fh.write(b"x")
k = os.path.getsize(p) - 1
data = sys.stdin.buffer.read()
env = dict(os.environ); env.pop("LD_PRELOAD", None)
r = subprocess.run(["/opt/venv/bin/clang-format"] + sys.argv[1:], input=data, stdout=subprocess.PIPE, env=env)
kind = f.get(str(k))
if kind is None:
    sys.stdout.buffer.write(r.stdout); sys.stdout.flush(); sys.exit(r.returncode)
if kind == "exit1":
    sys.stderr.write("simulated formatter failure\n"); sys.exit(1)
if kind == "partial_exit1":
    sys.stdout.buffer.write(r.stdout[: len(r.stdout) // 2]); sys.stdout.flush(); sys.exit(1)
if kind == "sigkill":
    sys.stdout.buffer.write(r.stdout[: len(r.stdout) // 3]); sys.stdout.flush(); os.kill(os.getpid(), 9)
'''
