"""C03: the disk cache is transparent under concurrency and any history.  C04: ... and under crashes and I/O faults."""
import json
import os
import random
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import pyrun
import vlib

SCRIPT = os.path.join(vlib.VERIF, "workloads", "wl_cache.py")
NEXPR, NSTYLE, NTEXT = 14, 4, 7
FMT_EXPECT = {}


def gen_ops(rng, n, keys, pname):
    ops = []
    mix = rng.choice([(5, 3, 3, 3), (1, 6, 1, 1), (6, 1, 1, 1), (1, 1, 5, 5)])
    exprs = [rng.randrange(NEXPR) for _ in range(4)]
    texts = [rng.randrange(NTEXT) for _ in range(3)]
    for _ in range(n):
        k = rng.choices(["simp", "fmt", "write", "read"], mix)[0]
        if k == "simp":
            ops.append(["simp", rng.choice(exprs)])
        elif k == "fmt":
            ops.append(["fmt", rng.choice(texts), rng.choice([0, 0, 1, 2, 3])])
        elif k == "write":
            ops.append(["write", rng.choice(keys), [rng.choice(["dict", "big", "expr", "none", "false", "str"]), rng.randrange(1, 90)]])
        else:
            ops.append(rng.choice([["read", rng.choice(keys)], ["read", rng.choice(keys)], ["absent", str(rng.randrange(99))]]))
    return ops


def gen_case(seed, tier_faults):
    rng = random.Random(seed)
    np_ = rng.choice([1, 2, 2, 3, 4]) if not tier_faults else rng.choice([1, 2, 3])
    shared = rng.random() < 0.5
    procs = []
    for i in range(np_):
        keys = [f"shared{k}" for k in range(2)] if shared else [f"p{i}k{k}" for k in range(2)]
        procs.append({"name": f"u{i}", "ops": gen_ops(rng, rng.choice([3, 5, 8, 12]), keys, i)})
    cfg = {"switch": rng.choice([0.05, 0.3, 0.7, 0.9])}
    clang = None
    if tier_faults:
        kind = rng.choice(["crash", "crash", "errno", "mixed", "clang"])
        if kind == "clang":
            clang = {str(rng.randrange(0, 5)): rng.choice(["exit1", "partial_exit1", "sigkill"])}
            for p in procs:
                p["ops"] += [["fmt", rng.randrange(NTEXT), 0]]
        else:
            cfg["faults"] = {"crash": {"kill": 1, "torn": 2}, "errno": {"errno": 2, "short": 1}, "mixed": {"kill": 1, "torn": 1, "errno": 1, "short": 1}}[kind]
            cfg["fault_rate"] = rng.choice([0.05, 0.15, 0.4])
            cfg["max_faults"] = rng.choice([1, 2, 4])
            cfg["read_faults"] = rng.random() < 0.15
    return {"procs": procs, "cfg": cfg, "seed": seed, "clang": clang, "hashseed": rng.choice([0, 7])}


def boot(base, name, payload, env_extra=None):
    return {"name": name, "kind": "script", "target": SCRIPT, "args": [json.dumps(payload)]}


def parse(path):
    started, res = None, {}
    if os.path.exists(path):
        with open(path, encoding="utf-8") as f:
            for line in f:
                i, r = json.loads(line)
                if r == "start":
                    started = i
                else:
                    res[i] = r
    return started, res


def pykey(v):
    return json.dumps(v)


def expected_value(v):
    """repr() of the value wl_cache.value builds, without importing it."""
    kind, n = v
    if kind == "dict":
        return repr({"n": n, "nested": {"k": list(range(n % 50))}})
    if kind == "big":
        return repr(bytes((n * 7 + i) % 251 for i in range(40000 + n)))
    if kind == "expr":
        return ["x**%d + y" % n, "x + y"][n == 1]
    if kind == "none":
        return "None"
    if kind == "false":
        return "False"
    return repr(f"text{n}")


def run_case(job):
    case, oracle, base = job["case"], job["oracle"], job["base"]
    sc = tempfile.mkdtemp(prefix="c", dir=base)
    msg = None
    try:
        acks = {p["name"]: os.path.join(sc, p["name"] + ".ack") for p in case["procs"]}
        pol = {"deviations": case["deviations"]} if "deviations" in case else {"seed": case["seed"], "cfg": case["cfg"]}
        c = {
            "procs": [boot(sc, p["name"], {"ops": p["ops"], "ack": acks[p["name"]]}) for p in case["procs"]],
            "policy": pol,
            "hashseed": case.get("hashseed", 0),
            "watch_work": False,
        }
        if case.get("clang"):
            c["clang_faults"] = case["clang"]
        r = pyrun.simulate(c, sc, keep=True)
        faulty_run = bool(r["fired"])
        writes = {}  # key -> list of (proc, value)
        for p in case["procs"]:
            for op in p["ops"]:
                if op[0] == "write":
                    writes.setdefault(op[1], []).append((p["name"], op[2]))
        last = {}
        for p in case["procs"]:
            q = r["procs"][p["name"]]
            started, res = parse(acks[p["name"]])
            if not q["killed"] and (q["rc"] != 0 or len(res) != len(p["ops"])):
                msg = f"process {p['name']} ({'with an injected error' if q['faulted'] else 'no fault injected into it'}) died with exit {q['rc']} at op {p['ops'][started] if started is not None else None}:\n{q['out'][-900:]}"
                break
            own = {}
            for i, op in enumerate(p["ops"]):
                if i not in res:
                    if i == started and op[0] == "write":
                        own.setdefault(op[1], [False])
                        own[op[1]].append(op[2])
                    continue
                st, val = res[i]
                if st != "ok":
                    if not q["faulted"] and not case.get("clang"):
                        msg = f"{p['name']} op {op} raised {res[i]} although no fault was injected into that process"
                        break
                    if op[0] == "write":
                        own.setdefault(op[1], [False])
                        own[op[1]].append(op[2])
                    continue
                if op[0] in ("simp", "fmt"):
                    if val != oracle[json.dumps(op)]:
                        msg = f"{p['name']} op {op} returned\n  {str(val)[:300]}\nbut without the cache it returns\n  {str(oracle[json.dumps(op)])[:300]}"
                        break
                elif op[0] == "absent" and val:
                    msg = f"is_cached() is True for an id nobody wrote ({op})"
                    break
                elif op[0] == "write":
                    own[op[1]] = [True, op[2]]  # [acknowledged, candidates...]
                elif op[0] == "read":
                    cands = [v for _n, v in writes.get(op[1], [])]
                    single = {n for n, _v in writes.get(op[1], [])} <= {p["name"]}
                    if single:
                        mine = own.get(op[1])
                        if mine is None:
                            if val[0] != "miss":
                                msg = f"{p['name']} read {op[1]} before any write and got {str(val)[:200]}"
                                break
                            continue
                        if val[0] == "miss" and mine[0]:
                            msg = f"{p['name']} wrote {op[1]} and then found it missing"
                            break
                        cands = mine[1:]
                    if val[0] == "hit" and val[1] not in [expected_value(v) for v in cands]:
                        msg = f"{p['name']} read of {op[1]} returned {val[1][:120]!r}..., which nobody wrote (candidates {[expected_value(v)[:60] for v in cands]})"
                        break
            if msg:
                break
            last[p["name"]] = own
        # After the faults: a fresh process, no faults, same cache directory.
        if not msg:
            ops = []
            for p in case["procs"]:
                for op in p["ops"]:
                    if op[0] in ("simp", "fmt") and op not in ops:
                        ops.append(op)
            ops += [["read", k] for k in writes]
            ack = os.path.join(sc, "verify.ack")
            c2 = {"procs": [boot(sc, "verify", {"ops": ops, "ack": ack})], "policy": {"deviations": []}, "watch_work": False, "cache_from": os.path.join(r["dir"], "cache")}
            v = pyrun.simulate(c2, sc)
            q = v["procs"]["verify"]
            started, res = parse(ack)
            if q["rc"] != 0 or len(res) != len(ops):
                msg = f"after the run, a fault-free process using the same cache fails at {ops[started] if started is not None else None} (exit {q['rc']}):\n{q['out'][-900:]}"
            else:
                for i, op in enumerate(ops):
                    st, val = res[i]
                    if st != "ok":
                        msg = f"after the run, a fault-free process using the same cache gets {res[i]} for {op}"
                        break
                    if op[0] in ("simp", "fmt"):
                        if val != oracle[json.dumps(op)]:
                            msg = f"after the run, the cache is poisoned: {op} returns {str(val)[:200]} instead of {str(oracle[json.dumps(op)])[:200]}"
                            break
                    else:
                        ws = writes[op[1]]
                        owners = {n for n, _ in ws}
                        if len(owners) == 1:
                            mine = last[next(iter(owners))].get(op[1])
                            if mine is None:
                                continue
                            if val[0] == "miss":
                                if mine[0]:
                                    msg = f"an acknowledged cache write of {op[1]} is lost"
                                    break
                                continue
                            cands = mine[1:]
                        else:
                            cands = [x for _n, x in ws]
                        if val[0] == "hit" and val[1] not in [expected_value(x) for x in cands]:
                            msg = f"after the run, {op[1]} holds {val[1][:100]!r}, not any of {[expected_value(x)[:60] for x in cands]}"
                            break
        return {"msg": msg, "trace": r["trace"], "fired": r["fired"], "steps": r["steps"], "switches": r["switches"], "sched": r["sched_hash"], "loghash": r["loghash"]}
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def build_oracle(base):
    ops = [["simp", i] for i in range(NEXPR)] + [["fmt", t, s] for t in range(NTEXT) for s in range(NSTYLE)]
    sc = tempfile.mkdtemp(prefix="o", dir=base)
    ack = os.path.join(sc, "o.json")
    os.makedirs(os.path.join(sc, "c"))
    env = vlib.base_env(HOME=sc, XDG_CACHE_HOME=os.path.join(sc, "c"))
    r = vlib.run([vlib.PY, SCRIPT, json.dumps({"ops": ops, "ack": ack, "isolated": True})], env=env, cwd=sc)
    if r.returncode:
        raise vlib.Broken(r.stdout.decode()[-2000:])
    with open(ack, encoding="utf-8") as f:
        res = json.load(f)
    return {json.dumps(o): v for o, v in zip(ops, res)}


def minimise(job, res):
    case = dict(job["case"])

    def fails_dev(d):
        return run_case(dict(job, case=dict(case, deviations=d)))["msg"] is not None

    case["deviations"] = vlib.ddmin(res["trace"], fails_dev)
    return {"case": case}


def replay(chk, rp):
    pyrun.build_shim()
    return run_case({"case": rp["case"], "oracle": build_oracle(chk.scratch), "base": chk.scratch})["msg"]


def body(chk, faults):
    pyrun.build_shim()
    oracle = build_oracle(chk.scratch)
    n = chk.pick(80, 1200)
    jobs = [{"case": gen_case(vlib.derive(chk.seed, chk.prop, i), faults), "oracle": oracle, "base": chk.scratch} for i in range(n)]
    results = chk.map(run_case, jobs)
    fired = {}
    for r in results:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
    chk.cov.update(
        evaluations=len(results),
        distinct_nontrivial=len({r["sched"] for r in results if (r["fired"] if faults else r["switches"])}),
        rule="A run interleaves 1-4 real interpreters that format, simplify, write and read through one shared cache directory at file-system-call granularity, then re-reads everything from a fresh fault-free process. Non-trivial: "
        + ("at least one fault fired" if faults else "at least one context switch between processes")
        + "; distinct by the hash of the (process, call, fault) sequence.",
        faults_fired=fired,
        scheduler_steps=sum(r["steps"] for r in results),
        context_switches=sum(r["switches"] for r in results),
        samples=[jobs[0]["case"]],
        real_components=["nrpy.helpers.cached_functions", "nrpy.helpers.generic.clang_format", "sympy", "clang-format", "kernel file system"],
        stub_components=["clang-format front end in formatter-failure runs only"],
    )
    rep = 0
    for j, r in zip(jobs, results):
        if r["msg"] and rep < 1:
            rep += 1
            chk.violation(r["msg"], minimise(j, r))
    if not rep:
        idx = list(range(0, n, max(1, n // chk.pick(6, 40))))
        for i, r in zip(idx, chk.map(run_case, [jobs[i] for i in idx], jobs=3)):
            if r["loghash"] != results[i]["loghash"]:
                raise vlib.HarnessError(f"run {i} is not deterministic")
        chk.cov["determinism_reruns_identical"] = len(idx)


if __name__ == "__main__":
    P = sys.argv[1]
    vlib.main(P, lambda c: body(c, P == "C04"), replay)
