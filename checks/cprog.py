"""C07-C10: generated BHaH programs under the csim runtime (simulated threads, disk, clock, allocator)."""
import concurrent.futures as cf
import decimal
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import crun
import vlib

WL = os.path.join(vlib.VERIF, "workloads")


def wave(par=None, **k):
    return {"kind": "script", "target": os.path.join(WL, "wl_wave.py"), "args": [json.dumps(dict(k, parallel=False))], "par": par or {}, "tol": 0.0, "clock": True, "ckpt": k.get("checkpoint", True)}


def ex(m, par, tol=0.0, clock=True, ckpt=True, args=(), rerun=True):
    return {"kind": "module", "target": "nrpy.examples." + m, "args": [], "par": par, "tol": tol, "clock": clock, "ckpt": ckpt, "run_args": list(args), "rerun": rerun}


WORK = {
    "wave_sinhsph": wave(coords=["SinhSpherical"], Nxx={"SinhSpherical": [12, 6, 4]}, KO=True, t_final=0.15, diag_every=0.02, checkpoint_every=0.03),
    "wave_cyl_extrap": wave({"outer_bc_type": '"extrapolation"'}, coords=["Cylindrical"], Nxx={"Cylindrical": [10, 4, 10]}, simd=False, rfm_precompute=False, OMP_collapse=2, MoL="RK2 Heun", t_final=3.0, diag_every=0.5, checkpoint_every=0.7),
    "wave_two_grids": wave(coords=["Cartesian", "Spherical"], Nxx={"Cartesian": [8, 8, 8], "Spherical": [10, 4, 4]}, fd_order=4, MoL="SSPRK3", t_final=0.6, diag_every=0.1, checkpoint_every=0.15, rad_fd_order=4),
    "wave_symtp": wave({"outer_bc_type": '"extrapolation"'}, coords=["SinhSymTP"], Nxx={"SinhSymTP": [10, 6, 4]}, MoL="DP5", t_final=0.2, diag_every=0.03, checkpoint_every=0.05, OMP_collapse=3, simd=False),
    "wave_cart_plane": wave(coords=["Cartesian"], Nxx={"Cartesian": [8, 10, 6]}, wave="PlaneWave", MoL="RK3 Heun", t_final=2.0, diag_every=0.5, checkpoint_every=0.4, simd=False),
    "elliptic": ex("nrpyelliptic_conformally_flat", {"nn_max": 9, "diagnostics_output_every": 2, "checkpoint_every": 0.006, "convergence_factor": 0.25}, tol=1e-9, clock=False, rerun=False),
    "collide": ex("two_blackholes_collide", {"t_final": 0.16, "convergence_factor": 0.25, "diagnostics_output_every": 0.05}, ckpt=False),
    "spectroscopy": ex("blackhole_spectroscopy", {"t_final": 0.2, "convergence_factor": 0.2, "diagnostics_output_every": 0.05, "checkpoint_every": 0.05, "TP_npoints_A": 6, "TP_npoints_B": 6}, tol=1e-8),
    "spinning": ex("spinning_blackhole", {"t_final": 2.0, "convergence_factor": 0.25, "diagnostics_output_every": 0.5}, ckpt=False),
    "multicoord": ex("wave_equation_multicoord_wavetoy", {"t_final": 0.2, "convergence_factor": 0.25, "diagnostics_output_every": 0.05, "checkpoint_every": 0.05}),
    "curvi": ex("wave_equation_curvilinear", {"t_final": 3.0, "convergence_factor": 0.25, "diagnostics_output_every": 0.1, "checkpoint_every": 0.1}),
    "hydro": ex("hydro_without_hydro", {"t_final": 0.6, "convergence_factor": 0.25, "diagnostics_output_every": 0.2}, tol=1e-8, ckpt=False),
    "tovola": ex("tovola_neutron_star", {"t_final": 0.6, "convergence_factor": 0.25, "diagnostics_output_every": 0.2}, tol=1e-8, ckpt=False),
    "cartwave": ex("wave_equation_cartesian", {"t_final": 5.0, "convergence_factor": 0.25, "diagnostics_output_every": 0.1}, ckpt=False),
}


def is_diag(path):
    b = os.path.basename(path)
    return not b.startswith("checkpoint") and b.endswith(".txt")


def outputs(d):
    out = {}
    for f in sorted(os.listdir(d)):
        if is_diag(f):
            with open(os.path.join(d, f), "rb") as fh:
                out[f] = fh.read()
    return out


def prep_one(job):
    name, base = job
    w = WORK[name]
    d = os.path.join(base, "wl_" + name)
    p = crun.generate(w, d)[0]
    exe = os.path.join(d, "exe")
    crun.build(p, exe)
    par = [f for f in os.listdir(p) if f.endswith(".par")][0]
    with open(os.path.join(p, par), encoding="utf-8") as f:
        s = f.read()
    for k, v in w["par"].items():
        s, n = re.subn(rf"(?m)^{k} = \S+", f"{k} = {v}", s)
        if n != 1:
            raise vlib.HarnessError(f"{name}: parameter {k} not in the parameter file")
    tmpl = os.path.join(d, "run")
    os.makedirs(tmpl)
    with open(os.path.join(tmpl, par), "w", encoding="utf-8") as f:
        f.write(s)
    shutil.rmtree(os.path.join(d, "project"), ignore_errors=True)
    rd = os.path.join(d, "ref")
    shutil.copytree(tmpl, rd)
    t = time.time()
    r = crun.run(exe, rd, {"threads": 1, "fill": 0})
    if r["rc"] != 0:
        raise vlib.Broken(f"{name}: the fault-free one-thread run fails (exit {r['rc']}): {r['err'][-600:]}{r['out'][-300:]}")
    o = outputs(rd)
    if not o:
        raise vlib.HarnessError(f"{name}: reference run wrote no diagnostics")
    return name, {"exe": exe, "tmpl": tmpl, "out": o, "ops": r["ops"], "clock": int(r["stats"]["clock"]), "access": int(r["stats"]["access"]), "secs": time.time() - t, "err": r["err"]}


def prepare(chk, names):
    with cf.ThreadPoolExecutor(max_workers=4) as ex_:
        return dict(ex_.map(prep_one, [(n, chk.scratch) for n in names]))


def dedupe(b, tol):
    """Append-mode files repeat the lines between the checkpoint and the stop: keep the first of each."""
    seen, out = set(), []
    for l in b.split(b"\n"):
        k = crun.NUM.sub(lambda m: b"%.6e" % float(m.group(0)), l) if tol else l
        if k not in seen:
            seen.add(k)
            out.append(l)
    return b"\n".join(out)


def compare(ref, got, tol, restarted=False):
    for f in sorted(set(ref) | set(got)):
        if f not in got:
            return f"output file {f} is missing"
        if f not in ref:
            return f"unexpected output file {f}"
        a, b = ref[f], got[f]
        if restarted:
            a, b = dedupe(a, tol), dedupe(b, tol)
        if not crun.same(a, b, tol):
            la, lb = a.split(b"\n"), b.split(b"\n")
            for i, (x, y) in enumerate(zip(la + [b"<end>"], lb + [b"<end>"])):
                if not crun.same(x, y, tol):
                    return f"output file {f} differs in line {i + 1}: expected {x[:160]!r}, got {y[:160]!r}"
            return f"output file {f} differs in length"
    return None


def run_lives(job):
    """A run: a sequence of process lives in one directory; each life is a cfg dict; 'mangle' in a life edits the checkpoint first."""
    case, W = job["case"], job["W"]
    w = WORK[case["wl"]]
    sc = tempfile.mkdtemp(prefix="r", dir=job["base"])
    try:
        wd = os.path.join(sc, "w")
        shutil.copytree(W["tmpl"], wd)
        lives = []
        h = []
        for L in case["lives"]:
            cfg = {k: v for k, v in L.items() if k != "mangle"}
            m = L.get("mangle")
            mangled = False
            if m:
                for f in sorted(os.listdir(wd)):
                    if f.startswith("checkpoint") and not f.endswith(".tmp"):
                        fp = os.path.join(wd, f)
                        n = os.path.getsize(fp)
                        if n:
                            os.truncate(fp, int(n * m) if int(n * m) < n else n - 1)
                            mangled = True
            r = crun.run(W["exe"], wd, cfg, args=w.get("run_args", []))
            r["mangled"] = mangled
            lives.append(r)
            h.append((r["stats"].get("hash"), r["stats"].get("ops"), r["rc"], len(r["fired"]), r["stats"].get("access")))
            if r["rc"] == "timeout" or (r["rc"] == 0 and not w.get("rerun", True)):
                break
        return judge(case, w, W, wd, lives) | {"h": h, "fired": [f[0] for r in lives for f in r["fired"]], "switch": sum(int(r["stats"].get("switch", 0)) for r in lives), "access": sum(int(r["stats"].get("access", 0)) for r in lives), "clock": sum(int(r["stats"].get("clock", 0)) for r in lives)}
    finally:
        shutil.rmtree(sc, ignore_errors=True)


ETA = re.compile(r"It: (\d+) t=.*? t/h=(\S+) ETA (\S+)")
STEP = re.compile(r"It: (\d+) t=\s*(\S+) / (\S+) .*?dt=(\S+)")


FULL = re.compile(r"It: (\d+) t=\s*(\S+) / (\S+) .*? t/h=(\S+) ETA (\d+)h(\d+)m(\d+)s")


def rates(r, L):
    """The reported rate is evolved time over elapsed clock time, and the remaining time follows from it (clocks that never go back)."""
    if L.get("clock") in (4, 5) or any(x[1] < 0 for x in L.get("jumps", [])):
        return None
    # the text without the marks, and for every clock reading its place in that text
    raw, clean, where, clk, pos, n = r["raw"], [], [], [], 0, 0
    for m in crun.MARK.finditer(raw):
        clean.append(raw[pos : m.start()])
        n += m.start() - pos
        where.append(n)
        clk.append(m.group(1))
        pos = m.end()
    clean = "".join(clean) + raw[pos:]
    clk = [float(decimal.Decimal(c) - decimal.Decimal(clk[0])) for c in clk]
    reps = [(m.start(), m.groups()) for m in FULL.finditer(clean)]
    if len(reps) < 2 or not clk:
        return None
    t0 = float(reps[0][1][1])
    before = [sum(1 for p in where if p <= a) for a, _ in reps]  # readings made before each report
    for k, (_, x) in enumerate(reps):
        t, tf, rate = float(x[1]), float(x[2]), float(x[3])
        # the reading this report is based on is one of those since the last report, the start one of those up to the first
        hi = before[k] - 1
        lo = before[k - 1] if k else 0
        if hi < lo or not before[0]:
            continue
        emin, emax = max(0.0, clk[lo] - clk[before[0] - 1]), clk[hi] - clk[0]
        if emax > 4e9 or emax <= 0:
            continue
        rmin = max(0.0, t - t0 - 0.001) * 3600 / emax
        rmax = (t - t0 + 0.001) * 3600 / emin if emin > 0 else float("inf")
        if not (rmin * 0.99 - 0.01 <= rate <= rmax * 1.01 + 0.01):
            if not (rate == 0 and emin <= 0):
                return f"iteration {x[0]}: reported t/h={x[3]} although {t - t0:.3f} was evolved in {emin:.6g} to {emax:.6g} s of clock time ({rmin:.6g} to {rmax:.6g} per hour)"
        if rate >= 1 and int(x[0]) > 0:
            rem, got = (tf - t) * 3600 / rate, int(x[4]) * 3600 + int(x[5]) * 60 + int(x[6])
            slack = 0.02 * abs(rem) + 0.06 * 3600 / rate + 2
            if rem < 2**31 and abs(max(rem, 0) - got) > slack:
                return f"iteration {x[0]}: reported remaining time {x[4]}h{x[5]}m{x[6]}s, but at t/h={x[3]} from t={x[1]} to {x[2]} it is {rem:.0f} s"
        # the same from the clock itself, where the rate is too small for the digits shown
        if t - t0 > 0.01 and int(x[0]) > 0 and emin > 0:
            u = 0.0011 + 0.51 * 10 ** -len(x[2].partition(".")[2])  # digits shown
            rlo, rhi = max(0.0, tf - t - u) * emin / (t - t0 + 0.0011), max(0.0, tf - t + u) * emax / (t - t0 - 0.0011)
            got = int(x[4]) * 3600 + int(x[5]) * 60 + int(x[6])
            if rhi < 2.1e9 and not (0.98 * rlo - 2 <= got <= 1.02 * rhi + 2):
                return f"iteration {x[0]}: reported remaining time {x[4]}h{x[5]}m{x[6]}s, but {t - t0:.3f} of {tf - t0:.3f} was evolved in {emin:.6g} to {emax:.6g} s of clock time, so {rlo:.0f} to {rhi:.0f} s remain"
    return None


def judge(case, w, W, wd, lives):
    for i, r in enumerate(lives):
        if r["races"]:
            x = r["races"][0]
            s = crun.sym(W["exe"], x[1:])
            return {"msg": f"{case['wl']}: unordered conflicting accesses ({x[0]}) by two threads: {s[0]} and {s[1]}", "sig": "race " + " ".join(y.split("@")[0] for y in s)}
        if r["end"] == "deadlock":
            return {"msg": f"{case['wl']}: threads deadlock", "sig": None}
        if r["rc"] == "timeout":
            return {"msg": f"{case['wl']}: life {i} does not terminate", "sig": None}
    prop = case["prop"]
    if prop == "C08":
        for i, r in enumerate(lives):
            x = rates(r, case["lives"][i])
            if x:
                return {"msg": f"{case['wl']}: life {i} (resumed: {i > 0}), {x}", "sig": None}
    if prop == "C10":
        for i, r in enumerate(lives):
            for m in ETA.finditer(r["err"]):
                if not re.fullmatch(r"\d+h[0-5]\dm[0-5]\ds", m.group(3)):
                    return {"msg": f"{case['wl']}: life {i}, iteration {m.group(1)}: the progress report shows a malformed remaining time: ETA {m.group(3)} (clock behaviour {case['lives'][i].get('clock')}, jumps {case['lives'][i].get('jumps')})", "sig": None}
                try:
                    v = float(m.group(2))
                    bad = v != v or v in (float("inf"), float("-inf"))
                except ValueError:
                    bad = True
                if bad:
                    return {"msg": f"{case['wl']}: life {i}, iteration {m.group(1)}: the progress report shows t/h={m.group(2)}", "sig": None}
            x = rates(r, case["lives"][i])
            if x:
                return {"msg": f"{case['wl']}: life {i}, {x} (clock behaviour {case['lives'][i].get('clock')}, jumps {case['lives'][i].get('jumps')})", "sig": None}
    last = lives[-1]
    for i, r in enumerate(lives):
        killed = r["rc"] == 137 and r["fired"]
        if killed:
            continue
        if r["mangled"]:
            if isinstance(r["rc"], int) and r["rc"] > 0:
                continue  # detected
            if r["rc"] == 0:
                m = compare(W["out"], outputs(wd), w["tol"], True)
                if m:
                    return {"msg": f"{case['wl']}: a truncated checkpoint was used: {m}", "sig": None}
                continue
            return {"msg": f"{case['wl']}: starting from a truncated checkpoint crashes with signal {r['rc']}", "sig": None}
        if r["fired"] and r["rc"] != 0:
            continue  # the program reported the error or died of it
        if r["rc"] != 0:
            return {"msg": f"{case['wl']}: life {i} fails without a fault in it (exit {r['rc']}): {r['err'][-300:]} {r['out'][-300:]}", "sig": None}
    if last["rc"] == 0 and not last["mangled"]:
        m = compare(W["out"], outputs(wd), w["tol"], len(lives) > 1 or case["lives"][-1].get("restarted"))
        if m:
            return {"msg": f"{case['wl']}: after {[(r['rc'], r['fired']) for r in lives]}: {m}", "sig": None}
    # every iteration reported, in any life, is one the uninterrupted run reports: same number, time, final time and step
    if prop in ("C07", "C08", "C09", "C10"):
        steps = set(STEP.findall(W["err"]))
        for i, r in enumerate(lives):
            for x in STEP.findall(r["err"]):
                if x not in steps and not r["mangled"]:
                    return {"msg": f"{case['wl']}: life {i} reports iteration {x[0]} at t={x[1]} of {x[2]} with dt={x[3]}; the uninterrupted run has no such iteration", "sig": None}
    # a completed checkpoint must not be lost: later lives resume, they do not start over
    if prop in ("C08", "C09"):
        first = next((o[2] for o in W["ops"] if o[1] == "openw" and is_diag(o[2]) and "t00000.00" in o[2]), None)
        done = 0.0
        for i, r in enumerate(lives):
            if i and done > 0 and first and any(o[1] == "openw" and o[2] == first for o in r["ops"]) and not any(x["mangled"] for x in lives[: i + 1]):
                return {"msg": f"{case['wl']}: a checkpoint at t={done} had been completed, yet life {i} starts the evolution over from the beginning", "sig": None}
            for m in re.finditer(r"WRITING CHECKPOINT: [^\n]*time=(\S+)\s+FINISHED WRITING", r["err"]):
                done = max(done, float(m.group(1)))
    return {"msg": None, "sig": None}


# ------------------------------------------------------------------ cases
def life(q, threads=None, quiet=False):
    L = {"threads": threads or q.choice([1, 2, 3, 4, 8]), "seed": q.randrange(1 << 40), "strategy": q.choice([0, 0, 1, 2, 3]), "mean": q.choice([5, 40, 300, 2000]), "fill": q.choice([0, 255, 256, 127])}
    if quiet:
        L.update(threads=q.choice([1, 1, 2]), mean=5000, detect=0)
    return L


def case_c07(q, name, W):
    L = life(q, threads=q.choice([2, 2, 3, 4, 5, 8]))
    if W["access"] > 2e7:
        L["mean"] = max(L["mean"], 300)
    lives = [L]
    if WORK[name]["ckpt"] and W["access"] < 3e7 and q.random() < 0.3:
        lives.append({"threads": 1, "fill": 0})  # continue from the checkpoint this schedule wrote
    return {"wl": name, "lives": lives}


def ck_ops(W):
    return [(k, o[1]) for k, o in enumerate(o for o in W["ops"] if "checkpoint" in o[2])]


def case_c08(q, name, W):
    lives = []
    for i in range(q.choice([1, 1, 2, 3, 4])):
        L = life(q, quiet=True)
        L["clock"] = q.choice([0, 2, 7])
        L["jumps"] = [(0, i * 1e4)]
        if W["clock"] and q.random() < 0.6:
            L["faults"] = [(q.randrange(0, W["clock"]), "clockkill", 0)]
        else:
            L["faults"] = [(q.randrange(0, max(1, len(W["ops"]))), "openkill", 0)]
        lives.append(L)
    lives.append(dict(life(q, quiet=True), jumps=[(0, 1e5)]))
    return {"wl": name, "lives": lives}


def case_c09(q, name, W):
    ck = ck_ops(W)
    lives = []
    for _ in range(q.choice([1, 1, 1, 2, 3])):
        L = life(q, quiet=True)
        o = q.choice(ck)
        kind = q.choice({"openw": ["kill", "eio", "enospc", "emfile", "power"], "write": ["kill", "torn", "torn", "eio", "enospc", "full", "power"], "close": ["kill", "eio", "enospc", "power"], "rename": ["kill", "eio", "power"], "fsync": ["kill", "eio", "enospc", "power"], "openr": ["kill"], "read": ["kill", "eio"]}.get(o[1], ["kill"]))
        fl = [(f"ck{o[0]}", kind, q.randrange(1, 1 << 30))]
        if q.random() < 0.6 and kind in ("eio", "enospc", "full", "emfile"):
            later = [x[0] for x in ck if x[0] > o[0]]
            if later:
                fl.append((f"ck{q.choice(later)}", "kill", 0))
        L["faults"] = fl
        lives.append(L)
    if q.random() < 0.3:
        lives.append(dict(life(q, quiet=True), mangle=q.choice([0.0, 0.001, 0.01, 0.1, 0.3, 0.5, 0.9, 0.99, 0.9999, 1.0])))
    else:
        lives.append(life(q, quiet=True))
    return {"wl": name, "lives": lives}


def case_c10(q, name, W):
    lives = []
    n = q.choice([1, 1, 2]) if WORK[name]["ckpt"] else 1
    for i in range(n):
        L = life(q, quiet=True)
        L["clock"] = q.choice([0, 1, 2, 3, 4, 5, 6, 7, 7, 8])
        L["jumps"] = [(0, float(i and q.choice([0, 60, 1e5])))] + [(q.randrange(0, max(1, W["clock"])), q.choice([-1e9, -3600.0, -1.0, -1e-9, 1e-9, 5.0, 86400.0, 1e9])) for _ in range(q.choice([0, 1, 3]))]
        if i < n - 1:
            L["faults"] = [(q.randrange(0, max(1, W["clock"])), "clockkill", 0)]
        lives.append(L)
    return {"wl": name, "lives": lives}


QUICK = {
    "C07": {"wave_sinhsph": 8, "wave_cyl_extrap": 8, "wave_two_grids": 6, "wave_symtp": 6, "elliptic": 5, "collide": 5, "spectroscopy": 3, "hydro": 3},
    "C08": {"wave_sinhsph": 30, "wave_cyl_extrap": 30, "wave_two_grids": 24, "wave_symtp": 20, "elliptic": 14, "spectroscopy": 6},
    "C09": {"wave_sinhsph": 50, "wave_cyl_extrap": 50, "wave_two_grids": 40, "elliptic": 20, "spectroscopy": 6},
    "C10": {"wave_sinhsph": 40, "wave_cyl_extrap": 40, "collide": 12, "wave_cart_plane": 20, "spectroscopy": 5},
}
THOROUGH = {
    "C07": dict({n: 60 for n in WORK if n.startswith("wave_")}, elliptic=40, collide=40, spectroscopy=16, spinning=20, multicoord=16, curvi=24, cartwave=24, hydro=16, tovola=16),
    "C08": dict({n: 500 for n in WORK if n.startswith("wave_")}, elliptic=200, spectroscopy=80, multicoord=100, curvi=200),
    "C09": dict({n: 900 for n in WORK if n.startswith("wave_")}, elliptic=300, spectroscopy=80, multicoord=120, curvi=300),
    "C10": dict({n: 500 for n in WORK if n.startswith("wave_")}, collide=200, spectroscopy=60, spinning=100, multicoord=100, curvi=200, cartwave=200),
}
MAKE = {"C07": case_c07, "C08": case_c08, "C09": case_c09, "C10": case_c10}
RULES = {
    "C07": "A run is one complete program execution under a seeded thread schedule (2-8 threads, switch decisions at every instrumented memory access, lock, barrier and chunk request), sometimes continued single-threaded from the checkpoint it wrote; non-trivial = at least one switch; distinct by hash of (access number, next thread) over all switches.",
    "C08": "A run is a history of 2-5 process lives: each but the last is stopped at a clock reading (any iteration) or before a file is opened; non-trivial = a stop fired; distinct by the lives' operation counts, fault points and schedule hashes.",
    "C09": "A run is a history of lives with a kill, torn write, write/close/rename/sync error, full disk or power loss at an operation on a checkpoint file, or a truncated checkpoint; non-trivial = a fault fired; distinct by the lives' operation counts, fault points and schedule hashes.",
    "C10": "A run is 1-2 lives under a misbehaving clock (still, slow, fast, backwards, random jumps); all are non-trivial except the steady clock without jumps; distinct by clock behaviour, jumps and schedule.",
}


def body(chk):
    plan = chk.pick(QUICK, THOROUGH)[chk.prop]
    P = prepare(chk, list(plan))
    chk.log("prepared", {k: round(v["secs"], 2) for k, v in P.items()})
    jobs = []
    for name, n in plan.items():
        for i in range(n):
            q = random.Random(vlib.derive(chk.seed, chk.prop, name, i))
            c = MAKE[chk.prop](q, name, P[name])
            c["prop"] = chk.prop
            jobs.append({"case": c, "W": P[name], "base": chk.scratch})
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i]["W"]["access"])
    res = chk.map(run_lives, [jobs[i] for i in order])
    results = [None] * len(jobs)
    for i, r in zip(order, res):
        results[i] = r
    fired = {}
    for r in results:
        for f in r["fired"]:
            fired[f] = fired.get(f, 0) + 1
    nt = {"C07": lambda j, r: r["switch"] > 0, "C10": lambda j, r: any(l.get("clock") or l.get("jumps") for l in j["case"]["lives"])}.get(chk.prop, lambda j, r: bool(r["fired"]) or any("mangle" in l for l in j["case"]["lives"]))
    chk.cov.update(
        evaluations=len(jobs),
        distinct_nontrivial=len({json.dumps([j["case"]["wl"], r["h"], [l.get("faults") for l in j["case"]["lives"]], [l.get("clock") for l in j["case"]["lives"]], [l.get("jumps") for l in j["case"]["lives"]]], default=str) for j, r in zip(jobs, results) if nt(j, r)}),
        faults_fired=fired,
        thread_switches=sum(r["switch"] for r in results),
        instrumented_accesses=sum(r["access"] for r in results),
        clock_readings=sum(r["clock"] for r in results),
        runs_by_workload=plan,
        rule=RULES[chk.prop],
        samples=[jobs[0]["case"]],
        real_components=["all C code nrpy generates for the listed projects, unmodified", "libc formatting, libm, gsl"],
        stub_components=["OpenMP runtime (fibers)", "memory-access instrumentation runtime", "stdio file back end, file-system calls", "clock", "malloc contents"],
    )
    chk.assumptions += ["x86-64, gcc -O1 instrumentation; libc-internal memory accesses are not instrumented", "process-crash model plus, for power loss, loss of unsynced file data with journalled renames"]
    seen = set()
    for j, r in zip(jobs, results):
        if r["msg"] and (r["sig"] or r["msg"][:40]) not in seen:
            seen.add(r["sig"] or r["msg"][:40])
            c = minimise(j)
            r2 = run_lives(dict(j, case=c))
            chk.violation(r2["msg"] or r["msg"], {"case": c}, r2["sig"] or r["sig"])
            if len(seen) >= 3:
                break
    if seen and chk.violations:
        return
    k = max(1, len(jobs) // chk.pick(8, 30))
    idx = [i for i in range(0, len(jobs), k) if jobs[i]["W"]["access"] < 5e7]
    for i, r in zip(idx, chk.map(run_lives, [jobs[i] for i in idx])):
        if r["h"] != results[i]["h"]:
            raise vlib.HarnessError(f"run {i} is not deterministic: {r['h']} {results[i]['h']}")
    chk.cov["determinism_reruns_identical"] = len(idx)


def minimise(j):
    end = time.time() + float(os.environ.get("VERIF_MINIMISE_S", "100"))
    c = json.loads(json.dumps(j["case"]))

    def fails(x):
        return time.time() < end and run_lives(dict(j, case=x))["msg"] is not None

    # drop whole lives, then simplify each
    i = 0
    while i < len(c["lives"]) - 1:
        t = dict(c, lives=c["lives"][:i] + c["lives"][i + 1 :])
        if fails(t):
            c = t
        else:
            i += 1
    for i, L in enumerate(c["lives"]):
        for key, val in (("threads", 1), ("threads", 2), ("fill", 0), ("strategy", 0), ("clock", 0), ("jumps", [])):
            if key in L and L[key] != val:
                t = json.loads(json.dumps(c))
                t["lives"][i][key] = val
                if fails(t):
                    c = t
                    L = c["lives"][i]
        fl = L.get("faults") or []
        if len(fl) > 1:
            for k in range(len(fl)):
                t = json.loads(json.dumps(c))
                t["lives"][i]["faults"] = [fl[k]]
                if fails(t):
                    c = t
                    break
    L = c["lives"][0]
    if L.get("threads", 1) > 1 and j["case"]["prop"] == "C07":
        lo, hi = 0, 2 * j["W"]["access"]
        while hi - lo > max(16, hi // 200) and time.time() < end:  # shortest prefix of the schedule that still fails
            mid = (lo + hi) // 2
            t = json.loads(json.dumps(c))
            t["lives"][0]["hi"] = mid
            if fails(t):
                hi, c = mid, t
            else:
                lo = mid
    return c


def replay(chk, rp):
    case = rp["case"]
    name, W = prep_one((case["wl"], chk.scratch))
    return run_lives({"case": case, "W": W, "base": chk.scratch})["msg"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], body, replay)
