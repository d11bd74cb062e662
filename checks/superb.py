"""C11-C14: generated superB (Charm++) programs under the simulated Charm++ runtime (sim/charm), against the single-domain BHaH program."""
import concurrent.futures as cf
import itertools
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import crun
import vlib

CH = os.path.join(vlib.VERIF, "sim", "charm")
RUNEX = os.path.join(vlib.VERIF, "workloads", "run_example.py")
FLAGS = "-c -fPIC -O1 -march=native -fpermissive -w -std=c++17".split()

ELL = {"fd_order": 2, "radiation_BC_fd_order": 2, "SINHW": 0.3, "grid_physical_size": 100.0}
COL = {"Nxx_dict": {"Spherical": [12, 6, 2]}, "fd_order": 2, "radiation_BC_fd_order": 2}
CART = {"CoordSystem": "Cartesian", "Nxx_dict": {"Cartesian": [8, 8, 8]}, "fd_order": 2, "radiation_BC_fd_order": 2}
SPE = {"Nxx_dict": {"SinhSpherical": [16, 8, 2]}, "fd_order": 2, "radiation_BC_fd_order": 2, "TP_npoints_A": 6, "TP_npoints_B": 6}
_T = [{"t_final": 0.3, "diagnostics_output_every": 0.1}, {"t_final": 0.5, "diagnostics_output_every": 0.01}, {"t_final": 0.55, "diagnostics_output_every": 0.2}]


def wl(sb, sbo, bh, bho, nxx, pars, ng=2, bhpar=None, wild=None):
    return {"sb": "nrpy.examples." + sb, "sbo": sbo, "bh": bh and "nrpy.examples." + bh, "bho": bho, "nxx": nxx, "pars": pars, "ng": ng, "bhpar": bhpar or {}, "wild": wild or []}


def col(over=None, base=None, nxx=(12, 6, 2), bhpar=None, ng=2, pars=None, bhdrop=()):
    o = dict(base or COL, **(over or {}))
    return wl("superB_two_blackholes_collide", o, "two_blackholes_collide", {k: v for k, v in o.items() if k not in bhdrop}, list(nxx), pars or _T, ng, bhpar)


def ell(coord, nxx, wild=None, bhpar=None, **over):
    o = {**ELL, "CoordSystem": coord, "Nxx_dict": {coord: nxx}, **over}
    pars = [{"nn_max": 6, "diagnostics_output_every": 2}, {"nn_max": 5, "diagnostics_output_every": 1}, {"nn_max": 8, "diagnostics_output_every": 3}]
    return wl("superB_nrpyelliptic_conformally_flat", o, "nrpyelliptic_conformally_flat", {k: v for k, v in o.items() if k != "outer_bcs_type"}, nxx, pars, bhpar=bhpar, wild=wild)


WORK = {
    # far beyond the stability limit ("wild"): the fields reach 1e+100 and more, then inf and nan, as in a run that goes bad
    "ell": ell("SinhSpherical", [12, 8, 8], wild=[{"nn_max": 40, "diagnostics_output_every": 9, "CFL_FACTOR": 20.0}, {"nn_max": 46, "diagnostics_output_every": 11, "CFL_FACTOR": 200.0, "t_final": 1e6}]),
    "ell_symtp": ell("SinhSymTP", [12, 8, 8], SINHWAA=0.3, fd_order=4, radiation_BC_fd_order=4),
    "ell_cyl": ell("SinhCylindrical", [12, 8, 12]),
    "ell_ext": ell("SinhSpherical", [12, 8, 8], bhpar={"outer_bc_type": '"extrapolation"'}, outer_bcs_type="extrapolation", MoL_method="RK3 Ralston"),
    "col": col(),
    "col_ext": col({"outer_bcs_type": "extrapolation"}, bhpar={"outer_bc_type": '"extrapolation"'}, bhdrop=("outer_bcs_type",)),
    "col_ssp_ext": col({"outer_bcs_type": "extrapolation", "MoL_method": "SSPRK3"}, bhpar={"outer_bc_type": '"extrapolation"'}, bhdrop=("outer_bcs_type",)),
    "col_rk3_ext": col({"outer_bcs_type": "extrapolation", "MoL_method": "RK3 Ralston"}, bhpar={"outer_bc_type": '"extrapolation"'}, bhdrop=("outer_bcs_type",)),
    "col_ssp": col({"MoL_method": "SSPRK3"}),
    "col_heun": col({"MoL_method": "RK2 Heun"}),
    "col_dp5": col({"MoL_method": "DP5"}),
    "col_cart": col(base=CART, nxx=(8, 8, 8)),
    "spe": wl(
        "superB_blackhole_spectroscopy", SPE, "blackhole_spectroscopy", dict(SPE, enable_CAHD=False, enable_SSL=False), [16, 8, 2],
        [{"t_final": 0.9, "diagnostics_output_every": 0.1, "checkpoint_every": 0.1}, {"t_final": 0.8, "diagnostics_output_every": 0.3, "checkpoint_every": 0.2}, {"t_final": 1.1, "diagnostics_output_every": 0.5, "checkpoint_every": 0.01}],
    ),
}


# ------------------------------------------------------------------ building
def gen(module, over, dest):
    return crun.generate({"kind": "script", "target": RUNEX, "args": [module, json.dumps(over)]}, dest)[0]


def build_rt(base):
    exe = os.path.join(base, "rt")
    r = vlib.run(["g++", "-O1", "-g", "-std=c++17", "-w", "-rdynamic", "-I" + os.path.join(CH, "include"), os.path.join(CH, "rt.cpp"), "-o", exe, "-ldl"])
    if r.returncode:
        raise vlib.HarnessError("simulator does not build: " + r.stdout.decode()[-1500:])
    return exe


def build_sb(name, base):
    w = WORK[name]
    d = os.path.join(base, "sb_" + name)
    p = gen(w["sb"], w["sbo"], d)
    g, o = os.path.join(d, "gen"), os.path.join(d, "o")
    os.makedirs(o)
    ci = sorted(os.path.join(p, f) for f in os.listdir(p) if f.endswith(".ci"))
    r = vlib.run([sys.executable, os.path.join(CH, "xlat.py"), g] + ci)
    if r.returncode:
        raise vlib.HarnessError(f"{name}: interface translation failed: " + r.stdout.decode()[-1500:])
    gsl = vlib.run(["gsl-config", "--cflags"]).stdout.decode().split()
    lib = vlib.run(["gsl-config", "--libs"]).stdout.decode().split()
    jobs = []
    for root, _, fs in os.walk(p):
        for f in fs:
            if f.endswith(".cpp"):
                s = os.path.join(root, f)
                jobs.append((s, os.path.join(o, os.path.relpath(s, p).replace("/", "@") + ".o")))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))

    def cc(j):
        r = vlib.run(["g++"] + FLAGS + ["-I" + p, "-I" + g, "-I" + os.path.join(CH, "include")] + gsl + [j[0], "-o", j[1]])
        return (j[0], r.returncode, r.stdout.decode())

    with cf.ThreadPoolExecutor(max_workers=vlib.NCPU) as ex:
        for s, rc, out in ex.map(cc, jobs):
            if rc:
                raise vlib.HarnessError(f"{name}: {os.path.relpath(s, p)} does not compile against the simulated runtime:\n{out[-1500:]}")
    so = os.path.join(d, "user.so")
    r = vlib.run(["g++", "-shared", "-o", so] + [j[1] for j in jobs] + lib + ["-lm"])
    if r.returncode:
        raise vlib.HarnessError("link failed: " + r.stdout.decode()[-1500:])
    shutil.rmtree(o)
    par = [f for f in os.listdir(p) if f.endswith(".par")][0]
    with open(os.path.join(p, par), encoding="utf-8") as f:
        txt = f.read()
    shutil.rmtree(os.path.join(d, "project"))
    return {"so": so, "par": par, "partxt": txt}


def build_bh(name, base):
    w = WORK[name]
    if not w["bh"]:
        return None
    d = os.path.join(base, "bh_" + name)
    p = gen(w["bh"], w["bho"], d)
    r = vlib.run(["make", "CC=gcc", "-j4"], cwd=p, env=vlib.base_env())
    if r.returncode:
        raise vlib.HarnessError(f"{name}: BHaH program does not build: " + r.stdout.decode()[-1500:])
    par = [f for f in os.listdir(p) if f.endswith(".par")][0]
    with open(os.path.join(p, par), encoding="utf-8") as f:
        txt = f.read()
    exe = os.path.join(d, "exe")
    shutil.copy(os.path.join(p, par[:-4]), exe)
    shutil.rmtree(os.path.join(d, "project"))
    return {"exe": exe, "par": par, "partxt": txt}


def setpar(txt, par, where):
    for k, v in par.items():
        txt, n = re.subn(rf"(?m)^{k} = \S+", f"{k} = {v}", txt)
        if n != 1:
            raise vlib.HarnessError(f"{where}: parameter {k} not in the parameter file")
    return txt


# ------------------------------------------------------------------ running and comparing
OUT = re.compile(r"^(out[0-9]d|Rpsi4|residual)")


def outputs(d, want=OUT):
    out = {}
    for f in sorted(os.listdir(d)):
        if want.match(f):
            with open(os.path.join(d, f), "rb") as fh:
                out[f] = fh.read()
    return out


def run_sb(rt, S, base, decomp, par, plan, timeout=200):
    sc = tempfile.mkdtemp(prefix="s", dir=base)
    try:
        with open(os.path.join(sc, S["par"]), "w", encoding="utf-8") as f:
            f.write(setpar(S["partxt"], dict(par, Nchare0=decomp[0], Nchare1=decomp[1], Nchare2=decomp[2]), "superB"))
        with open(os.path.join(sc, "plan"), "w", encoding="utf-8") as f:
            f.write("\n".join(plan) + "\n")
        rf = os.path.join(sc, "result")
        try:
            p = subprocess.run([rt, S["so"], "plan", "result"], cwd=sc, env={"PATH": "/usr/bin:/bin", "LANG": "C", "OMP_NUM_THREADS": "1"}, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, check=False)
            log = p.stdout.decode(errors="replace")[-400:]
        except subprocess.TimeoutExpired:
            return {"status": "livelock", "detail": "no event completes: the program computes for ever", "hash": "", "count": {}, "applied": [], "steps": 0, "vtime": 0, "out": {}, "log": ""}
        r = {"count": {}, "applied": [], "status": "simulator", "detail": f"no result, exit {p.returncode}: {log}", "hash": "", "steps": 0, "vtime": 0, "log": log}
        if os.path.exists(rf):
            with open(rf, encoding="utf-8", errors="replace") as f:
                for l in f:
                    k, _, v = l.rstrip("\n").partition(" ")
                    if k == "count":
                        a, b = v.split()
                        r["count"][a] = int(b)
                    elif k == "applied":
                        r["applied"].append(v)
                    elif k:
                        r[k] = v
        if r["status"] == "simulator" and p.returncode in (-4, -6, -7, -8, -11):
            # The program overwrote memory so badly that not even the signal handler could report.
            r.update(status="signal", detail=f"killed by signal {-p.returncode}")
        if r["status"] == "simulator":
            raise vlib.HarnessError(f"simulator: {r['detail']}")
        r["steps"], r["vtime"] = int(r["steps"]), int(r["vtime"])
        r["out"] = outputs(sc)
        return r
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def run_bh(B, base, par):
    sc = tempfile.mkdtemp(prefix="b", dir=base)
    try:
        txt = setpar(B["partxt"], {k: v for k, v in par.items() if re.search(rf"(?m)^{k} = ", B["partxt"])}, "BHaH")
        with open(os.path.join(sc, B["par"]), "w", encoding="utf-8") as f:
            f.write(txt)
        r = vlib.run([B["exe"]], cwd=sc, env=vlib.base_env())
        if r.returncode:
            raise vlib.HarnessError(f"the BHaH reference program fails: {r.stdout.decode()[-600:]}")
        return outputs(sc)
    finally:
        shutil.rmtree(sc, ignore_errors=True)


def rows(b):
    """(comment lines, data rows); raises ValueError when a data line does not parse."""
    com, dat = [], []
    for l in b.decode("ascii").split("\n"):
        if l.startswith("#"):
            com.append(l.strip())
        elif l.strip():
            dat.append([float(x) for x in l.split()])
    return com, dat


def ncoord(f):
    return 2 if f.startswith("out2d") else 1


def cmpfile(f, a, b, tol, numbers=True, restarted=False, comments=True):
    try:
        ca, ra = rows(a)
    except (ValueError, UnicodeDecodeError):
        return None if a == b else f"{f}: the reference run's file does not parse: {a[:80]!r}"
    try:
        cb, rb = rows(b)
    except (ValueError, UnicodeDecodeError) as e:
        return f"file {f} holds a line that is not a row of numbers ({e})"
    if comments and ca != cb:
        if not (restarted and set(ca) == set(cb)):
            return f"file {f}: header differs: {ca[:1]} vs {cb[:1]}"
    if restarted:
        ra, rb = uniq(ra), uniq(rb)
    if len(ra) != len(rb):
        return f"file {f} holds {len(rb)} rows instead of {len(ra)}"
    if not ra:
        return None
    w = max(len(r) for r in ra)
    scale = [max((abs(r[i]) for r in ra if len(r) > i and abs(r[i]) < float("inf")), default=0.0) for i in range(w)]
    fmax = max(scale[ncoord(f) :], default=0.0)
    for n, (x, y) in enumerate(zip(ra, rb)):
        if len(x) != len(y):
            return f"file {f}, row {n + 1}: {len(y)} columns instead of {len(x)}"
        for i, (p, q) in enumerate(zip(x, y)):
            if not numbers and i >= ncoord(f):
                continue
            if p == q or (p != p and q != q):
                continue
            if i >= ncoord(f) and -20 < p < -12 and -20 < q < -12:
                continue  # log10 of a quantity at roundoff level
            if not abs(p - q) <= tol * (scale[i] + 1e-3 * fmax) + 1e-30:
                return f"file {f}, row {n + 1}, column {i + 1}: {q!r} instead of {p!r}"
    return None


def uniq(rs):
    """Append-mode files repeat the rows between checkpoint and crash."""
    seen, out = set(), []
    for r in rs:
        k = tuple("%.7e" % v for v in r[:1])
        if k not in seen:
            seen.add(k)
            out.append(r)
    return out


def appended(f):
    return not f.startswith("out")


def compare(ref, got, tol, numbers=True, restarted=False, common=False, comments=True):
    for f in sorted(set(ref) | set(got)):
        if common and (f not in ref or f not in got):
            continue
        if f not in got:
            return f"file {f} is missing"
        if f not in ref:
            return f"unexpected file {f}"
        m = cmpfile(f, ref[f], got[f], tol, numbers, restarted and appended(f), comments)
        if m:
            return m
    return None


def trunc_rows(a, b):
    """Append-mode files: keep the common number of rows (the elliptic programs differ by one step at the end)."""
    ra, rb = ([l for l in x.split(b"\n") if l.strip() and not l.startswith(b"#")] for x in (a, b))
    n = min(len(ra), len(rb))
    return b"\n".join(ra[:n]), b"\n".join(rb[:n])


# ------------------------------------------------------------------ references
def reference(job):
    """1x1x1 FIFO superB run, itself compared with the single-domain BHaH program."""
    name, i, par, wild, P, base, prop = job
    w = WORK[name]
    r = run_sb(P["rt"], P[name]["S"], base, (1, 1, 1), par, [])
    if r["status"] != "exit":
        raise vlib.Broken(f"{name} {par}: the fault-free single-chare run ends with {r['status']}: {r['detail']} {r['log']}")
    if not r["out"]:
        raise vlib.Broken(f"{name} {par}: the fault-free single-chare run writes no output")
    if P[name]["B"] and prop in ("C11", "C13"):
        b = run_bh(P[name]["B"], base, dict(par, **w["bhpar"]))
        comm = sorted(set(b) & set(r["out"]))
        if len([f for f in comm if f.startswith("out")]) < 8:
            raise vlib.Broken(f"{name} {par}: superB and single-domain runs share only the output files {comm[:8]}: superB writes {sorted(r['out'])[:12]}, BHaH {sorted(b)[:12]}")
        for f in comm:
            x, y = b[f], r["out"][f]
            if appended(f):
                x, y = trunc_rows(x, y)
            m = cmpfile(f, x, y, 1e-6 if not wild else 1e-3, numbers=not wild, comments=False)
            if m:
                raise vlib.Broken(f"{name} {par}: superB (one chare, no delays) against the single-domain BHaH program: {m}")
        miss = [f for f in b if f.startswith(("out1d", "out2d")) and f not in r["out"]]
        if miss:
            raise vlib.Broken(f"{name} {par}: the single-domain program writes {miss[0]}, superB does not")
    return name, i, wild, r


def decomps(name):
    w = WORK[name]
    ax = [[k for k in range(1, n + 1) if n % k == 0 and n // k >= w["ng"]] for n in w["nxx"]]
    if w["sbo"].get("outer_bcs_type") == "extrapolation":
        ax[0] = [k for k in ax[0] if w["nxx"][0] // k >= 3]  # documented: more points than NGHOSTS; the extrapolation stencil has 3
    ax = [[k for k in a if k <= 6] for a in ax]
    return [d for d in itertools.product(*ax) if d[0] * d[1] * d[2] <= 36]


def prepare(chk, names, prop):
    P = {"rt": build_rt(chk.scratch)}
    with cf.ThreadPoolExecutor(max_workers=6) as ex_:
        sb = {n: ex_.submit(build_sb, n, chk.scratch) for n in sorted(names, key=lambda n: n == "ell")}
        bh = {n: ex_.submit(build_bh, n, chk.scratch) for n in sorted(names, key=lambda n: n == "ell")} if prop in ("C11", "C13") else {}
        for n in names:
            P[n] = {"S": sb[n].result(), "B": bh[n].result() if n in bh else None}
    chk.log("built", names)
    jobs = [(n, i, p, False, P, chk.scratch, prop) for n in names for i, p in enumerate(WORK[n]["pars"])]
    if prop == "C13":
        jobs += [(n, i, p, True, P, chk.scratch, prop) for n in names for i, p in enumerate(WORK[n]["wild"])]
    for n, i, wild, r in chk.map(reference, jobs):
        P[n][("ref", i, wild)] = r["out"]
    # the names of the messages this program sends, from the program itself
    for n in names:
        r = run_sb(P["rt"], P[n]["S"], chk.scratch, max(decomps(n)[:12], key=lambda d: d[0] * d[1] * d[2]), WORK[n]["pars"][0], ["rand 1 1.0 1"])
        P[n]["names"] = sorted({re.match(r"ev \S*?:(.*)#\d+ \d+$", a).group(1) for a in r["applied"] if re.match(r"ev \S*?:(.*)#\d+ \d+$", a)})
        P[n]["steps"] = max(r["steps"], 100)
    return P


# ------------------------------------------------------------------ cases
def sched(q, names, dec, io=False):
    """One scheduling fault."""
    who = ".".join(str(q.randrange(k)) for k in dec)
    k = q.choice(["rand", "rand", "randname", "src", "dst", "entry", "entry", "redorder", "perturb"])
    nm = q.choice([n for n in names if n.startswith("io-") or "ready" in n or "write" in n or "written" in n or "closed" in n or "diag" in n] or names) if io else q.choice(names)
    if k == "rand":
        return f"rand {q.randrange(1 << 30)} {q.choice([0.02, 0.1, 0.3, 0.7])} {q.choice([2, 6, 30, 200, 2000])}"
    if k == "randname":
        return f"rand {q.randrange(1 << 30)} {q.choice([0.1, 0.5, 0.9])} {q.choice([4, 30, 300])} {nm}"
    if k in ("src", "dst"):
        return f"{k} {who} {q.choice([1, 3, 10, 60, 500])}"
    if k == "entry":
        return f"entry {nm} {q.choice([1, 3, 10, 60, 500])}"
    if k == "redorder":
        return f"redorder {q.randrange(1, 1 << 30)}"
    return f"perturb {q.choice([1, 255, 127, 64])}"


def make(q, prop, name, P):
    w = WORK[name]
    ds = [d for d in decomps(name) if d != (1, 1, 1)]
    dec = q.choice(ds)
    wild = prop == "C13" and bool(w["wild"]) and q.random() < 0.25
    pi = q.randrange(len(w["wild"] if wild else w["pars"]))
    names = P[name]["names"]
    plan = [sched(q, names, dec, prop == "C13" and q.random() < 0.6) for _ in range(q.choice([0, 1, 1, 2, 3]))]
    if prop == "C14":
        dec = q.choice(ds + [(1, 1, 1)])
        kind = q.choice(["mig", "mig", "crash", "crash", "both"])
        if kind in ("mig", "both"):
            for _ in range(q.choice([1, 1, 2, 4, 12])):
                plan.append(f"mig {q.randrange(1, P[name]['steps'])} " + ".".join(str(q.randrange(k)) for k in dec))
        if kind in ("crash", "both"):
            for k in sorted(q.sample(range(1, 6), q.choice([1, 1, 2]))):
                plan.append(f"crash {k} {q.choice([0, 1, 5, 40, 200, 600, 100000])}")
    if not plan:
        plan = [] if q.random() < 0.5 else ["perturb 255"]
    return {"prop": prop, "wl": name, "pi": pi, "wild": wild, "decomp": list(dec), "plan": plan}


def c14ref(P, name, dec, pi, base):
    key = ("dec", tuple(dec), pi)
    if key not in P[name]:
        r = run_sb(P["rt"], P[name]["S"], base, dec, WORK[name]["pars"][pi], [])
        if r["status"] != "exit":
            raise vlib.Broken(f"{name} {dec}: the run without migration or crash ends with {r['status']}: {r['detail']}")
        P[name][key] = r["out"]
    return P[name][key]


def run_case(job):
    c, P, base = job["case"], job["P"], job["base"]
    name = c["wl"]
    w = WORK[name]
    par = (w["wild"] if c["wild"] else w["pars"])[c["pi"]]
    r = run_sb(P["rt"], P[name]["S"], base, c["decomp"], par, c["plan"])
    out = {k: r[k] for k in ("status", "hash", "count", "applied", "steps", "vtime")}
    what = f"{name} {par} on {'x'.join(map(str, c['decomp']))} chares, {c['plan'][:6]}{' ...' if len(c['plan']) > 6 else ''}"
    msg = None
    if r["status"] != "exit":
        msg = f"{what}: the run ends with {r['status']}: {r['detail'][:400]} {r['log'][-200:] if r['status'] in ('userexit', 'abort') else ''}"
    elif c["prop"] == "C14":
        m = compare(c14ref(P, name, c["decomp"], c["pi"], base), r["out"], 1e-11, restarted=any(x.startswith("crash") for x in c["plan"]))
        msg = m and f"{what}: differs from the run without migration or crash: {m}"
    else:
        ref = P[name][("ref", c["pi"], c["wild"])]
        if c["wild"]:
            m = compare(ref, r["out"], 1e-9, numbers=False)
        else:
            m = compare(ref, r["out"], 1e-9, numbers=c["prop"] != "C12")
        msg = m and f"{what}: differs from the single-chare run: {m}"
    out["msg"] = msg
    return out


def minimise(job, seconds=90):
    c = dict(job["case"])
    end = time.time() + seconds

    def fails(plan, dec=None):
        if time.time() > end:
            return False
        try:
            return run_case(dict(job, case=dict(c, plan=list(plan), decomp=dec or c["decomp"])))["msg"] is not None
        except vlib.Broken:
            return False

    if fails([]):
        c["plan"] = []
    else:
        c["plan"] = vlib.ddmin(c["plan"], fails, seconds=seconds / 2)
        r = run_case(dict(job, case=c))
        if r["applied"] and any(p.startswith("rand") for p in c["plan"]):
            p2 = [p for p in c["plan"] if not p.startswith("rand")] + r["applied"]
            if fails(p2):
                c["plan"] = vlib.ddmin(p2, fails, seconds=max(1, end - time.time()))
    if not any(x.startswith(("src", "dst", "mig", "ev")) for x in c["plan"]):
        for d in sorted(decomps(c["wl"]), key=lambda d: d[0] * d[1] * d[2]):
            if d[0] * d[1] * d[2] >= c["decomp"][0] * c["decomp"][1] * c["decomp"][2]:
                break
            if fails(c["plan"], list(d)):
                c["decomp"] = list(d)
                break
    return c


QUICK = {
    "C11": {"ell": 160, "ell_symtp": 80, "ell_cyl": 80, "ell_ext": 60, "col": 120, "col_ssp_ext": 60},
    "C12": {"ell": 240, "col": 200},
    "C13": {"ell": 240, "spe": 110},
    "C14": {"spe": 220, "ell": 60},
}
THOROUGH = {
    "C11": {"ell": 4000, "ell_symtp": 2000, "ell_cyl": 2000, "ell_ext": 1500, "col": 2500, "col_ext": 600, "col_ssp_ext": 1000, "col_rk3_ext": 600, "col_ssp": 600, "col_heun": 600, "col_dp5": 600, "col_cart": 1500, "spe": 800},
    "C12": {"ell": 5000, "col": 3000, "col_cart": 1500, "col_ssp": 800, "spe": 1500},
    "C13": {"ell": 5000, "spe": 3000, "col": 2500, "col_cart": 1500},
    "C14": {"spe": 4000, "ell": 2000, "col": 2000},
}
RULES = {
    "C11": "A run is one complete generated superB program on a decomposition into 2-36 chares under a delivery order decided by the plan (seeded per-message delays, slow senders and receivers, slow entry methods, reduction order, contents of fresh memory), its files compared with the single-chare run, itself compared with the single-domain BHaH program; non-trivial = at least one message delayed or more than one chare; distinct by (workload, parameters, decomposition, hash of the sequence of delivered events).",
}
for _p in ("C12", "C13", "C14"):
    RULES[_p] = RULES["C11"]
RULES["C14"] = "A run is one complete generated superB program in which chares are packed, destroyed and unpacked at chosen events (migration) and/or the program dies some events after its k-th checkpoint and restarts from it, under a delivery order decided by the plan; its files are compared with the same decomposition run without either; non-trivial = at least one migration or restart happened; distinct by (workload, parameters, decomposition, hash of the delivered events)."


def body(chk):
    prop = chk.prop
    plan = chk.pick(QUICK, THOROUGH)[prop]
    P = prepare(chk, list(plan), prop)
    chk.log("references done; message names:", {n: len(P[n]["names"]) for n in plan})
    jobs = []
    for name, n in plan.items():
        for i in range(n):
            q = random.Random(vlib.derive(chk.seed, prop, name, i))
            jobs.append({"case": make(q, prop, name, P), "base": chk.scratch})
    if prop == "C14":
        for name in plan:
            need = sorted({(tuple(j["case"]["decomp"]), j["case"]["pi"]) for j in jobs if j["case"]["wl"] == name})
            for (d, pi), o in zip(need, chk.map(_ref14, [(P, name, d, pi, chk.scratch) for d, pi in need])):
                if isinstance(o, str):
                    raise vlib.Broken(o)
                P[name][("dec", d, pi)] = o
    slim = {"rt": P["rt"], **{n: {k: v for k, v in P[n].items() if k != "B"} for n in plan}}
    global _P
    _P = slim
    results = chk.map(_run_g, jobs)
    cnt = {}
    for r in results:
        for k, v in r["count"].items():
            cnt[k] = cnt.get(k, 0) + v
    nontriv = (lambda j, r: r["count"].get("migrate", 0) + r["count"].get("migration", 0) + r["count"].get("crash_and_restart_from_checkpoint", 0) > 0) if prop == "C14" else (lambda j, r: True)
    chk.cov.update(
        evaluations=len(jobs),
        distinct_nontrivial=len({(j["case"]["wl"], j["case"]["pi"], j["case"]["wild"], tuple(j["case"]["decomp"]), r["hash"]) for j, r in zip(jobs, results) if nontriv(j, r)}),
        faults_fired={k: v for k, v in cnt.items() if k not in ("events",) and not k.startswith("io_")},
        delivered_events=cnt.get("events", 0),
        io_operations={k: v for k, v in cnt.items() if k.startswith("io_")},
        simulated_time_units=sum(r["vtime"] for r in results),
        decompositions=len({(j["case"]["wl"], tuple(j["case"]["decomp"])) for j in jobs}),
        runs_by_workload=plan,
        rule=RULES[prop],
        samples=[jobs[0]["case"], jobs[-1]["case"]],
        real_components=["all C++ code nrpy generates for the listed superB projects, unmodified, including the SDAG control flow of its .ci files (translated)", "the single-domain BHaH programs used as reference"],
        stub_components=["Charm++ runtime: message queue, chare arrays, sections, reductions, CkIO, checkpoint/restart, PUP, migration (sim/charm)"],
    )
    chk.assumptions += ["Messages may be delayed arbitrarily and delivered in any order, none is lost or duplicated (the guarantee Charm++ gives)", "a chare may be migrated between any two entry-method executions"]
    seen = set()
    for j, r in zip(jobs, results):
        if r["msg"]:
            key = r["status"]
            if key in seen:
                continue
            seen.add(key)
            jj = dict(j, P=slim)
            c = minimise(jj, float(os.environ.get("VERIF_MINIMISE_S", "90")))
            r2 = run_case(dict(jj, case=c))
            chk.violation(r2["msg"] or r["msg"], {"case": c})
            if len(seen) >= 2:
                break
    if chk.violations:
        return
    idx = list(range(0, len(jobs), max(1, len(jobs) // chk.pick(16, 60))))
    for i, r in zip(idx, chk.map(_run_g, [jobs[i] for i in idx])):
        if r["hash"] != results[i]["hash"] or r["status"] != results[i]["status"]:
            raise vlib.HarnessError(f"run {i} is not deterministic: {r['hash']} {results[i]['hash']}")
    chk.cov["determinism_reruns_identical"] = len(idx)


_P = None


def _run_g(j):
    return run_case(dict(j, P=_P))


def _ref14(a):
    P, name, d, pi, base = a
    try:
        return c14ref(P, name, d, pi, base)
    except vlib.Broken as e:
        return str(e)


def replay(chk, rp):
    c = rp["case"]
    P = prepare(chk, [c["wl"]], c["prop"])
    return run_case({"case": c, "P": P, "base": chk.scratch})["msg"]


if __name__ == "__main__":
    vlib.main(sys.argv[1], body, replay)
