"""Generate, instrument, build and run BHaH programs under the csim runtime."""
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess

import vlib

RT = os.path.join(vlib.VERIF, "sim", "csim", "rt.c")
WRAPS = "malloc calloc realloc free clock_gettime gettimeofday time clock fopen fileno fsync fdatasync rename remove unlink access".split()
CFLAGS = "-std=gnu99 -O1 -g -march=native -w -fopenmp -fsanitize=thread".split()


def generate(wl, dest, env=None):
    """Run a generator (dict kind/target/args) in dest; returns the project directories it made."""
    os.makedirs(dest, exist_ok=True)
    cache = os.path.join(dest, ".cache")
    os.makedirs(cache, exist_ok=True)
    cmd = [vlib.PY] + (["-m", wl["target"]] if wl["kind"] == "module" else [wl["target"]]) + wl.get("args", [])
    r = vlib.run(cmd, cwd=dest, env=vlib.base_env(HOME=dest, XDG_CACHE_HOME=cache, **(env or {})))
    if r.returncode:
        raise vlib.Broken(f"fault-free generation of {wl['target']} {wl.get('args')} failed:\n{r.stdout.decode()[-1500:]}")
    shutil.rmtree(cache, ignore_errors=True)
    p = os.path.join(dest, "project")
    return [os.path.join(p, d) for d in sorted(os.listdir(p))]


def _cc(job):
    src, obj, inc, flags = job
    r = vlib.run(["gcc"] + flags + ["-I" + inc, "-c", src, "-o", obj])
    return (src, r.returncode, r.stdout.decode())


def build(pdir, out, flags=None, libs=("-lm",), pool=None):
    """Compile every C file of a generated project, unmodified, against the simulation runtime."""
    bd = out + ".o.d"
    mk = vlib.run(["make", "-n", "CC=gcc"], cwd=pdir, env=vlib.base_env())
    libs = list(libs) + sorted({w for w in mk.stdout.decode(errors="replace").split() if w.startswith(("-l", "-L"))} - {"-lm", "-lgomp"}, key=lambda w: (not w.startswith("-L"), w != "-lgsl", w))
    os.makedirs(bd, exist_ok=True)
    jobs = []
    for r, _, fs in os.walk(pdir):
        for f in fs:
            if f.endswith(".c"):
                s = os.path.join(r, f)
                jobs.append((s, os.path.join(bd, os.path.relpath(s, pdir).replace("/", "@") + ".o"), pdir, list(flags or CFLAGS)))
    rt = os.path.join(bd, "__rt.o")
    jobs.append((RT, rt, pdir, ["-O2", "-g", "-w"]))
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=vlib.NCPU) as ex:
        res = list(ex.map(_cc, jobs))
    for s, rc, o in res:
        if rc:
            raise vlib.Broken(f"generated code does not compile: {os.path.relpath(s, pdir)}\n{o[-1500:]}")
    r = vlib.run(["gcc", "-no-pie", "-o", out] + [j[1] for j in jobs] + ["-Wl,--wrap=" + w for w in WRAPS] + list(libs) + ["-ldl"])
    if r.returncode:
        raise vlib.HarnessError("link failed: " + r.stdout.decode()[-2500:])
    shutil.rmtree(bd, ignore_errors=True)
    return out


def sym(exe, pcs):
    r = vlib.run(["addr2line", "-f", "-s", "-e", exe] + [hex(max(0, int(p, 16) - 1)) for p in pcs])
    ls = r.stdout.decode().split("\n")
    return [f"{ls[2*i]}@{ls[2*i+1].split(' ')[0]}" for i in range(len(pcs))]


def run(exe, wd, cfg, args=(), timeout=300):
    """One process life.  cfg: dict; faults as list of (op, kind, arg); returns parsed log + stderr + rc."""
    os.makedirs(wd, exist_ok=True)
    cp, lp = wd + ".cfg", wd + ".log"
    with open(cp, "w", encoding="utf-8") as f:
        for k, v in cfg.items():
            if k == "faults":
                for x in v:
                    f.write("fault " + ":".join(str(y) for y in x) + "\n")
            elif k == "jumps":
                for x in v:
                    f.write("jump " + ":".join(str(y) for y in x) + "\n")
            else:
                f.write(f"{k} {v}\n")
    try:
        r = subprocess.run(["setarch", "-R", exe] + list(args) if False else [exe] + list(args), cwd=wd, env={"CSIM_CFG": cp, "CSIM_LOG": lp, "PATH": "/usr/bin:/bin", "LANG": "C"}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, check=False)
        rc, err, out = r.returncode, r.stderr.decode(errors="replace"), r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, err, out = "timeout", (e.stderr or b"").decode(errors="replace"), ""
    # clock readings are marked in stderr where they happened: raw keeps them, err does not
    raw, err = err, MARK.sub("", err)
    res = {"rc": rc, "err": err, "raw": raw, "out": out, "ops": [], "races": [], "fired": [], "end": None, "stats": {}}
    if os.path.exists(lp):
        with open(lp, encoding="utf-8", errors="replace") as f:
            for l in f:
                t = l.split()
                if not t:
                    continue
                if t[0] == "op" and len(t) >= 5:
                    res["ops"].append((int(t[1]), t[2], t[3], int(t[4])))
                elif t[0] == "race" and len(t) >= 4:
                    res["races"].append((t[1], t[2], t[3]))
                elif t[0] == "fired":
                    res["fired"].append(t[1:])
                elif t[0] == "end":
                    res["end"] = t[1]
                    res["stats"] = dict(zip(t[2::2], t[3::2]))
        os.unlink(lp)
    if os.path.exists(cp):
        os.unlink(cp)
    return res


MARK = re.compile("\x01([0-9.-]+)\x02")
NUM = re.compile(rb"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)", re.I)


def same(a, b, tol=0.0):
    """Two output files agree: identical bytes, or identical up to numbers that agree within tol (relative to the largest in the file)."""
    if a == b:
        return True
    if not tol:
        return False
    na, nb = NUM.findall(a), NUM.findall(b)
    if len(na) != len(nb) or NUM.sub(b"#", a) != NUM.sub(b"#", b):
        return False
    fa, fb = [float(x) for x in na], [float(x) for x in nb]
    for x, y in zip(fa, fb):
        if x != x and y != y:
            continue
        if not abs(x - y) <= tol * max(1.0, abs(x), abs(y)):
            return False
    return True
