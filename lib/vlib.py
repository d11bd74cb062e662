"""Shared plumbing of all checks: seeds, worker fan-out, evidence, known findings, replay files, minimisation."""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD = os.path.join(VERIF, "build")
NCPU = int(os.environ.get("VERIF_JOBS", str(os.cpu_count() or 8)))


class HarnessError(Exception):
    """The check itself could not do its work: never a VIOLATION, never exit 0."""


class Broken(Exception):
    """The code under test misbehaves already in a fault-free reference run: reported as a violation."""


def derive(seed, *parts):
    return int.from_bytes(hashlib.sha256(repr((seed,) + parts).encode()).digest()[:8], "big")


def base_env(**kw):
    e = {
        "PATH": "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "HOME": kw.get("HOME", "/nonexistent"),
        "LANG": "C.UTF-8",
        "PYTHONPATH": REPO,
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "OMP_NUM_THREADS": "1",
        "TMPDIR": "/tmp",
    }
    e.update(kw)
    return e


def tree(d):
    """{relative path: content bytes hash} of every regular file below d."""
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, d)] = hashlib.sha256(fh.read()).hexdigest()
    return out


class Check:
    """One property check: parses the tier, owns a scratch directory, collects results, writes evidence, sets the exit code."""

    def __init__(self, prop, level="exploration", technique=""):
        self.prop = prop
        self.level = level
        self.argv = sys.argv[1:]
        self.tier = os.environ.get("VERIF_TIER") or "quick"
        if "--thorough" in self.argv:
            self.tier = "thorough"
        if "--quick" in self.argv:
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.replay = None
        if "--replay" in self.argv:
            self.replay = self.argv[self.argv.index("--replay") + 1]
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f"v{prop}.", dir="/tmp")
        self.cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": []}
        self.assumptions = []
        self.violations = []
        self.known_hit = []
        self.known = []
        kf = os.path.join(VERIF, "known_findings.json")
        if os.path.exists(kf):
            with open(kf, encoding="utf-8") as f:
                self.known = [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status") == "known"]

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def log(self, *a):
        print(f"[{self.prop} {time.time() - self.t0:6.1f}s]", *a, flush=True)

    def map(self, fn, items, jobs=None):
        """Ordered parallel map; the results do not depend on the number of jobs."""
        items = list(items)
        with cf.ProcessPoolExecutor(max_workers=jobs or NCPU) as ex:
            return list(ex.map(fn, items))

    def is_known(self, signature):
        for k in self.known:
            if k["signature"] == signature:
                return k
        return None

    def violation(self, message, replay_obj, signature=None):
        """Report one violation (already minimised).  signature identifies a listed finding."""
        k = self.is_known(signature) if signature else None
        if k:
            if k["signature"] not in [x["signature"] for x in self.known_hit]:
                self.known_hit.append(k)
            return
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{self.prop}-{len(self.violations)}.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump({"property": self.prop, "message": message, "signature": signature, "case": replay_obj}, f, indent=1)
        self.violations.append((message, path))
        print(f"VIOLATION property={self.prop} replay={path}", flush=True)
        print("  " + message.replace("\n", "\n  ")[:4000], flush=True)

    def finish(self):
        for k in self.known_hit:
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": self.level,
            "coverage": self.cov,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        wall_h = max(ev["wall_s"], 0.01) / 3600.0
        self.cov.setdefault("simulated_runs_per_hour", int(self.cov["evaluations"] / wall_h))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        self.log(f"evaluations={self.cov['evaluations']} distinct_nontrivial={self.cov['distinct_nontrivial']} violations={len(self.violations)}")
        return 1 if self.violations else 0


def main(prop, body, replay_body=None, **kw):
    """Run a check body(check); harness failures exit 2, violations 1, success 0."""
    chk = Check(prop, **kw)
    try:
        if chk.replay:
            with open(chk.replay, encoding="utf-8") as f:
                rp = json.load(f)
            if rp["case"].get("reference"):
                body(chk)
                msg = None
            else:
                msg = replay_body(chk, rp["case"])
            shutil.rmtree(chk.scratch, ignore_errors=True)
            if msg:
                print(f"VIOLATION property={prop} replay={chk.replay}")
                print("  " + msg.replace("\n", "\n  ")[:4000])
                sys.exit(1)
            print("replay: property holds")
            sys.exit(0)
        try:
            body(chk)
        except Broken as e:
            chk.violation(str(e), {"reference": True})
        rc = chk.finish()
    except SystemExit:
        raise
    except Broken as e:
        shutil.rmtree(chk.scratch, ignore_errors=True)
        print(f"VIOLATION property={prop} replay={chk.replay}")
        print("  " + str(e).replace("\n", "\n  ")[:4000])
        sys.exit(1)
    except BaseException:  # pylint: disable=broad-except
        traceback.print_exc()
        print(f"HARNESS-ERROR property={prop}", flush=True)
        shutil.rmtree(chk.scratch, ignore_errors=True)
        sys.exit(3)
    sys.exit(rc)


def ddmin(items, fails, seconds=None):
    """Delta debugging: a sublist of items for which fails(sublist) still holds (1-minimal up to budget)."""
    end = time.time() + (seconds or float(os.environ.get("VERIF_MINIMISE_S", "100")))
    items = list(items)
    if fails([]):
        return []
    n = 2
    budget = 80
    while len(items) >= 2 and budget > 0 and time.time() < end:
        size = max(1, len(items) // n)
        subsets = [items[i : i + size] for i in range(0, len(items), size)]
        reduced = False
        for i in range(len(subsets)):
            rest = [x for j, s in enumerate(subsets) if j != i for x in s]
            budget -= 1
            if fails(rest):
                items, n, reduced = rest, max(n - 1, 2), True
                break
            if budget <= 0 or time.time() > end:
                break
        if not reduced:
            if n >= len(items):
                break
            n = min(len(items), 2 * n)
    return items


def run(cmd, timeout=600, **kw):
    return subprocess.run(cmd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, **kw)
