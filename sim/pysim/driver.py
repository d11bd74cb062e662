"""Deterministic scheduler for simulated Python generator processes.

All simulated processes (the generator, its pool workers, independent concurrent users of the same
disk cache) are real interpreters running the real nrpy code, but exactly one of them runs at any
time: each one stops at every watched file-system call (LD_PRELOAD seam, shim.c) and at every
pool/manager operation (simpool.py), and this scheduler decides who proceeds and with which fault.

A run is a pure function of (scenario, deviations).  `deviations` maps a step number to a list
["run", proc] (switch to proc instead of the default choice) or a fault
["errno", n] / ["short", n] / ["torn", n] / ["kill"].  The default choice is: keep running the current process; when it
blocks, the runnable process with the smallest spawn index.
"""
import errno
import os
import random
import select
import shutil
import signal
import socket
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
MUTATING = {"opentrunc", "openw", "openappend", "write", "close", "rename", "unlink", "mkdir", "rmdir", "fsync", "ftruncate", "link"}
ERRNO_OPS = {
    "opentrunc": [errno.ENOSPC, errno.EACCES, errno.EMFILE],
    "openw": [errno.ENOSPC, errno.EACCES, errno.EMFILE],
    "openappend": [errno.ENOSPC, errno.EACCES],
    "write": [errno.ENOSPC, errno.EIO, errno.EDQUOT],
    "rename": [errno.ENOSPC, errno.EIO],
    "mkdir": [errno.ENOSPC],
    "openr": [errno.EIO, errno.EMFILE],
    "read": [errno.EIO],
}


class HarnessError(Exception):
    pass


class Proc:
    def __init__(self, name, index):
        self.name, self.index = name, index
        self.conn = None
        self.popen = None
        self.pid = None
        self.pending = None  # (op, path, n)
        self.done = False
        self.rc = None
        self.killed = False
        self.faulted = False
        self.parent = None


class Sim:
    def __init__(self, scratch, policy, watch, max_steps=200000, wall=280.0, log=None):
        self.scratch = scratch
        self.policy = policy
        self.watch = watch
        self.procs = {}
        self.order = []
        self.step = 0
        self.trace = []
        self.events = 0
        self.max_steps = max_steps
        self.deadline = time.monotonic() + wall
        self.pools = {}
        self.fired = {}
        self.switches = 0
        self.deadlock = False
        self.current = None
        self.fds_dir = tempfile.mkdtemp(prefix="s", dir="/tmp")
        self.sockpath = os.path.join(self.fds_dir, "s")
        self.lsock = socket.socket(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.lsock.bind(self.sockpath)
        self.lsock.listen(64)
        self.log = []

    # ---- process management -------------------------------------------------
    def spawn(self, name, argv, env, cwd, out, umask=-1):
        p = Proc(name, len(self.order))
        self.procs[name] = p
        self.order.append(p)
        e = dict(env)
        e.update(SIM_SOCK=self.sockpath, SIM_PID=name, SIM_WATCH=":".join(self.watch), SIM_ROOT=self.scratch, SIM_NAME=name)
        with open(out, "wb") as fo:
            p.popen = subprocess.Popen(argv, env=e, cwd=cwd, stdout=fo, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, umask=umask)
        p.pid = p.popen.pid
        self._accept(name, p.popen)

    def _accept(self, name, popen=None):
        self.lsock.settimeout(1.0)
        while True:
            try:
                c, _ = self.lsock.accept()
                break
            except socket.timeout:
                if popen is not None and popen.poll() is not None:
                    raise HarnessError(f"{name} exited before connecting rc={popen.returncode}")
                if time.monotonic() > self.deadline:
                    raise HarnessError(f"{name} never connected")
        m = c.recv(4096).decode()
        op, nm, pid = m.split("\t")
        if op != "HELLO" or nm != name:
            raise HarnessError(f"unexpected hello {m!r} while waiting for {name}")
        p = self.procs[name]
        p.conn = c
        p.pid = int(pid)
        c.send(b"G")
        self._wait(p)

    def _wait(self, p):
        """Wait until p has issued its next request or has exited."""
        while True:
            left = self.deadline - time.monotonic()
            if left <= 0:
                raise HarnessError(f"wall clock exhausted waiting for {p.name} (step {self.step}, last {p.pending})")
            r, _, _ = select.select([p.conn], [], [], min(left, 5.0))
            if r:
                break
        try:
            m = p.conn.recv(4096)
        except ConnectionResetError:
            m = b""
        if not m:
            p.conn.close()
            p.done = True
            p.pending = None
            if p.popen is not None:
                try:
                    p.rc = p.popen.wait(timeout=max(1.0, self.deadline - time.monotonic()))
                except subprocess.TimeoutExpired:
                    raise HarnessError(f"{p.name} closed its channel but did not exit")
            return
        op, path, n = m.decode(errors="replace").split("\t")
        p.pending = (op, path, int(n))
        if op == "SPAWNED":
            q = Proc(path, len(self.order))
            q.parent = p
            self.procs[path] = q
            self.order.append(q)
            self._accept(path)
            p.conn.send(b"G")
            self._wait(p)

    # ---- pool model ----------------------------------------------------------
    def _runnable(self, p):
        if p.done or p.pending is None:
            return False
        op, path, n = p.pending
        if op == "POOLGET":
            pool = self.pools.setdefault(path, {"queue": [], "closed": False, "done": {}, "busy": {}})
            return bool(pool["queue"]) or pool["closed"]
        if op == "POOLWAIT":  # n = job id: runnable when every chunk of the job completed
            pool = self.pools[path]
            return not pool["jobs"].get(n)
        if op == "POOLWAITANY":
            pool = self.pools[path]
            return bool(pool["finished"])
        if op == "WAITPROC":
            q = self.procs.get(path)
            return q is None or q.done
        return True

    def _special(self, p):
        """Returns the reply for pool operations, or None for ordinary operations."""
        op, path, n = p.pending
        if op == "POOLNEW":
            self.pools[path] = {"queue": [], "closed": False, "jobs": {}, "finished": [], "busy": {}}
            return "G"
        if op == "POOLPUT":  # n encodes job*1000000+chunk
            pool = self.pools[path]
            pool["queue"].append(n)
            pool["jobs"].setdefault(n // 1000000, set()).add(n)
            return "G"
        if op == "POOLGET":
            pool = self.pools[path]
            if pool["queue"]:
                k = pool["queue"].pop(0)
                pool["busy"][p.name] = k
                return f"C{k}"
            return "X"
        if op == "POOLDONE":
            pool = self.pools[path]
            pool["busy"].pop(p.name, None)
            pool["jobs"][n // 1000000].discard(n)
            pool["finished"].append(n)
            return "G"
        if op == "POOLWAIT":
            return "G"
        if op == "POOLWAITANY":
            return f"C{self.pools[path]['finished'].pop(0)}"
        if op == "POOLCLOSE":
            self.pools[path]["closed"] = True
            return "G"
        if op in ("WAITPROC", "YIELD", "MGR"):
            return "G"
        return None

    # ---- main loop -----------------------------------------------------------
    def run(self):
        try:
            self._loop()
        finally:
            for p in self.order:
                if p.conn is not None and not p.done:
                    try:
                        p.conn.close()
                    except OSError:
                        pass
                if p.pid and not p.done:
                    try:
                        os.kill(p.pid, signal.SIGKILL)
                    except OSError:
                        pass
                if p.popen is not None and p.rc is None:
                    try:
                        p.rc = p.popen.wait(timeout=20)
                    except subprocess.TimeoutExpired:
                        pass
            self.lsock.close()
            shutil.rmtree(self.fds_dir, ignore_errors=True)

    def _loop(self):
        while True:
            runnable = [p for p in self.order if self._runnable(p)]
            if not runnable:
                if any(not p.done for p in self.order):
                    # Everything that is left waits for work that will never complete.
                    self.deadlock = True
                return
            self.step += 1
            if self.step > self.max_steps:
                raise HarnessError("step budget exhausted")
            default = self.current if self.current in runnable else runnable[0]
            dev = self.policy(self, self.step, default, runnable)
            p = default
            fault = None
            if dev is not None:
                if dev[0] == "run":
                    q = self.procs.get(dev[1])
                    if q in runnable and q is not default:
                        p = q
                        self.trace.append([self.step, dev])
                        self.switches += 1
                else:
                    fault = dev
            self.current = p
            op, path, n = p.pending
            if fault is not None:
                rep = self._apply_fault(p, op, n, fault)
                if rep is not None:
                    self.trace.append([self.step, fault])
                    self.fired[fault[0] + (f"_{errno.errorcode.get(fault[1], fault[1])}" if fault[0] == "errno" else "")] = (
                        self.fired.get(fault[0] + (f"_{errno.errorcode.get(fault[1], fault[1])}" if fault[0] == "errno" else ""), 0) + 1
                    )
                    p.faulted = True
                    q = p.parent
                    while q is not None:
                        q.faulted = True
                        q = q.parent
                    self.log.append((self.step, p.name, op, os.path.basename(path), n, fault, path))
                    p.pending = None
                    p.conn.send(rep.encode())
                    if rep[0] in "KT":
                        p.killed = True
                    self._wait(p)
                    continue
            rep = self._special(p) or "G"
            self.log.append((self.step, p.name, op, os.path.basename(path), n, None, path))
            p.pending = None
            try:
                p.conn.send(rep.encode())
            except (BrokenPipeError, ConnectionResetError):
                pass
            self._wait(p)

    def _apply_fault(self, p, op, n, f):
        if f[0] == "kill":
            return "K"
        if f[0] == "errno":
            return f"E{f[1]}" if op in ERRNO_OPS else None
        if f[0] == "short":
            return f"S{max(1, min(f[1], n - 1))}" if op == "write" and n > 1 else None
        if f[0] == "torn":
            return f"T{min(f[1], max(0, n - 1))}" if op == "write" else None
        return None


# ---- policies -----------------------------------------------------------------
class SeededPolicy:
    """Swarm-style random policy.  cfg: switch (probability), burst, faults {kind: weight}, fault_rate, max_faults, fault_procs."""

    def __init__(self, seed, cfg):
        self.rng = random.Random(seed)
        self.cfg = cfg
        self.nf = 0

    def __call__(self, sim, step, default, runnable):
        r = self.rng
        c = self.cfg
        a, b = r.random(), r.random()
        if a < c.get("switch", 0.0) and len(runnable) > 1:
            q = runnable[int(b * len(runnable))]
            if q is not default:
                return ["run", q.name]
        faults = c.get("faults") or {}
        if faults and self.nf < c.get("max_faults", 1):
            op, path, n = default.pending
            at = c.get("fault_at")
            hit = False
            if c.get("fault_wop") is not None:  # the k-th state-changing operation on a project file
                if op in MUTATING and path.startswith(sim.watch[-1] + "/"):
                    self.wseen = getattr(self, "wseen", -1) + 1
                    hit = self.wseen == c["fault_wop"]
            elif at is not None:
                if op in MUTATING or (c.get("read_faults") and op in ("openr", "read")):
                    self.seen = getattr(self, "seen", 0) + 1
                    hit = self.seen in at
            elif a > 1.0 - c.get("fault_rate", 0.0) and (op in MUTATING or c.get("read_faults") and op in ("openr", "read") or op in c.get("extra_ops", ())):
                hit = True
            if hit and (not c.get("fault_procs") or default.name in c["fault_procs"]):
                kinds = list(faults)
                k = kinds[int(b * len(kinds))]
                if k == "errno":
                    if op in ERRNO_OPS:
                        self.nf += 1
                        return ["errno", r.choice(ERRNO_OPS[op])]
                    return None
                if k == "torn" and op != "write":
                    k = "kill"
                if k == "short" and op != "write":
                    return None
                self.nf += 1
                if k == "kill":
                    return ["kill"]
                return [k, r.randrange(0, max(1, n))]
        return None


class ReplayPolicy:
    def __init__(self, deviations):
        self.d = {int(s): v for s, v in deviations}

    def __call__(self, sim, step, default, runnable):
        return self.d.get(step)
