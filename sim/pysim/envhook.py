"""The rest of the simulated world of a generator process: directory listing order, random state, host and user names, and an
audit trail of every attempt to change the file system (SIM_WORLD, a JSON object)."""
import json
import os
import random
import sys

_W = json.loads(os.environ["SIM_WORLD"])


def install():
    rng = random.Random(_W.get("listing", 0))
    real_listdir, real_scandir = os.listdir, os.scandir

    def listdir(path="."):
        x = sorted(real_listdir(path), key=lambda s: s if isinstance(s, str) else repr(s))
        if _W.get("listing"):
            rng.shuffle(x)
        return x

    class Scan:
        def __init__(self, path):
            with real_scandir(path) as it:
                self.x = sorted(it, key=lambda e: str(e.name))
            if _W.get("listing"):
                rng.shuffle(self.x)
            self.i = iter(self.x)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.i)

        def close(self):
            self.i = iter(())

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

    os.listdir = listdir
    os.scandir = lambda path=".": Scan(path)
    if _W.get("random") is not None:
        random.seed(_W["random"])
    if _W.get("host"):
        import platform
        import socket

        u = os.uname()
        os.uname = lambda: os.uname_result((u.sysname, _W["host"], u.release, u.version, u.machine))
        platform.node = socket.gethostname = lambda: _W["host"]
        os.getlogin = lambda: _W["host"]
    if _W.get("nosignals"):
        pass
    log = os.open(os.environ["SIM_AUDIT"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o600)
    WR = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND
    PATHS = {"os.mkdir": (0,), "os.rmdir": (0,), "os.remove": (0,), "os.rename": (0, 1), "os.link": (1,), "os.symlink": (1,), "os.truncate": (0,), "os.chmod": (0,), "os.chown": (0,), "os.utime": (0,)}
    DIRFD = {"os.mkdir": 2, "os.rmdir": 1, "os.remove": 1, "os.chmod": 2, "os.utime": 3}

    def note(op, p, dirfd=-1):
        if isinstance(p, int):
            return
        try:
            s = os.fsdecode(p)
        except TypeError:
            return
        if not os.path.isabs(s):
            try:
                d = os.readlink(f"/proc/self/fd/{dirfd}") if isinstance(dirfd, int) and dirfd >= 0 else os.getcwd()
            except OSError:
                d = "?"
            s = os.path.join(d, s)
        os.write(log, (json.dumps([op, os.path.normpath(s)]) + "\n").encode())

    def hook(ev, args):
        if ev == "open":
            if args[2] is not None and isinstance(args[2], int) and args[2] & WR:
                note("write", args[0])
        elif ev in PATHS:
            k = DIRFD.get(ev)
            for i in PATHS[ev]:
                note(ev, args[i], args[k] if k is not None and k < len(args) else -1)

    sys.addaudithook(hook)
