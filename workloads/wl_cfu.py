"""A history of conditional file updates; every step's outcome is acknowledged to an unwatched log."""
import json
import os
import sys

from nrpy.helpers.conditional_file_updater import ConditionalFileUpdater


class Boom(Exception):
    pass


cfg = json.loads(sys.argv[1])
fd = os.open(cfg["ack"], os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o644)


def stat(p):
    try:
        s = os.stat(p)
    except FileNotFoundError:
        return None
    with open(p, "rb") as f:
        return [f.read().decode("utf-8", "replace"), s.st_mtime_ns]


for i, (fn, content, fmt, boom) in enumerate(cfg["steps"]):
    if os.path.exists(fn):
        os.utime(fn, ns=(1000 * (i + 1), 1000 * (i + 1)))  # any write shows as a new time stamp
    before = stat(fn)
    os.write(fd, (json.dumps([i, "start", before]) + "\n").encode())
    try:
        with ConditionalFileUpdater(fn, encoding="utf-8", do_format=fmt) as f:
            for k, part in enumerate(content):
                if boom is not None and k == boom:
                    raise Boom("generation failed part-way")
                f.write(part)
            if boom is not None and boom >= len(content):
                raise Boom("generation failed at the end")
        out = "ok"
    except Boom:
        out = "boom"
    except OSError as e:
        out = f"oserror {e.errno}"
    except RuntimeError as e:
        out = "formatter"
    os.write(fd, (json.dumps([i, out, before, stat(fn)]) + "\n").encode())
