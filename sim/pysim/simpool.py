"""Simulated process pool, manager and executor: the same contract as multiprocess.Pool / Manager under
the fork start method, with every hand-over of work a scheduling point of the driver.

Workers are forked when the pool is created (they inherit the parent's state at that instant and keep
their own state from task to task, as real pool workers do); arguments and results travel pickled.
"""
import ctypes
import itertools
import os
import sys
import traceback

_lib = ctypes.CDLL(None)
_lib.sim_call.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_long, ctypes.c_char_p, ctypes.c_int]
ROOT = os.environ["SIM_ROOT"]
_ids = itertools.count()
try:
    import dill as _pickle  # what multiprocess uses
except ImportError:  # pragma: no cover
    import pickle as _pickle
_PRIV = os.path.join(ROOT, "_priv")  # never watched
_ME = ["main"]


def call(op, path, n=0):
    buf = ctypes.create_string_buffer(64)
    _lib.sim_call(op.encode(), str(path).encode(), n, buf, 64)
    return buf.value.decode()


def _put(name, obj):
    with open(os.path.join(_PRIV, name), "wb") as f:
        _pickle.dump(obj, f)


def _get(name):
    with open(os.path.join(_PRIV, name), "rb") as f:
        return _pickle.load(f)


class DictProxy:
    """Manager().dict(): one copy for all processes, an append-only log of atomic operations."""

    def __init__(self, name, init=()):
        self._name = name
        if not os.path.exists(self._path()):
            open(self._path(), "wb").close()
            for k, v in dict(init).items():
                self[k] = v

    def _path(self):
        return os.path.join(_PRIV, self._name)

    def _state(self):
        d = {}
        with open(self._path(), "rb") as f:
            while True:
                try:
                    k, v = _pickle.load(f)
                except EOFError:
                    return d
                if v is None:
                    d.pop(k, None)
                else:
                    d[k] = v[0]

    def _append(self, rec):
        b = _pickle.dumps(rec)
        with open(self._path(), "ab") as f:
            f.write(b)

    def __setitem__(self, k, v):
        call("MGR", self._name)
        self._append((k, (v,)))

    def __delitem__(self, k):
        call("MGR", self._name)
        self._append((k, None))

    def __getitem__(self, k):
        return self._state()[k]

    def __contains__(self, k):
        return k in self._state()

    def __len__(self):
        return len(self._state())

    def __iter__(self):
        return iter(list(self._state()))

    def keys(self):
        return list(self._state().keys())

    def values(self):
        return list(self._state().values())

    def items(self):
        return list(self._state().items())

    def get(self, k, d=None):
        return self._state().get(k, d)

    def copy(self):
        return self._state()

    def update(self, *a, **k):
        for kk, v in dict(*a, **k).items():
            self[kk] = v

    def setdefault(self, k, d=None):
        s = self._state()
        if k not in s:
            self[k] = d
            return d
        return s[k]

    def pop(self, k, *d):
        s = self._state()
        if k in s:
            del self[k]
            return s[k]
        if d:
            return d[0]
        raise KeyError(k)


class ListProxy:
    def __init__(self, name, init=()):
        self._d = DictProxy(name)
        for x in init:
            self.append(x)

    def append(self, x):
        self._d[len(self._d)] = x

    def extend(self, xs):
        for x in xs:
            self.append(x)

    def __iter__(self):
        return iter(self._d.values())

    def __len__(self):
        return len(self._d)

    def __getitem__(self, i):
        return self._d.values()[i]


class _Lock:
    """In lockstep a critical section guarded by a manager lock is modelled as a plain yield point."""

    def __enter__(self):
        call("YIELD", "lock")
        return self

    def __exit__(self, *a):
        return False

    acquire = __enter__

    def release(self):
        pass


class Manager:
    def dict(self, *a, **k):
        return DictProxy(f"mgr{next(_ids)}", dict(*a, **k))

    def list(self, *a):
        return ListProxy(f"mgrl{next(_ids)}", *a)

    def Lock(self):
        return _Lock()

    RLock = Lock

    def shutdown(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class AsyncResult:
    def __init__(self, pool, job, nchunks, post):
        self.pool, self.job, self.nchunks, self.post = pool, job, nchunks, post

    def wait(self, timeout=None):
        call("POOLWAIT", self.pool.id, self.job)

    def ready(self):
        return all(os.path.exists(os.path.join(_PRIV, f"{self.pool.id}.r{self.job}.{i}")) for i in range(self.nchunks))

    def successful(self):
        return all(_get(f"{self.pool.id}.r{self.job}.{i}")[0] for i in range(self.nchunks))

    def get(self, timeout=None):
        self.wait()
        out, err = [], None
        res = [_get(f"{self.pool.id}.r{self.job}.{i}") for i in range(self.nchunks)]
        for ok, val in res:
            if ok:
                out.extend(val)
            elif err is None:
                err = val
        if err is not None:
            raise err
        return self.post(out)

    result = get

    def exception(self, timeout=None):
        try:
            self.get()
        except Exception as e:  # pylint: disable=broad-except
            return e
        return None

    def done(self):
        return self.ready()


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, max_workers=None, **_kw):
        self.id = f"pool{next(_ids)}"
        self.n = processes or max_workers or int(os.environ.get("SIM_NPROC", "4"))
        self.initializer, self.initargs = initializer, initargs
        self.jobs = itertools.count()
        self.closed = False
        self.workers = []
        call("POOLNEW", self.id)
        for i in range(self.n):
            self._fork(f"{_ME[0]}.{self.id}.w{i}")

    def _fork(self, name):
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            _ME[0] = name
            rc = 1
            try:
                _lib.sim_adopt(name.encode())
                if self.initializer:
                    self.initializer(*self.initargs)
                self._worker()
                rc = 0
            except BaseException:  # pylint: disable=broad-except
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(rc)
        self.workers.append(pid)
        call("SPAWNED", name)

    def _worker(self):
        while True:
            r = call("POOLGET", self.id)
            if r[0] != "C":
                return
            code = int(r[1:])
            job, ch = divmod(code, 1000000)
            func, items, star = _get(f"{self.id}.t{job}.{ch}")
            try:
                if star == 2:
                    val = [func(*a, **k) for a, k in items]
                elif star:
                    val = [func(*a) for a in items]
                else:
                    val = [func(a) for a in items]
                try:
                    _pickle.dumps(val)
                    res = (True, val)
                except Exception as e:  # unpicklable result: the real pool reports MaybeEncodingError
                    res = (False, RuntimeError(f"MaybeEncodingError: {e}"))
            except Exception as e:  # pylint: disable=broad-except
                e.__traceback__ = None
                e.__cause__ = None
                try:
                    _pickle.loads(_pickle.dumps(e))
                except Exception:
                    e = RuntimeError(f"{type(e).__name__}: {e}")
                res = (False, e)
            _put(f"{self.id}.r{job}.{ch}", res)
            call("POOLDONE", self.id, code)

    def _submit(self, func, items, star, chunksize, post):
        if self.closed:
            raise ValueError("Pool not running")
        items = list(items)
        job = next(self.jobs)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        chunksize = max(1, chunksize)
        chunks = [items[i : i + chunksize] for i in range(0, len(items), chunksize)]
        for i, c in enumerate(chunks):
            _put(f"{self.id}.t{job}.{i}", (func, c, star))
        for i in range(len(chunks)):
            call("POOLPUT", self.id, job * 1000000 + i)
        if not chunks:
            call("YIELD", "empty job")
            r = AsyncResult(self, job, 0, post)
            r.wait = lambda timeout=None: None
            return r
        return AsyncResult(self, job, len(chunks), post)

    def map_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, it, 0, chunksize, lambda o: o)

    def map(self, func, it, chunksize=None):
        return self.map_async(func, it, chunksize).get()

    def starmap(self, func, it, chunksize=None):
        return self._submit(func, it, 1, chunksize, lambda o: o).get()

    def starmap_async(self, func, it, chunksize=None, callback=None, error_callback=None):
        return self._submit(func, it, 1, chunksize, lambda o: o)

    def imap(self, func, it, chunksize=1):
        return iter(self._submit(func, it, 0, chunksize, lambda o: o).get())

    def imap_unordered(self, func, it, chunksize=1):
        ar = self._submit(func, it, 0, chunksize, lambda o: o)

        def gen():
            for _ in range(ar.nchunks):
                code = int(call("POOLWAITANY", self.id)[1:])
                ok, val = _get(f"{self.id}.r{ar.job}.{code % 1000000}")
                if not ok:
                    raise val
                yield from val

        return gen()

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        return self._submit(func, [(tuple(args), dict(kwds or {}))], 2, 1, lambda o: o[0])

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def submit(self, func, *args, **kw):  # concurrent.futures flavour
        return self.apply_async(func, args, kw)

    def close(self):
        if not self.closed:
            self.closed = True
            call("POOLCLOSE", self.id)

    terminate = close

    def shutdown(self, wait=True, **_k):
        self.close()

    def join(self):
        for pid in self.workers:
            pass
        for i in range(self.n):
            call("WAITPROC", f"{_ME[0]}.{self.id}.w{i}")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        self.join()
        return False


def as_completed(futs, timeout=None):
    return iter(list(futs))


class _Names:
    """Temporary-file names: unique per simulated process and reproducible."""

    def __init__(self):
        self.n = itertools.count()

    def __iter__(self):
        return self

    def __next__(self):
        return f"sim{_ME[0].replace('.', '-')}_{next(self.n)}"


def install():
    import random
    import tempfile

    os.makedirs(_PRIV, exist_ok=True)
    _ME[0] = os.environ.get("SIM_NAME", "main")
    _names = _Names()
    tempfile._get_candidate_names = lambda: _names
    random.seed(20240229)
    import concurrent.futures as cf
    import multiprocessing

    import multiprocess

    for m in (multiprocess, multiprocessing):
        m.Pool = Pool
        m.Manager = Manager
        m.cpu_count = lambda: int(os.environ.get("SIM_NPROC", "4"))
    os.cpu_count = lambda: int(os.environ.get("SIM_NPROC", "4"))

    class _Ctx:
        Pool = staticmethod(Pool)
        Manager = staticmethod(Manager)

        def __getattr__(self, k):
            return getattr(multiprocess, k)

    for m in (multiprocess, multiprocessing):
        m.get_context = lambda *a, **k: _Ctx()
    cf.ProcessPoolExecutor = Pool
    cf.as_completed = as_completed
