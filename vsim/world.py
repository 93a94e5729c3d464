"""The simulated world: every source of nondeterminism pysim can touch is
owned here and decided by the plan of the run (never by the machine).

`install()` must be called before pysim is imported: it replaces, for the
whole interpreter, the clocks of module `time`, `os.urandom`/`uuid.uuid4`,
argument-less seeding of the random generators, worker pools, `open()` below
the scratch directory (simulated disk) and matplotlib (recording stub).
"""
import builtins, errno, io, os, sys, random as _random, time as _time
import hashlib, struct, types

REPO = os.environ.get("VSIM_REPO", "/repo")


class SimCrash(BaseException):
    """The simulated process dies here: nothing after it is executed."""


# ---------------------------------------------------------------- clock ----
class Clock:
    EPOCH = 1_700_000_000.0

    def __init__(self):
        self.reset()

    def reset(self, wall0=EPOCH, mono0=5000.0):
        self.mono0 = mono0
        self.mono = mono0
        self.wall = wall0
        self.cpu = 10.0
        self.slept = 0.0

    def advance(self, dt):
        """Real time passes (both clocks)."""
        self.mono += dt
        self.wall += dt
        self.cpu += dt * 0.25

    def jump(self, dt):
        """The wall clock is stepped (NTP, operator); no real time passes."""
        self.wall += dt


CLOCK = Clock()
_real = types.SimpleNamespace(
    time=_time.time, monotonic=_time.monotonic, perf_counter=_time.perf_counter,
    open=builtins.open, urandom=os.urandom, localtime=_time.localtime,
    gmtime=_time.gmtime, strftime=_time.strftime, ctime=_time.ctime,
    process_time=_time.process_time, unlink=os.unlink, replace=os.replace, rename=os.rename,
    link=os.link)
real = _real


def _sleep(dt):
    if dt < 0:
        raise ValueError("sleep length must be non-negative")
    CLOCK.slept += dt
    CLOCK.advance(dt)


def _install_clock():
    _time.time = lambda: CLOCK.wall
    _time.time_ns = lambda: int(CLOCK.wall * 1e9)
    _time.monotonic = lambda: CLOCK.mono
    _time.monotonic_ns = lambda: int(CLOCK.mono * 1e9)
    _time.perf_counter = lambda: CLOCK.mono
    _time.perf_counter_ns = lambda: int(CLOCK.mono * 1e9)
    _time.process_time = lambda: CLOCK.cpu
    _time.process_time_ns = lambda: int(CLOCK.cpu * 1e9)
    _time.sleep = _sleep
    # the time zone is part of the simulated machine: always UTC
    _time.localtime = lambda s=None: _real.gmtime(CLOCK.wall if s is None else s)
    _time.gmtime = lambda s=None: _real.gmtime(CLOCK.wall if s is None else s)
    _time.strftime = lambda f, t=None: _real.strftime(
        f, _real.gmtime(CLOCK.wall) if t is None else t)
    _time.ctime = lambda s=None: _time.asctime(
        _real.gmtime(CLOCK.wall if s is None else s))
    _install_datetime()


def _install_datetime():
    """datetime.now() and friends read the simulated wall clock. Libraries that
    hold on to the class by its identity are imported first."""
    import datetime
    import pydantic     # noqa
    import logging      # noqa
    plain = datetime.datetime

    class Meta(type(plain)):
        def __instancecheck__(cls, o):
            return isinstance(o, plain)

    class SimDatetime(plain, metaclass=Meta):
        @classmethod
        def now(cls, tz=None):
            return plain.fromtimestamp(CLOCK.wall, tz) if tz is not None else plain.fromtimestamp(
                CLOCK.wall, datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    datetime.datetime = SimDatetime



# -------------------------------------------------------------- entropy ----
class Entropy:
    """Deterministic stand-in for the operating system's entropy."""

    def __init__(self):
        self.reset(0)

    def reset(self, seed):
        self.seed = seed
        self.n = 0
        self.uuids = set()

    def uuid4(self):
        """Distinct also in the few digits that survive a reduction to a short run id, so that
        an accidental collision is never taken for a shared id."""
        import uuid
        for _ in range(10000):
            u = uuid.UUID(bytes=self.bytes(16), version=4)
            if u.int % 10 ** 6 not in self.uuids:
                break
        self.uuids.add(u.int % 10 ** 6)
        return u

    def bytes(self, k):
        out = b""
        while len(out) < k:
            out += hashlib.sha256(b"entropy|%d|%d" % (self.seed, self.n)).digest()
            self.n += 1
        return out[:k]


ENTROPY = Entropy()


def _install_entropy():
    import uuid
    os.urandom = ENTROPY.bytes
    uuid.uuid4 = ENTROPY.uuid4
    r_seed = _random.seed

    def seed(a=None, version=2):
        r_seed(int.from_bytes(ENTROPY.bytes(8), "little") if a is None else a, version)
    _random.seed = seed
    import numpy as np
    n_seed = np.random.seed

    def np_seed(s=None):
        n_seed(int.from_bytes(ENTROPY.bytes(4), "little") if s is None else s)
    np.random.seed = np_seed
    n_rng = np.random.default_rng

    def default_rng(s=None):
        return n_rng(int.from_bytes(ENTROPY.bytes(8), "little") if s is None else s)
    np.random.default_rng = default_rng
    n_rs = np.random.RandomState

    class RandomState(n_rs):
        def __init__(self, s=None):
            super().__init__(int.from_bytes(ENTROPY.bytes(4), "little") if s is None else s)
    np.random.RandomState = RandomState


# --------------------------------------------------- random draw journal ----
class Draws:
    """Journal of the uniform draws the code makes (module level functions)."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.log = []            # (source, value, model time or None)
        self.on = False
        self.time_getter = None
        self.script = None       # optional list of forced values
        self.dice = None         # optional loaded dice: (low, high, value) -> value, for integers
        self.hook = None

    def note(self, src, value):
        if self.hook is not None:
            self.hook(src, value)
        if self.on:
            t = self.time_getter() if self.time_getter else None
            self.log.append((src, value, t))


DRAWS = Draws()


def bounds(mod, a, k):
    """the half-open range of a call of randint, or (None, None)"""
    a = list(a)
    try:
        if mod is _random:
            lo, hi = (a + [k.get("a"), k.get("b")][len(a):])[:2]
            return lo, hi + 1
        lo = a[0] if a else k["low"]
        hi = a[1] if len(a) > 1 else k.get("high")
        return (0, lo) if hi is None else (lo, hi)
    except Exception:
        return None, None


class Dice:
    """Rare but legal integers: ends of the range, and the slot 0 for everybody."""

    def __init__(self, seed, p_end, p_zero):
        self.rng, self.p_end, self.p_zero = Rng("dice", seed), p_end, p_zero
        self.ends = {}
        self.n = 0

    def __call__(self, lo, hi, v):
        if hi - lo < 2:
            return v
        r = self.rng.random()
        if hi - lo == 65536:
            if r < self.p_end:
                x = self.rng.choice([lo, hi - 1, lo + 1, lo + 32768])
                self.ends[x] = self.ends.get(x, 0) + 1
                if self.ends[x] <= 2:          # (a number handed out again and again would not be fresh)
                    self.n += 1
                    return x
        elif r < self.p_zero:
            self.n += 1
            return lo
        elif r < self.p_zero + self.p_end:
            self.n += 1
            return hi - 1
        return v


def _install_draws():
    import numpy as np

    def wrap(mod, name, src, forceable):
        fn = getattr(mod, name)

        def wrapper(*a, **k):
            v = fn(*a, **k)
            if forceable and DRAWS.script:
                v = DRAWS.script.pop(0)
            if DRAWS.dice is not None and name == "randint" and np.ndim(v) == 0:
                lo, hi = bounds(mod, a, k)
                if lo is not None:
                    v = DRAWS.dice(lo, hi, v)
            if np.ndim(v) == 0:
                DRAWS.note(src, v.item() if hasattr(v, "item") else v)
            else:
                DRAWS.note(src, tuple(np.ravel(v)[:4].tolist()))
            return v
        wrapper.__name__ = name
        setattr(mod, name, wrapper)
    wrap(_random, "random", "random.random", True)
    wrap(_random, "uniform", "random.uniform", False)
    wrap(_random, "randint", "random.randint", False)
    wrap(_random, "randrange", "random.randrange", False)
    wrap(np.random, "random", "np.random", True)
    wrap(np.random, "rand", "np.rand", False)
    wrap(np.random, "random_sample", "np.random_sample", False)
    wrap(np.random, "uniform", "np.uniform", False)
    wrap(np.random, "randint", "np.randint", False)
    wrap(np.random, "choice", "np.choice", False)
    wrap(np.random, "exponential", "np.exponential", False)


# ----------------------------------------------------------- simulated disk ----
class DiskFault(OSError):
    pass


def _drop(path):
    try:
        _real.unlink(path)
    except OSError:
        pass


class Disk:
    """Simulated disk below `root`. Data a file object buffered but never
    flushed is lost when the simulated process crashes."""

    def __init__(self):
        self.root = None
        self.reset({})

    def reset(self, faults):
        """faults: {"kind": enospc|eio|torn, "from": k, "until": m} : the k-th
        to m-th (exclusive) disk writes fail. `short`: see torn."""
        self.durable = {}        # path -> text
        for f in getattr(self, "open_files", ()):
            f._lost, f._buf = True, ""       # files of an earlier run
        self.open_files = []
        self.faults = faults or {}
        self.n_writes = 0
        self.n_opens = 0         # opened for writing
        self.fired = {}
        self.opens = []
        for p in getattr(self, "made", ()):
            _drop(p)
        self.made = set()        # real empty files standing for simulated ones (os.path.exists)

    def covers(self, path):
        try:
            p = os.path.abspath(os.fspath(path))
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = p.decode()
        if self.root and p.startswith(self.root + os.sep):
            return p
        return None

    def _commit(self, path, data):
        f = self.faults
        k = self.n_writes
        self.n_writes += 1
        if f and f["kind"] != "open" and f.get("from", 0) <= k < f.get("until", 1 << 60):
            kind = f["kind"]
            self.fired[kind] = self.fired.get(kind, 0) + 1
            if kind == "torn":
                self.durable[path] = self.durable.get(path, "") + data[:len(data) // 2]
                raise DiskFault(errno.EIO, "simulated torn write")
            if kind == "slow":
                CLOCK.advance(f.get("delay", 0.05))
            elif kind == "enospc":
                raise DiskFault(errno.ENOSPC, "simulated disk full")
            else:
                raise DiskFault(errno.EIO, "simulated I/O error")
        self.durable[path] = self.durable.get(path, "") + data

    def on_open(self, path):
        f = self.faults
        k = self.n_opens
        self.n_opens += 1
        if f.get("kind") == "open" and f.get("from", 0) <= k < f.get("until", 1 << 60):
            self.fired["open"] = self.fired.get("open", 0) + 1
            raise DiskFault(errno.EACCES, "simulated failure to open", path)

    def touch(self, path):
        if path not in self.made:
            _real.open(path, "a").close()
            self.made.add(path)

    def files(self):
        """Everything on the disk: simulated files, and files that code made
        by other means than open() below the root (file descriptors, links)."""
        out = dict(self.durable)
        for d, _, names in os.walk(self.root) if self.root else ():
            for n in names:
                p = os.path.join(d, n)
                if p not in self.made and p not in out:
                    with _real.open(p, encoding="utf-8", errors="replace") as f:
                        out[p] = f.read()
        return out

    def crash(self):
        """Only durable state survives."""
        for f in self.open_files:
            f._lost = True
            f._buf = ""
        self.open_files = []


DISK = Disk()


class SimFile(io.TextIOBase):
    def __init__(self, path, mode):
        self._path, self._mode, self._buf, self._lost = path, mode, "", False
        self.name = path
        d = os.path.dirname(path)
        if not os.path.isdir(d):
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        self._fd = None
        if "x" in mode and (path in DISK.durable or os.path.lexists(path)):
            raise FileExistsError(errno.EEXIST, "File exists", path)
        if mode[:1] in ("w", "x", "a"):
            DISK.on_open(path)
        if "w" in mode or "x" in mode:
            DISK.durable[path] = ""
        elif "a" in mode:
            DISK.durable.setdefault(path, "")
        elif path not in DISK.durable:
            raise FileNotFoundError(errno.ENOENT, "No such file or directory", path)
        self._pos = 0
        DISK.touch(path)
        DISK.open_files.append(self)
        DISK.opens.append((path, mode))

    def writable(self):
        return "r" not in self._mode or "+" in self._mode

    def readable(self):
        return "r" in self._mode or "+" in self._mode

    def write(self, s):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if isinstance(s, (bytes, bytearray, memoryview)):
            s = bytes(s).decode("utf-8", "replace")
        if not self._lost:
            self._buf += s
            if len(self._buf) > 8192:
                self.flush()
        return len(s)

    def flush(self):
        if self.closed or self._lost or not self._buf:
            return
        # like a real buffered file, what could not be written stays in the buffer
        n0 = len(DISK.durable.get(self._path, ""))
        try:
            DISK._commit(self._path, self._buf)
        finally:
            self._buf = self._buf[len(DISK.durable.get(self._path, "")) - n0:]

    def read(self, n=-1):
        data = DISK.durable.get(self._path, "")[self._pos:]
        if n is not None and n >= 0:
            data = data[:n]
        self._pos += len(data)
        return data

    def readline(self, n=-1):
        data = DISK.durable.get(self._path, "")[self._pos:]
        i = data.find("\n")
        data = data if i < 0 else data[:i + 1]
        self._pos += len(data)
        return data

    def tell(self):
        return self._pos if self._mode.startswith("r") else len(DISK.durable.get(self._path, "")) + len(self._buf)

    def fileno(self):
        if self._fd is None:
            self._fd = os.open(self._path, os.O_RDONLY)     # of the placeholder
        return self._fd

    def close(self):
        if not self.closed:
            try:
                self.flush()
            finally:
                super().close()
                if self._fd is not None:
                    os.close(self._fd)
                if self in DISK.open_files:
                    DISK.open_files.remove(self)


def _sim_open(file, mode="r", *a, **k):
    p = None
    if not isinstance(file, int):
        p = DISK.covers(file)
    if p is None:
        return _real.open(file, mode, *a, **k)
    return SimFile(p, mode)


def _move(real_fn):
    def move(src, dst, *a, **k):
        s, d = DISK.covers(src), DISK.covers(dst)
        real_fn(src, dst, *a, **k)
        if d is None and s is None:
            return
        if s in DISK.durable:
            data = DISK.durable.pop(s)
        else:
            with _real.open(dst, encoding="utf-8", errors="replace") as f:
                data = f.read()
        DISK.made.discard(s)
        if d is not None:
            DISK.durable[d] = data
            DISK.made.add(d)
    return move


def _link(src, dst, *a, **k):
    _real.link(src, dst, *a, **k)
    s, d = DISK.covers(src), DISK.covers(dst)
    if s in DISK.durable and d is not None:
        DISK.durable[d] = DISK.durable[s]
        DISK.made.add(d)


def _remove(real_fn):
    def remove(path, *a, **k):
        real_fn(path, *a, **k)
        p = DISK.covers(path) if k.get("dir_fd") is None else None
        if p in DISK.durable:
            del DISK.durable[p]
            DISK.made.discard(p)
    return remove


def _install_disk():
    builtins.open = _sim_open
    io.open = _sim_open
    os.replace, os.rename = _move(_real.replace), _move(_real.rename)
    os.link = _link
    os.remove, os.unlink = _remove(_real.unlink), _remove(_real.unlink)


def heap_noise(seed):
    """Fragment the small-object heap in a way given by `seed`, so that the
    addresses of the objects created next (and with them the iteration order of
    sets of plain objects) follow no order. -> what must stay alive."""
    import random
    r = random.Random(seed)
    keep = []
    for n in range(16, 480, 16):
        keep += [bytes(n - r.randrange(16)) for _ in range(r.choice([40, 90, 200]))]
    r.shuffle(keep)
    del keep[len(keep) // 2:]
    return keep


class Console(io.TextIOBase):
    """Simulated console stream (stderr or stdout) with injectable failure."""

    def __init__(self):
        self.reset(None)

    def reset(self, fault):
        self.text = []
        self.fault = fault
        self.n = 0
        self.fired = {}

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        f = self.fault
        k = self.n
        self.n += 1
        if f and f.get("from", 0) <= k < f.get("until", 1 << 60):
            self.fired[f["kind"]] = self.fired.get(f["kind"], 0) + 1
            if f["kind"] == "closed":
                raise ValueError("I/O operation on closed file.")
            if f["kind"] == "encode":
                raise UnicodeEncodeError("ascii", str(s) or " ", 0, 1, "simulated console that cannot show this text")
            if f["kind"] == "epipe":
                raise BrokenPipeError(errno.EPIPE, "simulated broken pipe")
            raise OSError(errno.EIO, "simulated console error")
        self.text.append(s)
        return len(s)

    def flush(self):
        f = self.fault
        if f and f["kind"] == "closed" and f.get("from", 0) < self.n <= f.get("until", 1 << 60):
            raise ValueError("I/O operation on closed file.")

    def getvalue(self):
        return "".join(self.text)


STDERR = Console()
STDOUT = Console()


# -------------------------------------------------------------- worker pool ----
class PoolWorld:
    def __init__(self):
        self.reset(0)

    def reset(self, seed, ncpu=4):
        self.rng = Rng("pool", seed)
        self.ncpu = ncpu
        self.sched = []          # (task index, worker) in execution order
        self.pools = 0
        self.current = None
        self.on_task = None      # callback(pool_no, worker, task_no, phase)
        self.task_ids = 0


class Rng(_random.Random):
    """Private generator: never touches the global ones."""

    def __new__(cls, *parts):
        return super().__new__(cls, 0)

    def __init__(self, *parts):
        h = hashlib.sha256(repr(parts).encode()).digest()
        super().__init__(int.from_bytes(h[:16], "big"))


POOL = None


class RngState:
    """Snapshot of the global random generators of a (simulated) process."""

    def __init__(self):
        import numpy as np
        self.r = _random.getstate()
        self.n = np.random.get_state()

    def restore(self):
        import numpy as np
        _random.setstate(self.r)
        np.random.set_state(self.n)

    @staticmethod
    def forked():
        """State a freshly forked worker has: `random` reseeds itself after a
        fork (CPython), numpy does not."""
        save = RngState()
        _random.seed()
        child = RngState()
        save.restore()
        return child

    def fingerprint(self):
        return (hashlib.sha256(repr(self.r).encode()).hexdigest()[:16],
                hashlib.sha256(self.n[1].tobytes() + struct.pack("<q", self.n[2])).hexdigest()[:16])


class SimAsyncResult:
    def __init__(self, thunk):
        self._thunk, self._done = thunk, False

    def _run(self):
        if not self._done:
            self._done = True
            try:
                self._v, self._e = self._thunk(), None
            except Exception as e:
                self._v, self._e = None, e

    def get(self, timeout=None):
        self._run()
        if self._e is not None:
            raise self._e
        return self._v

    result = get

    def wait(self, timeout=None):
        self._run()

    def ready(self):
        return True

    def done(self):
        return True

    def successful(self):
        self._run()
        return self._e is None


class SimPool:
    """multiprocessing.Pool run inside this process by a seeded scheduler:
    chunks of tasks are dealt to workers and executed in a random order, each
    worker with its own copy of the global random generator state. Arguments
    and results take the same pickle round trip as in the real pool."""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None, max_workers=None, mp_context=None, **kw):
        n = processes or max_workers or POOL.ncpu
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        self.no = POOL.pools
        POOL.pools += 1
        self.n = n
        self._closed = False
        self._init = (initializer, initargs)
        self.states = [RngState.forked() for _ in range(n)]
        for w in range(n):
            if initializer is not None:
                self._as_worker(w, lambda: initializer(*initargs))

    def _as_worker(self, w, fn):
        parent = RngState()
        prev, POOL.current = POOL.current, (self.no, w)
        self.states[w].restore()
        try:
            return fn()
        finally:
            self.states[w] = RngState()
            parent.restore()
            POOL.current = prev

    def _check(self):
        if self._closed:
            raise ValueError("Pool not running")

    def _map(self, fn, items, star, chunksize=None):
        import pickle
        self._check()
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [list(range(i, min(i + chunksize, len(items))))
                  for i in range(0, len(items), chunksize)]
        order = list(range(len(chunks)))
        POOL.rng.shuffle(order)
        res = [None] * len(items)
        errs = [None] * len(items)
        first_err = None
        for c in order:
            w = POOL.rng.randrange(self.n)
            for i in chunks[c]:
                tid = POOL.task_ids
                POOL.task_ids += 1
                POOL.sched.append((i, w))

                def run(i=i, tid=tid, w=w):
                    arg = pickle.loads(pickle.dumps(items[i]))
                    f = pickle.loads(pickle.dumps(fn))
                    if POOL.on_task:
                        POOL.on_task(self.no, w, i, "start")
                    try:
                        return pickle.loads(pickle.dumps(f(*arg) if star else f(arg)))
                    finally:
                        if POOL.on_task:
                            POOL.on_task(self.no, w, i, "end")
                try:
                    res[i] = self._as_worker(w, run)
                except Exception as e:
                    errs[i] = e
                    if first_err is None:
                        first_err = e
                    break        # the rest of the chunk is lost, as in the real pool
        return res, errs, first_err, order, chunks

    def map(self, fn, iterable, chunksize=None):
        res, errs, first, *_ = self._map(fn, iterable, False, chunksize)
        if first is not None:
            raise first
        return res

    def starmap(self, fn, iterable, chunksize=None):
        res, errs, first, *_ = self._map(fn, iterable, True, chunksize)
        if first is not None:
            raise first
        return res

    def map_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)

        def go():
            r = self.map(fn, items, chunksize)
            if callback:
                callback(r)
            return r
        return SimAsyncResult(go)

    def starmap_async(self, fn, iterable, chunksize=None, callback=None, error_callback=None):
        items = list(iterable)
        return SimAsyncResult(lambda: self.starmap(fn, items, chunksize))

    def imap(self, fn, iterable, chunksize=1):
        res, errs, first, *_ = self._map(fn, iterable, False, chunksize)
        for r, e in zip(res, errs):
            if e is not None:
                raise e
            yield r

    def imap_unordered(self, fn, iterable, chunksize=1):
        res, errs, first, order, chunks = self._map(fn, iterable, False, chunksize)
        for c in order:
            for i in chunks[c]:
                if errs[i] is not None:
                    raise errs[i]
                yield res[i]

    def apply(self, fn, args=(), kwds=None):
        kwds = kwds or {}
        r, e, first, *_ = self._map(_Apply(fn, kwds), [tuple(args)], True, 1)
        if first is not None:
            raise first
        return r[0]

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return SimAsyncResult(lambda: self.apply(fn, args, kwds))

    def submit(self, fn, *args, **kwds):
        return SimAsyncResult(lambda: self.apply(fn, args, kwds))

    def close(self):
        self._closed = True

    def join(self):
        if not self._closed:
            raise ValueError("Pool is still running")

    def terminate(self):
        self._closed = True

    def shutdown(self, wait=True, cancel_futures=False):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


class SimExecutor(SimPool):
    def map(self, fn, *iterables, timeout=None, chunksize=1):
        items = list(zip(*iterables))
        res, errs, first, *_ = self._map(fn, items, True, chunksize)

        def it():
            for r, e in zip(res, errs):
                if e is not None:
                    raise e
                yield r
        return it()


class _Apply:
    def __init__(self, fn, kw):
        self.fn, self.kw = fn, kw

    def __call__(self, *a):
        return self.fn(*a, **self.kw)


def _install_pool():
    global POOL
    POOL = PoolWorld()
    import multiprocessing
    import multiprocessing.context
    import multiprocessing.pool
    import concurrent.futures
    multiprocessing.Pool = SimPool
    multiprocessing.pool.Pool = SimPool
    multiprocessing.pool.ThreadPool = SimPool
    multiprocessing.context.BaseContext.Pool = \
        lambda self, *a, **k: SimPool(*a, **k)
    multiprocessing.cpu_count = lambda: POOL.ncpu
    os.cpu_count = lambda: POOL.ncpu
    concurrent.futures.ProcessPoolExecutor = SimExecutor


# --------------------------------------------------------- matplotlib stub ----
class PlotStub:
    def __init__(self):
        self.plots = []
        self.saved = []
        self.fail = self.failed = 0


PLOTS = PlotStub()


def _install_plots():
    mpl = types.ModuleType("matplotlib")
    plt = types.ModuleType("matplotlib.pyplot")

    class Anything:
        def __getattr__(self, name):
            if name.startswith("__"):
                raise AttributeError(name)
            return lambda *a, **k: Anything()

    class Axes(Anything):
        def plot(self, *a, **k):
            data = []
            for x in a:
                try:
                    data.append([float(v) for v in x])
                except Exception:
                    data.append(repr(x))
            if len(data) >= 2 and isinstance(data[0], list) and isinstance(data[1], list) \
                    and len(data[0]) != len(data[1]):
                raise ValueError("x and y must have same first dimension")
            PLOTS.plots.append(data)
            return [Anything()]

    class Figure(Anything):
        def savefig(self, filename, *a, **k):
            d = os.path.dirname(os.path.abspath(str(filename)))
            if not os.path.isdir(d):
                raise FileNotFoundError(errno.ENOENT, "No such file or directory", str(filename))
            if PLOTS.fail:
                PLOTS.fail -= 1
                PLOTS.failed += 1
                raise DiskFault(errno.ENOSPC, "simulated disk full", str(filename))
            PLOTS.saved.append(str(filename))
            p = DISK.covers(filename)
            if p is not None:
                DISK.touch(p)

    plt.subplots = lambda *a, **k: (Figure(), Axes())
    plt.figure = lambda *a, **k: Figure()
    plt.savefig = Figure().savefig
    for n in ("plot", "legend", "xlabel", "ylabel", "grid", "show", "title", "close",
              "tick_params", "tight_layout", "style", "rcParams"):
        setattr(plt, n, lambda *a, **k: Anything())
    mpl.pyplot = plt
    mpl.use = lambda *a, **k: None
    sys.modules["matplotlib"] = mpl
    sys.modules["matplotlib.pyplot"] = plt


# ------------------------------------------------------------------ set-up ----
_installed = False


def install(scratch):
    """Patch this interpreter. pysim must not have been imported yet."""
    global _installed
    if _installed:
        return
    assert not any(m == "pysim" or m.startswith("pysim.") for m in sys.modules), \
        "world.install() after pysim import"
    import numpy, logging, uuid, tempfile, decimal, fractions  # noqa: real ones first
    import multiprocessing, concurrent.futures, click, tabulate, pydantic  # noqa
    os.makedirs(scratch, exist_ok=True)
    DISK.root = os.path.abspath(scratch)
    os.chdir(DISK.root)
    _install_clock()
    _install_entropy()
    _install_draws()
    _install_disk()
    _install_pool()
    _install_plots()
    sys.path.insert(0, REPO)
    _installed = True


def reset(seed, disk_faults=None, stderr_fault=None, ncpu=4, wall0=Clock.EPOCH,
          py_seed=None, np_seed=None):
    """Start a run: everything below is a function of the arguments only."""
    import logging
    import numpy as np
    CLOCK.reset(wall0=wall0)
    ENTROPY.reset(seed)
    DRAWS.reset()
    DISK.reset(disk_faults or {})
    STDERR.reset(stderr_fault)
    STDOUT.reset(None)
    POOL.reset(seed, ncpu)
    PLOTS.plots.clear()
    PLOTS.saved.clear()
    PLOTS.fail = PLOTS.failed = 0
    _random.seed(seed if py_seed is None else py_seed)
    np.random.seed((seed if np_seed is None else np_seed) % (2 ** 32))
    sys.stderr = STDERR
    sys.stdout = STDOUT
    logging.raiseExceptions = True


def release():
    sys.stderr = sys.__stderr__
    sys.stdout = sys.__stdout__
