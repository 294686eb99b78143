"""The world of a simulated Python program: its file operations pass through here one by one, so that a plan can kill the program,
fail or shorten an operation at any of them; its clock, random sources, process id and directory order come from the plan too."""
import builtins, contextlib, errno, io, os, random, shutil, sys, tempfile, time
_open, _io_open, _fileio = builtins.open, io.open, io.FileIO
ERR = {'enospc': errno.ENOSPC, 'eio': errno.EIO, 'eacces': errno.EACCES, 'emfile': errno.EMFILE, 'edquot': errno.EDQUOT}
HARD = set(ERR) | {'full', 'readerr', 'int', 'crash'}
BENIGN = {'short', 'eintr'}

class Crash(BaseException): pass

def tree(root, limit=1 << 26):
    """relative path -> bytes (None for a directory)"""
    out = {}
    for d, ds, fs in os.walk(root):
        ds.sort()
        for x in ds: out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in sorted(fs):
            p = os.path.join(d, x)
            with _open(p, 'rb') as f: out[os.path.relpath(p, root)] = f.read(limit)
    return out

def put_tree(root, t):
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    for p, b in sorted(t.items()):
        q = os.path.join(root, p)
        if b is None: os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with _open(q, 'wb') as f: f.write(b)

class World:
    """faults: [[kind, operation number, argument], ...]; kinds: crash (argument: bytes of the write that persist / 1 = after the operation), an errno name
    (argument: bytes written before), full (disk full from then on), short (argument: bytes written, success), readerr, int (n-th line of the program: SIGINT)"""
    def __init__(s, root, faults=(), buf=0, traced=(), now=1700000000.0, rnd=0, order=0, pid=0):
        s.root = os.path.realpath(root); s.faults = [list(f) for f in faults]; s.buf = buf; s.n = 0; s.reads = 0; s.lines = 0; s.dead = False; s.full = False; s.snap = None
        s.log = []; s.fired = []; s.traced = tuple(traced); s.now = now; s.rnd = rnd; s.order = order; s.pid = pid; s.marks = []; s.ints = sorted(f[1] for f in s.faults if f[0] == 'int')
    def rel(s, p):
        try: p = os.fsdecode(p) if not isinstance(p, int) else os.readlink('/proc/self/fd/%d' % p)
        except OSError: return None
        p = os.path.realpath(p) if not isinstance(p, int) else p
        return os.path.relpath(p, s.root) if p == s.root or p.startswith(s.root + os.sep) else None
    def fire(s, kind): s.fired.append(kind)
    def die(s):
        s.snap = tree(s.root); s.dead = True; s.fire('crash'); raise Crash()
    def op(s, name, path, act, data=None):
        """one operation on durable state; act(data) performs it"""
        r = s.rel(path)
        if r is None: return act(data) if not s.dead else (len(data) if data is not None else None)
        if s.dead: raise Crash()
        n = s.n; s.n += 1; s.marks.append(s.lines); s.log.append((name, r, len(data) if data is not None else 0))
        f = next((f for f in s.faults if f[1] == n and f[0] not in ('int', 'readerr')), None)
        def new(): return name in ('write', 'link', 'symlink') or (name == 'mkdir' and not os.path.lexists(path)) or (name == 'open' and not os.path.exists(path))
        if s.full and new():
            s.fire('full'); raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), str(path))
        if f and f[0] != 'crash' and (name == 'mkdir' and os.path.lexists(path) or name in ('unlink', 'remove', 'rmdir') and not os.path.lexists(path)): f = None     # fails by itself
        if not f: return act(data)
        k, a = f[0], f[2]
        if k == 'crash':
            if data is not None: m = min(max(0, a), len(data)); m and act(data[:m])
            elif a & 1: act(data)
            s.die()
        if k == 'short':
            if data is None or len(data) < 2: return act(data)
            s.fire('short'); return act(data[:1 + a % (len(data) - 1)])
        if name == 'close': act(data)
        if k == 'full':
            s.full = True
            if not new(): return act(data) if name != 'close' else None
            s.fire('full'); e = errno.ENOSPC
        else: s.fire(k); e = ERR[k]
        if data is not None and a > 0 and len(data) > 0: act(data[:min(a, len(data))])
        raise OSError(e, os.strerror(e), str(path))
    def read(s, path):
        if s.dead: raise Crash()
        if s.rel(path) is None: return                  # the interpreter's and the libraries' own files
        n = s.reads; s.reads += 1
        if any(f[0] == 'readerr' and f[1] == n for f in s.faults): s.fire('readerr'); raise OSError(errno.EIO, os.strerror(errno.EIO), str(path))
    def trace(s, frame, ev, arg):
        if not frame.f_code.co_filename.startswith(s.traced): return None
        def local(frame, ev, arg):
            if ev == 'line':
                n = s.lines; s.lines += 1
                if s.ints and n == s.ints[0]: s.ints.pop(0); s.fire('int'); raise KeyboardInterrupt()
            return local
        return local
    @contextlib.contextmanager
    def installed(s):
        W = s
        class Raw(_fileio):
            def __init__(self, file, mode='r', closefd=True, opener=None):
                self._w = any(c in mode for c in 'wax+'); self._p = file if not isinstance(file, int) else None
                if isinstance(file, int) or not self._w:
                    if not isinstance(file, int) and W.rel(file) is not None and os.path.isfile(file): W.read(file)
                    super().__init__(file, mode, closefd, opener)
                    self._p = os.path.join(W.root, W.rel(file) or '..') if isinstance(file, int) else os.fsdecode(file)
                else: W.op('open', file, lambda d: _fileio.__init__(self, file, mode, closefd, opener)); self._p = os.path.abspath(os.fsdecode(file))
            def write(self, b):
                b = bytes(memoryview(b).cast('B'))
                return W.op('write', self._p, lambda d: _fileio.write(self, d), b) if not W.dead else len(b)
            def truncate(self, size=None): return W.op('truncate', self._p, lambda d: _fileio.truncate(self, size))
            def readinto(self, b): W.read(self._p); return super().readinto(b)
            def read(self, n=-1): W.read(self._p); return super().read(n)
            def readall(self): W.read(self._p); return super().readall()
            def close(self):
                if self.closed: return
                if self._w and not W.dead: W.op('close', self._p, lambda d: _fileio.close(self))
                else: super().close()
        def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not isinstance(file, int): file = os.fspath(file)
            b = 'b' in mode; m = set(mode)
            if m - set('axrwb+t') or len(mode) > len(m): raise ValueError('invalid mode: %r' % mode)
            if len(m & set('axrw')) != 1: raise ValueError("must have exactly one of create/read/write/append mode")
            if b and (encoding is not None or errors is not None or newline is not None): raise ValueError("binary mode doesn't take an encoding argument")
            raw = Raw(file, ''.join(c for c in mode if c in 'axrw') + ('+' if '+' in mode else ''), closefd, opener)
            if buffering == 0:
                if b: return raw
                raise ValueError("can't have unbuffered text I/O")
            size = buffering if buffering > 1 else W.buf or io.DEFAULT_BUFFER_SIZE
            B = (io.BufferedRandom if '+' in mode else io.BufferedReader if 'r' in mode else io.BufferedWriter)(raw, size)
            if b: return B
            t = io.TextIOWrapper(B, encoding, errors, newline, buffering == 1); t.mode = mode; return t
        P = []
        def patch(mod, name, f):
            if hasattr(mod, name): P.append((mod, name, getattr(mod, name))); setattr(mod, name, f)
        import _io, codecs, datetime, uuid
        R = {n: getattr(os, n) for n in ('mkdir', 'rename', 'replace', 'remove', 'unlink', 'rmdir', 'truncate', 'ftruncate', 'link', 'symlink', 'write', 'open', 'fsync', 'listdir', 'scandir', 'read')}
        def two(n): return lambda a, b, **k: W.op(n, b, lambda d: R[n](a, b, **k))
        def one(n): return lambda p, *a, **k: W.op(n, p, lambda d: R[n](p, *a, **k))
        for m in (builtins, io, _io): patch(m, 'open', sim_open)
        patch(io, 'FileIO', Raw)
        for n in ('mkdir', 'remove', 'unlink', 'rmdir', 'truncate', 'ftruncate', 'fsync'): patch(os, n, one(n))
        for n in ('rename', 'replace', 'link', 'symlink'): patch(os, n, two(n))
        def os_open(p, flags, mode=0o777, **k):
            if flags & (os.O_CREAT | os.O_TRUNC) and W.rel(p) is not None:
                if W.dead: raise Crash()
                r = []; W.op('open', p, lambda d: r.append(R['open'](p, flags, mode, **k))); return r[0]
            return R['open'](p, flags, mode, **k)
        patch(os, 'open', os_open); patch(os, 'write', lambda fd, b: W.op('write', fd, lambda d: R['write'](fd, d), bytes(b)))
        rng = random.Random(s.order)
        def mix(l):
            if s.order: l = sorted(l); rng.shuffle(l)
            return l
        patch(os, 'listdir', lambda p='.': mix(R['listdir'](p)))
        if s.order:
            class SD:
                def __init__(self, p='.'): self.l = [e for e in R['scandir'](p)]; self.l.sort(key=lambda e: e.name); rng.shuffle(self.l); self.i = iter(self.l)
                def __iter__(self): return self
                def __next__(self): return next(self.i)
                def __enter__(self): return self
                def __exit__(self, *a): pass
                def close(self): pass
            patch(os, 'scandir', SD)
        patch(shutil, '_USE_CP_SENDFILE', False)
        # clock, randomness, process
        T = {n: getattr(time, n) for n in ('time', 'time_ns', 'localtime', 'gmtime', 'strftime', 'ctime', 'asctime')}; real0 = s.now
        patch(time, 'time', lambda: s.now); patch(time, 'time_ns', lambda: int(s.now * 1e9)); patch(time, 'sleep', lambda t: setattr(s, 'now', s.now + t))
        patch(time, 'localtime', lambda t=None: T['localtime'](s.now if t is None else t)); patch(time, 'gmtime', lambda t=None: T['gmtime'](s.now if t is None else t))
        patch(time, 'ctime', lambda t=None: T['ctime'](s.now if t is None else t)); patch(time, 'asctime', lambda t=None: T['asctime'](T['localtime'](s.now) if t is None else t)); patch(time, 'strftime', lambda f, t=None: T['strftime'](f, T['localtime'](s.now) if t is None else t))
        for n in ('monotonic', 'perf_counter'): patch(time, n, lambda: s.now - 1.6e9)
        DT = datetime.datetime; DD = datetime.date
        class SimDT(DT):
            @classmethod
            def now(cls, tz=None): return DT.fromtimestamp(s.now, tz)
            @classmethod
            def utcnow(cls): return DT(1970, 1, 1) + datetime.timedelta(seconds=s.now)
            @classmethod
            def today(cls): return DT.fromtimestamp(s.now)
        class SimD(DD):
            @classmethod
            def today(cls): return DD.fromtimestamp(s.now)
        patch(datetime, 'datetime', SimDT); patch(datetime, 'date', SimD)
        ur = random.Random(s.rnd * 7 + 1); patch(os, 'urandom', lambda n: ur.randbytes(n)); patch(random, '_urandom', lambda n: ur.randbytes(n)); patch(uuid, 'uuid4', lambda: uuid.UUID(int=ur.getrandbits(128), version=4)); patch(uuid, 'uuid1', lambda *a: uuid.UUID(int=ur.getrandbits(128), version=1))
        patch(os, 'getpid', lambda: 1000 + s.pid); patch(tempfile, 'tempdir', s.root); patch(tempfile, '_name_sequence', None)
        random.seed(s.rnd)
        try:
            import numpy as np; np.random.seed(s.rnd % (1 << 32))
        except ImportError: pass
        hook = sys.unraisablehook; sys.unraisablehook = lambda *a: None; tr = sys.gettrace()
        if s.traced: sys.settrace(s.trace)
        try: yield s
        finally:
            sys.settrace(tr)
            for m, n, v in reversed(P): setattr(m, n, v)
            sys.unraisablehook = hook
    def state(s): return s.snap if s.snap is not None else tree(s.root)
