"""Simulated-process side of the simulator.

Lives in the process that runs the code under test.  Everything non-deterministic that code does is turned into a
request to the kernel (kernel.World), which answers when, and how (go on / fail / die), the process continues.
`CUR` is None outside a simulated process: then every seam is transparent.
"""
import builtins
import errno as errno_mod
import io
import locale
import marshal
import os
import pickle
import random
import resource
import signal
import socket
import struct
import sys
import time
import traceback

_real = dict(
    open=builtins.open, stat=os.stat, lstat=os.lstat, access=os.access, listdir=os.listdir, scandir=os.scandir,
    write=os.write, fsync=os.fsync, fdatasync=getattr(os, 'fdatasync', None), getpid=os.getpid, urandom=os.urandom,
    time=time.time, time_ns=time.time_ns, monotonic=time.monotonic, perf_counter=time.perf_counter,
    strftime=time.strftime, localtime=time.localtime, gmtime=time.gmtime, sleep=time.sleep, fork=os.fork,
    cpu_count=os.cpu_count, rseed=random.seed,
)
CRASH_EXIT = 137
WRITE_FLAGS = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND

CUR = None  # the SimProc of this (real) process


class Violation(Exception):
    """A property does not hold.  `sig` is a short stable signature used to keep a minimised case on the same failure."""

    def __init__(self, sig, msg='', data=None):
        super().__init__(f'{sig}: {msg}')
        self.sig, self.msg, self.data = sig, msg, data


class Unsupported(Exception):
    """The code under test uses something the simulator has no model for."""


class _Quiet:
    def __enter__(self):
        if CUR is not None:
            CUR.quiet += 1

    def __exit__(self, *a):
        if CUR is not None:
            CUR.quiet -= 1


quiet = _Quiet


def send_msg(sock, obj):
    b = marshal.dumps(obj)
    sock.sendall(struct.pack('<I', len(b)) + b)


def recv_exact(sock, n):
    parts = []
    while n:
        b = sock.recv(n)
        if not b:
            raise EOFError
        parts.append(b)
        n -= len(b)
    return b''.join(parts) if len(parts) != 1 else parts[0]


def recv_msg(sock):
    n = struct.unpack('<I', recv_exact(sock, 4))[0]
    return marshal.loads(recv_exact(sock, n))


class SimProc:
    def __init__(self, sock, cfg):
        self.sock = sock
        self.cfg = cfg              # scratch, bufsize, listseed, solver settings ...
        self.scratch = cfg['scratch']
        self.quiet = 0
        self.op_label = ''
        self.k = 0                  # index of the next faultable point within the current op
        self.inside = False
        self.name = None
        self.simpid = None
        self.nsol = 0
        self.solves = []            # inputs and outputs of the solver calls made in this process
        self.escaped = []
        self.children = 0
        self.leaf = None            # plan for faults in leaf computations (see leaf_point)

    # ---- talking to the kernel ----
    def req(self, *msg):
        send_msg(self.sock, msg)
        return recv_msg(self.sock)

    def start(self):
        r = self.req('start', _real['getpid']())
        self.name, self.simpid, seed = r
        self.ent = random.Random(seed)
        _real['rseed'](self.ent.getrandbits(64))  # python's own generator reseeds itself on fork: make that repeatable

    def op(self, label):
        self.op_label, self.k = str(label), 0
        if self.leaf is not None:
            self.leaf = None

    def point(self, kind, path, n=0, faultable=True):
        """A place where the kernel may switch processes or inject a fault."""
        if self.quiet or self.inside:
            return ('go',)
        self.inside = True
        try:
            if faultable:
                r = self.req('pt', kind, path, n, self.op_label, self.k)
                self.k += 1
            else:
                r = self.req('y', kind, path)
        finally:
            self.inside = False
        if r[0] == 'crash' and kind != 'write':
            self.die()
        if r[0] == 'int':
            raise KeyboardInterrupt
        return r

    def die(self):
        os._exit(CRASH_EXIT)

    def emit(self, tag, obj):
        """Adds a record to the world's log (survives the process)."""
        with quiet():
            send_msg(self.sock, ('emit', tag, pickle.dumps(obj, protocol=4)))

    # ---- paths ----
    def resolve(self, path, dir_fd=None):
        if isinstance(path, int):
            try:
                return os.readlink('/proc/self/fd/%d' % path)
            except OSError:
                return ''
        try:
            p = os.fsdecode(path)
        except TypeError:
            return ''
        if not p.startswith('/'):
            if isinstance(dir_fd, int) and dir_fd >= 0:
                base = os.readlink('/proc/self/fd/%d' % dir_fd)
            else:
                base = os.getcwd()
            p = base + '/' + p
        return os.path.normpath(p)

    def rel(self, p):
        """Path below the scratch directory or None."""
        if p == self.scratch:
            return '.'
        if p.startswith(self.scratch + '/'):
            return p[len(self.scratch) + 1:]
        return None

    def fs_point(self, kind, path, write, n=0, faultable=True):
        p = self.resolve(path) if not isinstance(path, tuple) else self.resolve(*path)
        rel = self.rel(p)
        if rel is None:
            if write and p not in ('/dev/null', '') and not p.startswith('/dev/'):
                self.escaped.append((kind, p))
                raise PermissionError(errno_mod.EPERM, 'write outside the simulated disk', p)
            return
        r = self.point(kind, rel, n, faultable)
        if r[0] in ('err', 'short'):
            raise OSError(r[1], os.strerror(r[1]), p)


# ------------------------------------------------------------------------------------------------ audit hook seam
_W2 = {'os.mkdir': 'mkdir', 'os.remove': 'remove', 'os.rmdir': 'rmdir', 'os.truncate': 'truncate',
       'os.chmod': 'chmod', 'os.utime': 'utime', 'os.chown': 'chown', 'os.setxattr': 'setxattr'}
_R2 = {'os.listdir': 'listdir', 'os.scandir': 'listdir'}
_DIRFD = {'os.mkdir': 2, 'os.remove': 1, 'os.rmdir': 1, 'os.chmod': 2, 'os.utime': 3, 'os.chown': 3}


def _audit(event, args):
    P = CUR
    if P is None or P.quiet or P.inside:
        return
    if event == 'open':
        path, mode, flags = args
        if isinstance(path, int) or path is None:
            return
        w = bool(isinstance(flags, int) and flags & WRITE_FLAGS)
        if not w and isinstance(flags, int) and flags & os.O_DIRECTORY:
            P.fs_point('opendir', path, False)
        else:
            P.fs_point('openw' if w else 'openr', path, w)
    elif event in _W2:
        i = _DIRFD.get(event)
        dfd = args[i] if i is not None and len(args) > i else None
        P.fs_point(_W2[event], (args[0], dfd), True)
    elif event == 'os.rename':
        src, dst, sfd, dfd = args
        d = P.rel(P.resolve(dst, dfd))
        if d is None:
            P.fs_point('rename', (dst, dfd), True)
        P.fs_point('rename', (src, sfd), True)
    elif event == 'os.link' or event == 'os.symlink':
        P.fs_point(event[3:], args[1], True)
    elif event in _R2:
        P.fs_point('listdir', args[0] if args[0] is not None else '.', False)
    elif event in ('os.fork', 'os.forkpty', 'os.posix_spawn', 'subprocess.Popen', 'os.system', 'os.exec', 'os.kill'):
        if P.cfg.get('allow_fork'):
            return
        raise Unsupported('%s %.200r' % (event, args))


# ------------------------------------------------------------------------------------------------ file write seam
class SimFileIO(io.FileIO):
    """Raw file whose writes the kernel decides on; the real buffered and text layers sit on top of it."""
    _sim_rel = None

    def write(self, b):
        P = CUR
        if P is None or P.quiet or self._sim_rel is None:
            return super().write(b)
        return _raw_write(P, self._sim_rel, b, super().write)


def _raw_write(P, rel, b, do):
    mv = memoryview(b).cast('B')
    r = P.point('write', rel, len(mv))
    if r[0] == 'go':
        return do(mv)
    if r[0] == 'err':
        raise OSError(r[1], os.strerror(r[1]))
    if r[0] == 'short':                       # write a part now, the rest meets a full disk
        n = max(0, min(len(mv) - 1, int(len(mv) * r[2])))
        if n == 0:
            raise OSError(r[1], os.strerror(r[1]))
        return do(mv[:n])
    if r[0] == 'crash':
        n = int(len(mv) * r[1])
        if n:
            do(mv[:n])
        P.die()
    raise AssertionError(r)


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    P = CUR
    if P is None or P.quiet or P.inside or not isinstance(mode, str) or not set(mode) & set('wax+'):
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    p = P.resolve(file)
    rel = P.rel(p)
    if rel is None:
        return _real['open'](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = 'b' in mode
    raw = SimFileIO(file, mode.replace('b', '').replace('t', ''), closefd, opener)
    try:
        raw._sim_rel = rel
        bufsize = P.cfg.get('bufsize', 8192)
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        if '+' in mode:
            buf = io.BufferedRandom(raw, bufsize)
        else:
            buf = io.BufferedWriter(raw, bufsize)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, encoding or locale.getencoding(), errors, newline, buffering == 1)
        text._CHUNK_SIZE = bufsize
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


def sim_write(fd, data):
    P = CUR
    if P is None or P.quiet or P.inside:
        return _real['write'](fd, data)
    rel = P.rel(P.resolve(fd))
    if rel is None:
        return _real['write'](fd, data)
    return _raw_write(P, rel, data, lambda mv: _real['write'](fd, mv))


def _mk_fsync(name):
    def f(fd):
        P = CUR
        if P is not None and not P.quiet:
            n = fd if isinstance(fd, int) else fd.fileno()
            rel = P.rel(P.resolve(n))
            if rel is not None:
                r = P.point('fsync', rel)
                if r[0] in ('err', 'short'):
                    raise OSError(r[1], os.strerror(r[1]))
        return _real[name](fd)
    return f


# ------------------------------------------------------------------------------------------------ read-side seams
def _mk_stat(name):
    real = _real[name]

    def f(path, *a, **kw):
        P = CUR
        if P is not None and not P.quiet and not P.inside and not isinstance(path, int):
            rel = P.rel(P.resolve(path, kw.get('dir_fd')))
            if rel is not None:
                P.point('stat', rel, faultable=False)
        return real(path, *a, **kw)
    return f


def _shuffled(P, path, names):
    names = sorted(names)
    random.Random('%s|%s' % (P.cfg.get('listseed', 0), path)).shuffle(names)
    return names


def sim_listdir(path='.'):
    P = CUR
    names = _real['listdir'](path)
    if P is None or P.quiet or P.inside:
        return names
    rel = P.rel(P.resolve(path if path is not None else '.'))
    return names if rel is None else _shuffled(P, rel, names)


class _ScandirIter:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def sim_scandir(path='.'):
    P = CUR
    if P is None or P.quiet or P.inside:
        return _real['scandir'](path)
    rel = P.rel(P.resolve(path if path is not None else '.'))
    if rel is None:
        return _real['scandir'](path)
    with _real['scandir'](path) as it:
        d = {e.name: e for e in it}
    return _ScandirIter([d[n] for n in _shuffled(P, rel, d)])


# ------------------------------------------------------------------------------------------------ clock, pid, entropy
def _now():
    P = CUR
    if P is None or P.quiet or P.inside:
        return None
    P.inside = True
    try:
        return P.req('time')
    finally:
        P.inside = False


def _mk_clock(name, wall):
    real = _real[name]

    def f():
        t = _now()
        return real() if t is None else t[0 if wall else 1]
    return f


def sim_time_ns():
    t = _now()
    return _real['time_ns']() if t is None else int(t[0] * 1e9)


def sim_strftime(fmt, t=None):
    if t is None:
        now = _now()
        if now is not None:
            t = _real['gmtime'](now[0])
    return _real['strftime'](fmt, t) if t is not None else _real['strftime'](fmt)


def _mk_xtime(name):
    real = _real[name]

    def f(secs=None):
        if secs is None:
            now = _now()
            if now is not None:
                return _real['gmtime'](now[0])
            return real()
        return real(secs)
    return f


def sim_sleep(s):
    P = CUR
    if P is None or P.quiet:
        return _real['sleep'](s)
    P.inside = True
    try:
        P.req('sleep', float(s))
    finally:
        P.inside = False


def sim_getpid():
    P = CUR
    return _real['getpid']() if P is None or P.simpid is None else P.simpid


def sim_urandom(n):
    P = CUR
    return _real['urandom'](n) if P is None or P.simpid is None else P.ent.randbytes(n)


def sim_randbits(k):
    P = CUR
    return _orig_randbits(k) if P is None or P.simpid is None else P.ent.getrandbits(k)


def sim_rseed(a=None, version=2):
    P = CUR
    if a is None and P is not None and P.simpid is not None:
        a = P.ent.getrandbits(64)
    return _real['rseed'](a, version)


def sim_cpu_count():
    P = CUR
    return _real['cpu_count']() if P is None else P.cfg.get('cpus', 4)


_orig_randbits = None
_installed = False


def install():
    """Put the seams in place (once per real process, before the code under test is imported)."""
    global _installed, _orig_randbits
    if _installed:
        return
    _installed = True
    builtins.open = sim_open
    io.open = sim_open
    os.write = sim_write
    os.fsync = _mk_fsync('fsync')
    if _real['fdatasync']:
        os.fdatasync = _mk_fsync('fdatasync')
    os.stat = _mk_stat('stat')
    os.lstat = _mk_stat('lstat')
    os.access = _mk_stat('access')
    os.listdir = sim_listdir
    os.scandir = sim_scandir
    time.time = _mk_clock('time', True)
    time.monotonic = _mk_clock('monotonic', False)
    time.perf_counter = _mk_clock('perf_counter', False)
    time.time_ns = sim_time_ns
    time.strftime = sim_strftime
    time.localtime = _mk_xtime('localtime')
    time.gmtime = _mk_xtime('gmtime')
    time.sleep = sim_sleep
    os.getpid = sim_getpid
    os.urandom = sim_urandom
    random._urandom = sim_urandom
    random.seed = sim_rseed
    os.cpu_count = sim_cpu_count
    import shutil
    import tempfile
    shutil._USE_CP_SENDFILE = False

    class NameSeq(tempfile._RandomNameSequence):
        @property
        def rng(self):
            pid = os.getpid()
            if pid != getattr(self, '_rng_pid', None):
                self._rng = random.Random(int.from_bytes(os.urandom(8), 'big'))
                self._rng_pid = pid
            return self._rng
    tempfile._RandomNameSequence = NameSeq
    tempfile._name_sequence = None
    import numpy.random.bit_generator as bg
    import secrets
    _orig_randbits = secrets.randbits
    secrets.randbits = sim_randbits
    if hasattr(bg, 'randbits'):
        bg.randbits = sim_randbits
    sys.addaudithook(_audit)


# ------------------------------------------------------------------------------------------------ process bodies
SEAMS = tuple(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)
              for f in ('proc.py', 'kernel.py', 'simpool.py', 'solver.py'))


def blame(e):
    """The function of the code under test an exception comes from, or None if it comes from the harness."""
    root = os.path.realpath(os.environ.get('PLASCHEM_REPO', '/repo'))
    here = os.path.dirname(os.path.abspath(__file__)) + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        name = os.path.abspath(f.filename)
        if name in SEAMS:
            continue
        if name.startswith(here):
            return None
        for pkg in ('plaschem', 'pygmo_fwork'):
            if os.path.realpath(name).startswith(os.path.join(root, pkg) + os.sep):
                return f.name
    return None


def run_body(sock, cfg, fn):
    """Body of a freshly forked simulated process; never returns."""
    global CUR
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_CPU, (cfg.get('cpu_limit', 100), cfg.get('cpu_limit', 100) + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        P = SimProc(sock, cfg)
        try:
            P.start()
        except (EOFError, ConnectionError):     # the kernel is gone
            os._exit(1)
        CUR = P
        sys.stdout = _real['open']('/dev/null', 'w')
        try:
            out = ('ok', fn(P))
        except Violation as v:
            out = ('violation', (v.sig, v.msg, v.data))
        except Unsupported as e:
            out = ('unsupported', str(e))
        except BaseException as e:   # harness bodies catch what the code under test may raise
            out = ('raised', (blame(e), type(e).__name__, '%s\n%s' % (str(e)[:200], ''.join(
                traceback.format_exception(e))[-6000:])))
        CUR = None
        if P.escaped:
            out = ('violation', ('escape', 'writes outside of the directories given: %s' % P.escaped[:3], None)) \
                if out[0] in ('ok',) else out
        send_msg(sock, ('done', pickle.dumps(out, protocol=4), P.op_label, P.k))
    except BaseException:
        code = 99
        try:
            sys.__stderr__.write(traceback.format_exc())
        except BaseException:
            pass
    finally:
        os._exit(code)


def fork_child(fn, cfg=None):
    """Fork a simulated child process from the current simulated process (memory is inherited, as with fork)."""
    P = CUR
    a, b = socket.socketpair()
    P.children += 1
    P.inside = True
    try:
        sys.stdout.flush()
        pid = _real['fork']()
        if pid == 0:
            a.close()
            globals()['CUR'] = None
            run_body(b, cfg or P.cfg, fn)
        b.close()
        send_msg(P.sock, ('spawn', P.children))
        socket.send_fds(P.sock, [b'x'], [a.fileno()])
        a.close()
        return recv_msg(P.sock)   # sim pid of the child
    finally:
        P.inside = False
