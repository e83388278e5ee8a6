"""The kernel of the simulator: one World runs simulated processes, one at a time, and decides everything.

* which process continues (seeded policy, or a recorded list of deviations from "keep running the current one"),
* which fault hits which point (a plan: point key -> fault; a point key is "process|operation|index within it"),
* simulated time, entropy, process ids.

A World lives in the case driver, which is not a simulated process itself.
"""
import collections
import errno
import hashlib
import os
import pickle
import random
import select
import signal
import socket
import time

from . import proc as proc_mod
from .proc import recv_msg, send_msg, Violation, _real

ERRNO = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES, 'EMFILE': errno.EMFILE,
         'EROFS': errno.EROFS, 'EDQUOT': errno.EDQUOT}
WRITE_KINDS = {'openw', 'mkdir', 'write', 'rename', 'remove', 'rmdir', 'truncate', 'chmod', 'utime', 'link', 'symlink',
               'fsync'}
SOLVE_FAULTS = {'sol_fail', 'sol_value', 'sol_mem', 'sol_int', 'sol_exc'}


class HarnessError(Exception):
    pass


class _Proc:
    __slots__ = ('id', 'name', 'sock', 'pid', 'state', 'pending', 'out', 'parent', 'nkids', 'prio', 'last')


class World:
    """`case` keys used: seed, sched (policy dict or {'dev': [[step, procname], ...]}), faults ({key: spec}),
    bufsize, listseed, cpus, clock_jumps, solver."""
    MAX_STEPS = 400000

    def __init__(self, case, scratch):
        self.case = case
        self.scratch = scratch
        self.rng = random.Random('world|%s|%s' % (case.get('seed', 0), case.get('world', 0)))
        sched = case.get('sched') or {'policy': 'serial'}
        self.dev = {int(s): p for s, p in sched['dev']} if 'dev' in sched else None
        self.policy = sched
        self.srng = random.Random('sched|%s|%s' % (case.get('seed', 0), sched.get('seed', 0)))
        self.faults = dict(case.get('faults') or {})
        self.fired = []               # [(key, kind of point, fault kind)]
        self.points = []              # [(key, kind, path, n)] of all faultable points met
        self.devs_made = []           # deviations from the default schedule actually taken
        self.step = 0
        self.switches = 0
        self.sig = hashlib.blake2b(digest_size=8)   # identifies the interleaving
        self.clock = 1.7e9 + self.rng.random() * 1e6
        self.mono = self.rng.random() * 1e4
        self.t0 = self.mono
        self.jumps = 0
        self.log = []                 # records emitted by processes: (procname, tag, object)
        self.trace = collections.deque(maxlen=case.get('trace_len', 60))
        self.sticky = {}              # procname -> (op label, errno) disk that stays full within an operation
        self.next_pid = 1001
        self.record_points = case.get('record_points', True)
        self.state_sigs = set()
        self._dead_all = False

    # ------------------------------------------------------------------ public API for case drivers
    def cfg(self):
        c = self.case
        return dict(scratch=self.scratch, bufsize=c.get('bufsize', 8192), listseed=c.get('listseed', 0),
                    cpus=c.get('cpus', 4), solver=c.get('solver') or {}, cpu_limit=c.get('cpu_limit', 100))

    def call(self, name, fn):
        """Runs a single process to its end; returns its value, raises Violation / Crashed."""
        return self.run([(name, fn)])[name].value()

    def run(self, bodies):
        """Runs several processes concurrently (they start together).  Returns {name: Outcome}."""
        self.procs = []
        self.kills = set()
        self.queues = {}
        self.current = None
        self._dead_all = False
        try:
            for name, fn in bodies:
                self._fork_root(name, fn)
            self._loop()
        finally:
            self._cleanup()
        return {p.name: Outcome(p.name, p.out, self) for p in self.procs}

    # ------------------------------------------------------------------ process management
    def _fork_root(self, name, fn):
        a, b = socket.socketpair()
        pid = _real['fork']()
        if pid == 0:
            a.close()
            for p in self.procs:
                p.sock.close()
            proc_mod.run_body(b, self.cfg(), fn)
        b.close()
        self._add(a, name, None)

    def _add(self, sock, name, parent):
        p = _Proc()
        p.sock, p.name, p.parent = sock, name, parent
        p.id = len(self.procs)
        p.state, p.out, p.pending, p.nkids, p.last = 'run', None, None, 0, ''
        p.prio = self.srng.random()
        self.procs.append(p)
        m = self._recv(p)
        assert m[0] == 'start', m
        p.pid = m[1]
        p.state, p.pending = 'ready', ('start',)
        return p

    def _recv(self, p):
        r, _, _ = select.select([p.sock], [], [], 400)
        if not r:
            raise HarnessError('process %s does not answer' % p.name)
        try:
            return recv_msg(p.sock)
        except (EOFError, ConnectionResetError):
            return ('eof',)

    def _cleanup(self):
        for p in self.procs:
            if p.state != 'done':
                try:
                    os.kill(p.pid, signal.SIGKILL)
                except (ProcessLookupError, TypeError):
                    pass
            p.sock.close()
        while True:
            try:
                if os.waitpid(-1, os.WNOHANG)[0] == 0:
                    # children that were asked to die may need a moment
                    os.waitpid(-1, 0)
            except ChildProcessError:
                break

    def _kill(self, p, how='killed'):
        if p.state == 'done':
            return
        try:
            os.kill(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.state, p.out = 'done', (how, None)

    # ------------------------------------------------------------------ main loop
    def _candidates(self):
        c = []
        for p in self.procs:
            if p.state == 'ready':
                c.append(p)
            elif p.state == 'blocked' and self._cond(p):
                c.append(p)
        return c

    def _cond(self, p):
        m = p.pending
        if m[0] == 'qget':
            q = self.queues[m[1]]
            return bool(q[0]) or q[1]
        if m[0] == 'waitexit':
            return all(x.state == 'done' for x in self.procs if x.name in m[1])
        return True

    def _loop(self):
        while True:
            if all(p.state == 'done' for p in self.procs):
                return
            cand = self._candidates()
            if not cand:
                raise Violation('deadlock', 'every process is blocked: %s'
                                % [(p.name, p.pending[0]) for p in self.procs if p.state != 'done'])
            p = self._choose(cand)
            self.step += 1
            if self.step > self.MAX_STEPS:
                raise Violation('no-progress', 'more than %d steps' % self.MAX_STEPS)
            self._advance_clock()
            if p is not self.current:
                self.switches += 1
                self.current = p
                self.sig.update(b'|' + p.name.encode())
            self._grant(p)

    def _choose(self, cand):
        default = self.current if self.current in cand else cand[0]
        if len(cand) == 1:
            return default
        if self.dev is not None:
            want = self.dev.get(self.step)
            ch = next((p for p in cand if p.name == want), default)
        else:
            ch = self._policy_choice(cand, default)
        if ch is not default:
            self.devs_made.append([self.step, ch.name])
        return ch

    def _policy_choice(self, cand, default):
        pol = self.policy.get('policy', 'serial')
        if pol == 'serial':
            return default
        r = self.srng
        if pol == 'random':
            return r.choice(cand) if r.random() < self.policy.get('p', 0.2) else default
        if pol == 'writes':   # switch mostly around changes of the shared directory tree
            kind = default.pending[1] if default.pending and default.pending[0] in ('pt', 'y') else ''
            hot = kind in WRITE_KINDS or default.last in WRITE_KINDS or kind == 'stat'
            return r.choice(cand) if r.random() < (self.policy.get('p', 0.5) if hot else 0.02) else default
        if pol == 'pct':      # random priorities with a few change points
            if not hasattr(self, '_chg'):
                n, d = self.policy.get('len', 1500), self.policy.get('d', 3)
                self._chg = sorted(r.randrange(n) for _ in range(d))
            while self._chg and self.step >= self._chg[0]:
                self._chg.pop(0)
                default.prio = -r.random()
            return max(cand, key=lambda p: p.prio)
        if pol == 'rr':       # lockstep
            i = (self.current.id if self.current else -1)
            later = [p for p in cand if p.id > i]
            return (later or cand)[0]
        if pol == 'stall':    # one process runs much slower than the others
            victim = self.policy.get('victim', 0)
            others = [p for p in cand if p.id % 5 != victim]
            if others and r.random() < 0.97:
                return default if default in others and r.random() < 0.7 else r.choice(others)
            return r.choice(cand)
        raise HarnessError('policy %s' % pol)

    def _advance_clock(self):
        dt = self.rng.expovariate(500.0)
        self.mono += dt
        self.clock += dt
        if self.case.get('clock_jumps') and self.rng.random() < 0.01:
            self.clock += self.rng.choice([-1, 1]) * self.rng.random() * 10 ** self.rng.randint(1, 6)
            self.jumps += 1

    def _reply(self, p, obj):
        try:
            send_msg(p.sock, obj)
        except (BrokenPipeError, ConnectionResetError):
            pass

    def _grant(self, p):
        m, p.pending = p.pending, None
        p.state = 'run'
        kind = m[0]
        rep = ('go',)
        if kind == 'start':
            simpid = self.next_pid
            self.next_pid += 1
            rep = (p.name, simpid, self.rng.getrandbits(60))
        elif kind == 'pt':
            _, pk, path, n, op, k = m
            rep = self._decide(p, pk, path, n, op, k)
            if rep[0] == 'crash':
                self.trace.append('%s %s %s CRASH' % (p.name, pk, path))
                self._reply(p, rep)
                self._expect_death(p)
                if self.case.get('crash_all', True):
                    for x in self.procs:
                        self._kill(x, 'crashed')
                return
            p.last = pk
            self.sig.update(('%s:%s' % (pk, path)).encode())
            self.trace.append('%s %s %s%s' % (p.name, pk, path, '' if rep[0] == 'go' else ' -> %s' % (rep,)))
        elif kind == 'y':
            p.last = m[1]
            self.sig.update(b's')
        elif kind == 'time':
            rep = (self.clock, self.mono)
        elif kind == 'sleep':
            self.mono += m[1]
            self.clock += m[1]
        elif kind == 'qget':
            q = self.queues[m[1]]
            rep = ('item', q[0].popleft()) if q[0] else ('closed',)
        elif kind == 'waitexit':
            rep = ('go',)
        self._reply(p, rep)
        self._until_next(p)

    def _expect_death(self, p):
        m = self._recv(p)
        while m[0] == 'emit':
            m = self._recv(p)
        if m[0] != 'eof':
            raise HarnessError('process survived its crash: %r' % (m,))
        p.state, p.out = 'done', ('crashed', None)

    def _until_next(self, p):
        """Let p run up to its next request that needs a decision."""
        while True:
            m = self._recv(p)
            k = m[0]
            if k == 'emit':
                self.log.append((p.name, m[1], m[2]))
            elif k == 'spawn':
                _, fds, _, _ = socket.recv_fds(p.sock, 1, 1)
                c = self._add(socket.socket(fileno=fds[0]), '%s.w%d' % (p.name, m[1]), p)
                self._reply(p, c.name)
            elif k == 'qnew':
                self.queues[m[1]] = [collections.deque(), False]
                self._reply(p, None)
            elif k == 'qput':
                self.queues[m[1]][0].append(m[2])
                self._reply(p, None)
                # handing over work is a place where another process may run first
                self.sig.update(b'q')
            elif k == 'qclose':
                self.queues[m[1]][1] = True
                self._reply(p, None)
            elif k == 'qtry':
                q = self.queues[m[1]]
                self._reply(p, ('item', q[0].popleft()) if q[0] else ('empty',))
            elif k == 'killp':
                for x in self.procs:
                    if x.name in m[1]:
                        self._kill(x)
                self._reply(p, None)
            elif k == 'alive':
                self._reply(p, [x.state != 'done' for x in self.procs if x.name in m[1]])
            elif k == 'done':
                p.state, p.out = 'done', pickle.loads(m[1])
                return
            elif k == 'eof':
                st = self._status(p)
                p.state, p.out = 'done', ('cpu' if st == signal.SIGXCPU or st == signal.SIGKILL else 'died', st)
                return
            else:
                p.pending = m
                p.state = 'blocked' if k in ('qget', 'waitexit') else 'ready'
                return

    def _status(self, p):
        try:
            _, st = os.waitpid(p.pid, 0)
            return os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
        except ChildProcessError:
            return None

    # ------------------------------------------------------------------ faults
    def _decide(self, p, kind, path, n, op, k):
        key = '%s|%s|%d' % (p.name, op, k)
        if self.record_points:
            self.points.append((key, kind, path, n))
        stick = self.sticky.get(p.name)
        if stick and stick[0] == op and kind in ('write', 'openw', 'mkdir'):   # a full disk
            return ('err', stick[1])
        f = self.faults.get(key)
        if f is None:
            return ('go',)
        fk = f['f']
        if fk in ('crash', 'torn'):
            frac = f.get('frac', 0.0) if kind == 'write' else 0.0
            self.fired.append((key, kind, 'crash-torn' if frac else 'crash'))
            return ('crash', frac)
        if fk == 'int':
            self.fired.append((key, kind, 'interrupt'))
            return ('int',)
        if kind == 'solve':
            if fk in SOLVE_FAULTS:
                self.fired.append((key, kind, fk))
                return ('sol', fk)
            return ('go',)
        if fk in SOLVE_FAULTS:
            return ('go',)
        if fk == 'short' and kind == 'write':
            self.sticky[p.name] = (op, ERRNO['ENOSPC'])
            self.fired.append((key, kind, 'short-write'))
            return ('short', ERRNO['ENOSPC'], f.get('frac', 0.5))
        e = ERRNO.get(f.get('e', 'ENOSPC'), errno.EIO)
        if kind not in WRITE_KINDS and e in (errno.ENOSPC, errno.EROFS, errno.EDQUOT):
            e = errno.EIO
        if f.get('sticky'):
            self.sticky[p.name] = (op, e)
        self.fired.append((key, kind, 'disk-%s%s' % (errno.errorcode[e], '-persistent' if f.get('sticky') else '')))
        return ('err', e)

    # ------------------------------------------------------------------ results
    def emitted(self, tag=None):
        return [(n, t, pickle.loads(b)) for n, t, b in self.log if tag is None or t == tag]

    def stats(self):
        return dict(steps=self.step, switches=self.switches, sim_s=self.mono - self.t0, points=len(self.points),
                    fired=[x[2] for x in self.fired] + [pickle.loads(b) for _, t, b in self.log if t == 'fault'],
                    sig=self.sig.hexdigest(), jumps=self.jumps,
                    devs=len(self.devs_made))


class Crashed(Exception):
    pass


FAULTY = ('OSError', 'PermissionError', 'KeyboardInterrupt', 'MemoryError', 'RuntimeError', 'ValueError')


class Outcome:
    def __init__(self, name, out, world):
        self.name, self.out, self.world = name, out, world
        self.status = out[0]

    @property
    def crashed(self):
        return self.status in ('crashed', 'killed')

    def value(self):
        s, v = self.out
        if s == 'ok':
            return v
        if s == 'violation':
            raise Violation(*v)
        if s == 'cpu':
            raise Violation('no-progress', 'process %s used up its CPU time without finishing' % self.name)
        if s == 'raised':
            where, what, text = v
            # what the harness does not expect to be raised must not be, unless it might be a fault passed on
            if where is None or what in FAULTY and (self.world.fired or any(t == 'fault' for _, t, _ in self.world.log)):
                raise HarnessError('%s: %s' % (self.name, text))
            raise Violation('raises-%s-in-%s' % (what, where), text)
        if s in ('crashed', 'killed'):
            raise Crashed(self.name)
        if s == 'unsupported':
            raise HarnessError('unsupported by the simulator: %s' % v)
        raise HarnessError('%s: %s: %s' % (self.name, s, v))
