"""
Virtual replacements for the parts of the standard library through which hypershell touches the world:
threads, queues, the multiprocessing manager, child processes, time, uuids.  They are substituted *at the
standard-library level* while the package is imported and while it runs, so that the code under test is the
unmodified package, however it is organised internally.
"""
import collections
import datetime as _dt
import errno
import hashlib
import inspect
import itertools
import multiprocessing
import multiprocessing.managers
import os
import pickle
import queue as _queue
import random
import signal
import subprocess
import sys
import threading
import time as _time
import uuid

import sched
from sched import Kill, HarnessError, EPOCH

REAL = {
    'Thread': threading.Thread, 'Queue': _queue.Queue, 'JoinableQueue': multiprocessing.JoinableQueue,
    'BaseManager': multiprocessing.managers.BaseManager, 'Popen': subprocess.Popen,
    'sleep': _time.sleep, 'time': _time.time, 'monotonic': _time.monotonic, 'datetime': _dt.datetime,
    'uniform': random.uniform, 'random': random.random, 'uuid4': uuid.uuid4, 'signal': signal.signal, 'kill': os.kill,
    'Event': threading.Event, 'killpg': os.killpg, 'SimpleQueue': _queue.SimpleQueue,
    'current_thread': threading.current_thread,
    'perf_counter': _time.perf_counter, 'system': os.system, 'waitpid': os.waitpid,
}


def W():
    return sched.WORLD


def vthread():
    w = sched.WORLD
    return w.cur if w is not None else None


# ---------------------------------------------------------------------------------------- time
def v_time():
    w = sched.WORLD
    return REAL['time']() if w is None else w.now


def v_monotonic():
    w = sched.WORLD
    return REAL['monotonic']() if w is None else w.now


def v_sleep(sec):
    w = sched.WORLD
    if w is None or w.cur is None:
        return REAL['sleep'](sec) if w is None else None
    w.point('sleep', f'{sec:g}')
    if sec < 0:
        raise ValueError('sleep length must be non-negative')
    w.block(lambda: False, w.now + max(sec, 1e-6), 'sleep')


def v_uniform(a, b):
    w = sched.WORLD
    if w is None:
        return REAL['uniform'](a, b)
    return a + (b - a) * w.chance


def v_random():
    w = sched.WORLD
    return REAL['random']() if w is None else w.chance


def v_uuid4():
    w = sched.WORLD
    if w is None:
        return REAL['uuid4']()
    w.uid += 1
    return uuid.UUID(bytes=hashlib.md5(b'%d' % w.uid).digest(), version=4)


class _VMeta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, REAL['datetime'])

    def __subclasscheck__(cls, sub):
        return issubclass(sub, REAL['datetime'])


class VDateTime(_dt.datetime, metaclass=_VMeta):
    @classmethod
    def now(cls, tz=None):
        w = sched.WORLD
        return cls.fromtimestamp(REAL['time']() if w is None else w.time(), tz)

    @classmethod
    def utcnow(cls):
        return cls.now(_dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


VDateTime.__name__ = 'datetime'


# ------------------------------------------------------------------------------------- threads
class VThread:
    """Stand-in for threading.Thread."""
    _counter = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or 'Thread'
        self.daemon = bool(daemon)
        self._vt = None
        self.ident = None
        self.native_id = None

    def start(self):
        w = W()
        if w is None or w.cur is None:
            raise HarnessError('thread started outside of a world')
        if self._vt is not None:
            raise RuntimeError('threads can only be started once')
        w.point('start', self.name)
        n = sum(1 for t in w.threads if t.name.startswith(f'{w.cur.proc.name}/{self.name}'))
        self._vt = w.spawn(f'{w.cur.proc.name}/{self.name}' + (f'#{n}' if n else ''), w.cur.proc, self._boot, owner=self)
        self.ident = id(self._vt)

    def _boot(self):
        self.run()

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def is_alive(self):
        return self._vt is not None and not self._vt.done

    def join(self, timeout=None):
        w = W()
        if self._vt is None:
            raise RuntimeError('cannot join thread before it is started')
        if w is None or w.cur is None:
            return
        if w.cur is self._vt:
            raise RuntimeError('cannot join current thread')
        w.point('join', self.name)
        vt = self._vt
        w.block(lambda: vt.done, None if timeout is None else w.now + max(timeout, 0), f'join {self.name}')

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name

    def setDaemon(self, v):
        self.daemon = v

    def isDaemon(self):
        return self.daemon


class VEvent:
    def __init__(self):
        self._f, self._sets = False, 0

    def is_set(self):
        return self._f
    isSet = is_set

    def set(self):
        w = W()
        if w is not None:
            w.point('ev.set')
        self._f = True
        self._sets += 1

    def clear(self):
        self._f = False

    def wait(self, timeout=None):
        w = W()
        w.point('ev.wait')
        n = self._sets          # whoever waits when it is set is woken, even if it is cleared at once
        return w.block(lambda: self._f or self._sets > n, None if timeout is None else w.now + timeout, 'event')


class VLock:
    """threading.Lock: blocks virtually when contended (no scheduling point otherwise)."""
    _reentrant = False

    def __init__(self):
        self._owner, self._count = None, 0

    def _me(self):
        t = vthread()
        return t if t is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._count and not (self._reentrant and self._owner is me):
            if not blocking:
                return False
            w = W()
            if w is None or w.cur is None:
                raise HarnessError('lock contended outside of a world')
            if not w.block(lambda: not self._count, None if timeout is None or timeout < 0 else w.now + timeout, 'lock'):
                return False
        self._owner, self._count = me, self._count + 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError('release unlocked lock')
        self._count -= 1
        if not self._count:
            self._owner = None

    def locked(self):
        return self._count > 0

    def _is_owned(self):
        return self._count > 0 and self._owner is self._me()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class VRLock(VLock):
    _reentrant = True

    def release(self):
        if self._owner is not self._me():
            raise RuntimeError('cannot release un-acquired lock')
        super().release()


class VCondition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else VRLock()
        self.acquire, self.release = self._lock.acquire, self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *exc):
        return self._lock.__exit__(*exc)

    def wait(self, timeout=None):
        w = W()
        if w is None or w.cur is None:
            raise HarnessError('condition wait outside of a world')
        me = []
        self._waiters.append(me)
        n = getattr(self._lock, '_count', 1)
        for _ in range(n):
            self._lock.release()
        ok = w.block(lambda: bool(me), None if timeout is None else w.now + max(timeout, 0), 'condition')
        if not ok and me in self._waiters:
            self._waiters = [x for x in self._waiters if x is not me]
        for _ in range(n):
            self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        w = W()
        end = None if timeout is None else w.now + timeout
        r = predicate()
        while not r:
            left = None if end is None else end - w.now
            if left is not None and left <= 0:
                break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        for me in self._waiters[:n]:
            me.append(1)
        del self._waiters[:n]

    def notify_all(self):
        self.notify(len(self._waiters))
    notifyAll = notify_all


def v_current_thread():
    t = vthread()
    if t is None or t.owner is None:
        return REAL['current_thread']()
    return t.owner


# -------------------------------------------------------------------------------------- queues
class VQueue:
    """queue.Queue with virtual blocking."""
    _shared = False

    def __class_getitem__(cls, item):
        return cls

    def __init__(self, maxsize=0, *a, **k):
        self.maxsize = maxsize
        self._q = collections.deque()
        self._unfinished = 0
        w = W()
        self._name = 'q' if w is None else self._newname(w)
        self.dead = False

    def _newname(self, w):
        n = w.objnames['q'] = w.objnames.get('q', 0) + 1
        return f'q{n}'

    def _enc(self, x):
        return x

    def _dec(self, x):
        return x

    def _check(self):
        if self.dead:
            raise EOFError('connection lost')

    @staticmethod
    def _sensible(timeout):
        if timeout is not None and timeout < 0:
            raise ValueError("'timeout' must be a non-negative number")

    def _look(self):
        w = W()
        if w is not None and w.cur is not None:
            w.point('look', self._name)

    def qsize(self):
        self._look()
        return len(self._q)

    def empty(self):
        self._look()
        return not self._q

    def full(self):
        self._look()
        return self._full()

    def _full(self):
        return 0 < self.maxsize <= len(self._q)

    def put(self, item, block=True, timeout=None):
        w = W()
        data = self._enc(item)
        if w is None or w.cur is None:
            self._q.append(data)
            self._unfinished += 1
            return
        w.point('put', self._name)
        self._check()
        if self.maxsize > 0 and block:
            self._sensible(timeout)
        if self._full():
            if not block:
                raise _queue.Full
            ok = w.block(lambda: self.dead or not self._full(),
                         None if timeout is None else w.now + max(timeout, 0), f'put {self._name}')
            self._check()
            if not ok:
                w.note('full', self._name)
                raise _queue.Full
        self._q.append(data)
        self._unfinished += 1
        w.note('put', self._name, len(self._q))
        if self._shared:
            w.qlog.append(('put', self._name, w.cur.proc.name, w.now, self._dec(data), w.cur.name))

    def get(self, block=True, timeout=None):
        w = W()
        if w is None or w.cur is None:
            return self._dec(self._q.popleft())
        w.point('get', self._name)
        self._check()
        if block:
            self._sensible(timeout)
        if not self._q:
            if not block:
                raise _queue.Empty
            ok = w.block(lambda: self.dead or bool(self._q),
                         None if timeout is None else w.now + max(timeout, 0), f'get {self._name}')
            self._check()
            if not ok:
                raise _queue.Empty
        x = self._q.popleft()
        w.note('got', self._name, len(self._q))
        x = self._dec(x)
        if self._shared:
            w.qlog.append(('get', self._name, w.cur.proc.name, w.now, x, w.cur.name))
        return x

    def put_nowait(self, item):
        return self.put(item, block=False)

    def get_nowait(self):
        return self.get(block=False)

    def task_done(self):
        if self._unfinished <= 0:
            raise ValueError('task_done() called too many times')
        self._unfinished -= 1

    def join(self):
        w = W()
        w.point('qjoin', self._name)
        w.block(lambda: self._unfinished == 0, None, 'qjoin')


class VMPQueue(VQueue):
    """multiprocessing.JoinableQueue: items are pickled."""
    _shared = True

    def __init__(self, maxsize=0, *, ctx=None):
        super().__init__(maxsize if maxsize and maxsize > 0 else 0)

    def _newname(self, w):
        n = w.objnames['mp'] = w.objnames.get('mp', 0) + 1
        return ['scheduled', 'completed', 'heartbeat', 'confirmed'][(n - 1) % 4] + (f'{(n - 1) // 4}' if n > 4 else '')

    def _enc(self, x):
        return pickle.dumps(x)

    def _dec(self, x):
        return pickle.loads(x)

    @staticmethod
    def _sensible(timeout):
        pass

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class Proxy:
    """Remote handle on a queue of a server: dies with it."""
    _methods = ('put', 'get', 'put_nowait', 'get_nowait', 'task_done', 'qsize', 'empty', 'full', 'join')

    def __init__(self, server, obj):
        self._server, self._obj = server, obj

    def __getattr__(self, name):
        if name.startswith('_'):
            raise AttributeError(name)
        srv, obj = self._server, self._obj
        method = getattr(obj, name)

        def call(*a, **k):
            if srv.closed:
                raise ConnectionResetError(errno.ECONNRESET, 'Connection reset by peer')
            w = W()
            t = w.cur if w is not None else None
            if t is None or name not in ('get', 'put'):
                return method(*a, **k)
            bound = inspect.signature(method).bind(*a, **k).arguments
            begun, timeout = w.now, bound.get('timeout')

            def rest():
                if bound.get('block', True):
                    left = None if timeout is None else timeout - (w.now - begun)
                    try:
                        method(**{**bound, 'timeout': left})
                    except (EOFError, _queue.Empty, _queue.Full):
                        pass
            t.remote = rest
            try:
                return method(*a, **k)
            finally:
                t.remote = None
                if t.state != 'dead' and t.proc.frozen > w.now:
                    w.block(lambda: False, t.proc.frozen, 'frozen')
        return call


class FakeManager:
    """multiprocessing.managers.BaseManager over an in-process network."""
    _registry = {}

    def __init__(self, address=None, authkey=None, serializer='pickle', ctx=None, **kw):
        self._address, self._authkey = address, authkey
        self.closed = False
        self._state = 'initial'
        self._queues = []

    @classmethod
    def register(cls, typeid, callable=None, proxytype=None, exposed=None, method_to_typeid=None, create_method=True):
        w = W()
        if w is not None:
            w.undo.append((cls, '_registry', cls.__dict__.get('_registry')))
        if '_registry' not in cls.__dict__ or w is not None:
            cls._registry = dict(cls._registry)
        cls._registry[typeid] = callable

        def temp(self, *a, **k):
            return self._ask(typeid)
        temp.__name__ = typeid
        if create_method:
            if w is not None:
                w.undo.append((cls, typeid, cls.__dict__.get(typeid)))
            setattr(cls, typeid, temp)

    def start(self, initializer=None, initargs=()):
        w = W()
        w.point('listen', str(self._address))
        port = self._address[1]
        if port in w.net and not w.net[port].closed:
            raise OSError(errno.EADDRINUSE, 'Address already in use')
        self._table = {k: v for k, v in type(self)._registry.items() if v is not None}
        w.net[port] = self
        w.cur.proc.servers.append(self)
        self._state = 'started'

    def connect(self):
        w = W()
        w.point('connect', str(self._address))
        w.connects.append((w.now, w.cur.proc.name if w.cur else None))
        srv = w.net.get(self._address[1])
        if srv is None or srv.closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if srv._authkey != self._authkey:
            raise multiprocessing.AuthenticationError('digest sent was rejected')
        self._remote = srv
        self._state = 'connected'

    def _ask(self, typeid):
        srv = self._remote
        if srv.closed:
            raise ConnectionRefusedError(errno.ECONNREFUSED, 'Connection refused')
        if typeid not in srv._table:
            raise multiprocessing.managers.RemoteError(f'KeyError: {typeid}')
        obj = srv._table[typeid]()
        if obj not in srv._queues:
            srv._queues.append(obj)
        return Proxy(srv, obj)

    def down(self):
        self.closed = True
        for q in self._queues:
            q.dead = True
        w = W()
        if w is not None and w.net.get(self._address[1]) is self:
            del w.net[self._address[1]]

    def shutdown(self):
        w = W()
        t = w.cur if w else None
        if t is not None and t.state == 'dead':
            return
        if w is not None:
            w.point('shutdown')
        if self._state != 'started':
            raise AttributeError('shutdown')
        self.down()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.shutdown()

    @property
    def address(self):
        return self._address


# --------------------------------------------------------------------------------- child processes
class Script:
    """How a virtual process behaves."""
    __slots__ = ('duration', 'status', 'on', 'out', 'err', 'kind', 'program')

    def __init__(self, duration=1.0, status=0, on=None, out=b'', err=b'', kind='task', program=None):
        self.duration = duration          # None: forever
        self.status = status
        # signal -> ('die', delay, status) / ('ignore',)
        self.on = on or {}
        self.out, self.err = out, err
        self.kind = kind
        self.program = program            # (name, copy of the package, main): the process is this program


class VPopen:
    """subprocess.Popen of a scripted process."""

    def __class_getitem__(cls, item):
        return cls

    def __new__(cls, args, *a, shell=False, stdout=None, **kw):
        w = W()
        if w is not None and shell and stdout == subprocess.PIPE and getattr(w.scenario, 'real_shell', False):
            return REAL['Popen'](args, *a, shell=shell, stdout=stdout, **kw)       # a command inside a template pattern
        return object.__new__(cls)

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, **kw):
        w = W()
        if w is None or w.behaviour is None:
            raise HarnessError('process started outside of a world')
        w.point('spawn', '')
        self.args = args
        self.returncode = None
        # the checks the real one performs before a child exists
        for s in (stdin, stdout, stderr):
            if s is not None and not isinstance(s, int):
                s.fileno()
        flat = [args] if isinstance(args, (str, bytes)) else list(args)
        if not flat:
            raise IndexError('list index out of range')
        for a in flat:
            if not isinstance(a, (str, bytes, os.PathLike)):
                raise TypeError(f'expected str, bytes or os.PathLike object, not {type(a).__name__}')
            if isinstance(a, str):
                b = os.fsencode(a)
            else:
                b = os.fspath(a) if not isinstance(a, bytes) else a
                b = os.fsencode(b)
            if b'\0' in b:
                raise ValueError('embedded null byte')
            if len(b) > 131071:
                raise OSError(errno.E2BIG, 'Argument list too long')
        if env is not None:
            for k, v in env.items():
                kb, vb = os.fsencode(k), os.fsencode(v)
                if b'=' in kb:
                    raise ValueError('illegal environment variable name')
                if b'\0' in kb or b'\0' in vb:
                    raise ValueError('embedded null byte')
                if len(kb) + len(vb) + 1 > 131071:
                    raise OSError(errno.E2BIG, 'Argument list too long')
        if cwd is not None and not os.path.isdir(cwd):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', cwd)
        sc = w.behaviour(args, env, w.cur.proc)
        if isinstance(sc, BaseException):
            raise sc
        self.script = sc
        w.pid += 1
        self.pid = w.pid
        self.world = w
        self.proc = w.cur.proc
        self.env = dict(env) if env is not None else None
        self.cwd = cwd
        self.start_time = w.now
        self.end_time = None
        self.signals = []
        self._fds = []
        for s, data in ((stdout, sc.out), (stderr, sc.err)):
            if data and s is not None and s not in (subprocess.DEVNULL,):
                fd = s if isinstance(s, int) else s.fileno()
                self._fds.append((os.dup(fd), data))
        w.vprocs[self.pid] = self
        self.proc.children.append(self)
        w.log.append(('spawn', self))
        self.program = None
        if sc.program is not None:
            self.program = w.add_proc(*sc.program)
            self.program.popen = self
        elif sc.duration is not None:
            w.at(w.now + sc.duration, lambda: self._finish(sc.status))

    def _finish(self, status):
        if self.returncode is None and self.end_time is None:
            self.end_time = self.world.now
            self._status = status
            for fd, data in self._fds:
                os.write(fd, data)
                os.close(fd)
            self._fds = []
            self.world.log.append(('exit', self))

    def poll(self):
        if self.returncode is None and self.end_time is not None:
            self.returncode = self._status
        return self.returncode

    def wait(self, timeout=None):
        w = W()
        w.point('wait', '')
        if self.poll() is not None:
            return self.returncode
        ok = w.block(lambda: self.end_time is not None, None if timeout is None else w.now + max(timeout, 0), 'wait')
        if not ok:
            raise subprocess.TimeoutExpired(self.args, timeout)
        return self.poll()

    def communicate(self, input=None, timeout=None):
        self.wait(timeout)
        return None, None

    def send_signal(self, sig):
        w = W()
        w.point('signal', '')
        if self.poll() is not None:
            return
        sig = int(sig)
        self.signals.append((sig, w.now))
        w.log.append(('signal', self, sig, w.now))
        if self.program is not None:
            w.fire(f'signal{sig}', lambda: deliver(self.program, sig))
            return
        r = self.script.on.get(sig)
        if sig == signal.SIGKILL and r is None:
            r = ('die', 0, -9)
        if r is None:
            r = ('die', 0, -sig)
        if r[0] == 'die':
            w.at(w.now + r[1], lambda: self._finish(r[2]))

    def terminate(self):
        self.send_signal(signal.SIGTERM)

    def kill(self):
        self.send_signal(signal.SIGKILL)

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.wait()

    def __repr__(self):
        return f'<VPopen {self.args!r}>'


def deliver(proc, signum):
    """Deliver a signal to a simulated program."""
    if proc is None or not proc.alive:
        return
    h = proc.handlers.get(signum)
    if callable(h):
        proc.inst.install()
        proc.world.sys_inst = proc.inst
        h(signum, None)
    elif h == signal.SIG_IGN:
        pass
    else:
        proc.killed_by = int(signum)
        proc.world.kill(proc)


def v_kill(pid, sig):
    w = W()
    if w is None:
        return REAL['kill'](pid, sig)
    p = w.vprocs.get(pid)
    if p is None:
        raise HarnessError(f'os.kill on a real process: {pid} {sig}')
    if p.poll() is not None and sig != 0:
        raise ProcessLookupError(errno.ESRCH, 'No such process')
    if sig:
        p.send_signal(sig)


def v_signal(signum, handler):
    t = vthread()
    if t is None:
        if sched.WORLD is None:
            return REAL['signal'](signum, handler)
        return None
    old = t.proc.handlers.get(signum, signal.SIG_DFL)
    t.proc.handlers[signum] = handler
    return old


PATCHES = [
    (threading, 'Thread', VThread), (threading, 'Event', VEvent),
    (threading, 'Lock', VLock), (threading, 'RLock', VRLock), (threading, 'Condition', VCondition),
    (_queue, 'Queue', VQueue), (_queue, 'SimpleQueue', VQueue), (multiprocessing, 'JoinableQueue', VMPQueue), (multiprocessing, 'Queue', VMPQueue),
    (multiprocessing.managers, 'BaseManager', FakeManager),
    (subprocess, 'Popen', VPopen),
    (_time, 'sleep', v_sleep), (_time, 'time', v_time), (_time, 'monotonic', v_monotonic),
    (_dt, 'datetime', VDateTime),
    (random, 'uniform', v_uniform), (random, 'random', v_random), (uuid, 'uuid4', v_uuid4),
    (signal, 'signal', v_signal), (os, 'kill', v_kill), (os, 'killpg', v_kill),
    (threading, 'current_thread', v_current_thread),
]
_SAVED = None


def patch():
    """Substitute the virtual versions in the standard library modules."""
    global _SAVED
    if _SAVED is None:
        _SAVED = [(m, n, getattr(m, n)) for m, n, _ in PATCHES]
        for m, n, v in PATCHES:
            setattr(m, n, v)


def unpatch():
    global _SAVED
    if _SAVED is not None:
        for m, n, v in _SAVED:
            setattr(m, n, v)
        _SAVED = None
