"""
Controlled scheduler: runs the real hypershell code on virtual threads, processes and time.

Every thread of every simulated program is a greenlet, only one runs at a time, and it can only be
switched at *points* (queue operations, SQL statements outside a transaction, thread start/join, sleeps,
process start/wait).  At each point a Chooser may pick an alternative to the default (delay this thread, stall
it for some virtual seconds, kill its process, fire a pending external event, inject a fault).
An execution is a function of (scenario, policy, {point index: alternative}); it is fully deterministic.
"""
import collections
import hashlib
import heapq
import os
import greenlet

EPOCH = 1_700_000_000.0
TICK = 2e-6


class Kill(BaseException):
    """Thrown into a greenlet to end it (death of its process)."""


class HarnessError(BaseException):
    """The harness itself failed: never a verdict about hypershell."""

    def __init__(self, *a):
        super().__init__(*a)
        if WORLD is not None and WORLD.failed is None:
            WORLD.failed = self


WORLD = None          # the active world (None outside an execution)


def current():
    """The virtual thread that is running, or None."""
    w = WORLD
    return w.cur if w is not None else None


class Proc:
    """A simulated program (own copy of the hypershell package, own threads)."""

    def __init__(self, world, name, inst):
        self.world = world
        self.name = name
        self.inst = inst
        self.alive = True
        self.exit = None           # ('ok', value) / ('exc', exception) / ('killed', None)
        self.exit_time = None
        self.servers = []          # fake network servers owned by this process
        self.handlers = {}         # signal handlers registered
        self.children = []
        self.main = None
        self.popen = None          # the child process (of another program) that runs this program
        self.killed_by = 9
        self.frozen = 0.0          # suspended until then

    def gone(self):
        if self.popen is not None:
            how, what = self.exit
            self.popen._finish((what if isinstance(what, int) else 0) if how == 'ok' else 1 if how == 'exc' else -self.killed_by)

    def __repr__(self):
        return f'<{self.name}>'


class VT:
    """A virtual thread."""
    __slots__ = ('world', 'name', 'proc', 'g', 'done', 'pred', 'deadline', 'timed_out', 'seq', 'state', 'exc', 'owner', 'fn',
                 'nops', 'what', 'remote', 'pending')

    def __init__(self, world, name, proc, fn):
        self.world, self.name, self.proc, self.fn = world, name, proc, fn
        self.done = False
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.state = 'new'
        self.exc = None
        self.owner = None
        self.nops = 0
        self.what = ''
        self.pending = None        # raised in it when it goes on
        self.remote = None         # the rest of a request to a server under way
        self.g = greenlet.greenlet(self._run, parent=world.hub)

    def _run(self):
        try:
            self.fn()
        except Kill:
            pass
        except BaseException as e:     # noqa
            self.exc = e
        finally:
            self.done = True


class Chooser:
    """Picks alternatives at points; default 0 everywhere except at `devs`."""

    def __init__(self, devs=None):
        self.devs = devs or {}
        self.n = 0
        self.alts = []        # number of alternatives at each step
        self.labels = None    # filled when labels wanted

    def choose(self, labels):
        i = self.n
        self.n += 1
        self.alts.append(len(labels))
        if self.labels is not None:
            self.labels.append(labels)
        a = self.devs.get(i, 0)
        if a and a > len(labels):
            raise HarnessError(f'deviation {i}:{a} not available ({labels})')
        return a      # 0: default, k: labels[k-1]


class World:
    def __init__(self, chooser=None, policy='fifo', offer=None, horizon=600.0, trace=False, max_steps=200_000):
        self.now = EPOCH
        self.chooser = chooser or Chooser()
        self.policy = policy
        self.last = policy[5:] if policy.startswith('last:') else None      # this thread only runs when no other can
        self.slow = None                                                    # this thread takes seconds per operation
        if policy.startswith('slow:'):
            _, sec, name = policy.split(':', 2)
            self.slow = (name, float(sec))
        self.offer = offer or (lambda w, t, kind, obj: ())
        self.horizon = EPOCH + horizon
        self.threads = []
        self.ready = collections.deque()
        self.blocked = []
        self.timers = []
        self.tseq = 0
        self.cur = None
        self.hub = greenlet.getcurrent()
        self.procs = []
        self.net = {}              # port -> FakeServer
        self.steps = 0
        self.points = 0
        self.max_steps = max_steps
        self.keep = trace
        self.trace = []
        self.h = hashlib.blake2b(digest_size=8)
        self.events = {}           # name -> fn (external events not yet fired)
        self.qlog = []             # operations on queues shared between programs
        self.connects = []         # (time, program) of every attempt to connect
        self.log = []              # facts recorded by the scenario (task starts...)
        self.behaviour = None
        self.ended = None
        self.on_kill = None        # called when a program is killed
        self.failed = None         # a HarnessError raised inside the world
        self.objnames = {}
        self.uid = 0
        self.pid = 1000
        self.vprocs = {}           # pid -> VPopen
        self.sys_inst = None
        self.undo = []             # (class, attribute, old value or None)
        self.fault = None          # set by an injected fault alternative
        self.chance = 0.5          # what random numbers in [0, 1) are
        self.hit = False           # an injected fault was raised
        self.interrupted = None    # (time, program): its main thread was interrupted

    # -- time -------------------------------------------------------------------------------
    def time(self):
        self.now += TICK
        return self.now

    def at(self, when, fn):
        self.tseq += 1
        heapq.heappush(self.timers, (when, self.tseq, fn))

    # -- processes and threads --------------------------------------------------------------
    def add_proc(self, name, inst, main, at=None):
        """Start a program now (or at a virtual time)."""
        p = Proc(self, name, inst)
        self.procs.append(p)

        def body():
            try:
                try:
                    v = main()
                finally:
                    self.leave(p)
                if p.exit is None:
                    p.exit = ('ok', v)
            except Kill:
                if p.exit is None:
                    p.exit = ('killed', None)
                raise
            except BaseException as e:
                if p.exit is None:
                    p.exit = ('exc', e)
            finally:
                p.exit_time = self.now
                if p.alive:
                    self.kill(p, by_exit=True)
                p.gone()

        def go():
            t = self.spawn(f'{name}', p, body)
            p.main = t
        if at is None:
            go()
        else:
            self.at(EPOCH + at, go)
        return p

    def leave(self, p):
        """A program ends after its last thread that is not a daemon."""
        if p.alive and self.cur is p.main and self.keeping(p):
            self.block(lambda: not self.keeping(p), None, 'last threads')

    def keeping(self, p):
        return [t for t in self.threads if t.proc is p and t is not p.main and not t.done and t.owner is not None and not getattr(t.owner, 'daemon', True)]

    def spawn(self, name, proc, fn, owner=None):
        t = VT(self, name, proc, fn)
        t.owner = owner
        t.seq = len(self.threads)
        self.threads.append(t)
        t.state = 'ready'
        self.ready.append(t)
        return t

    def kill(self, proc, by_exit=False):
        """End a process: all its threads vanish, its server side disappears, its DB connections roll back."""
        if not proc.alive:
            return
        proc.alive = False
        if proc.exit is None:
            proc.exit = ('killed', None)
            proc.exit_time = self.now
        if not by_exit:
            proc.gone()
        if self.on_kill is not None and not by_exit:
            self.on_kill(proc)
        for s in proc.servers:
            s.down()
        me = self.cur
        ghosts = [t.remote for t in self.threads if t.proc is proc and not t.done and t is not me and t.remote and t.state == 'blocked']
        for t in self.threads:
            if t.proc is proc and not t.done and t is not me:
                t.state = 'dead'
                self._end(t)
        if not by_exit:
            for g in ghosts:           # the server goes on with the request of a client that has died
                p = Proc(self, proc.name, None)
                p.main = self.spawn(f'{proc.name}/request', p, g)
        if proc.inst is not None:
            proc.inst.drop_sessions()
        if me is not None and me.proc is proc and not by_exit:
            me.state = 'dead'
            raise Kill()

    def _end(self, t):
        """Unwind a greenlet without letting its handlers do anything visible."""
        if t in self.ready:
            self.ready.remove(t)
        if t in self.blocked:
            self.blocked.remove(t)
        saved = self.cur
        self.cur = t
        try:
            for _ in range(50):
                if t.g.dead:
                    break
                t.g.parent = greenlet.getcurrent()
                try:
                    t.g.throw(Kill)
                except Kill:          # it had not even begun
                    pass
            t.done = True
        finally:
            self.cur = saved

    # -- blocking and points ----------------------------------------------------------------
    def note(self, *what):
        t = self.cur
        rec = (t.name if t else '-',) + what
        self.h.update(repr(rec).encode())
        if self.keep:
            self.trace.append((round(self.now - EPOCH, 3),) + rec)

    def others_ready(self):
        for t in self.ready:
            return True
        for t in self.blocked:
            if t.pred is not None and t.pred():
                return True
        return False

    def point(self, kind, obj=''):
        """A scheduling point of the running thread, before it performs an operation."""
        t = self.cur
        if t is None:
            return
        if t.state == 'dead':
            raise Kill()
        self.steps += 1
        if self.steps > self.max_steps:
            self.ended = 'steps'
            self.hub.switch()
        t.nops += 1
        if self.policy == 'rr':
            if self.ready:
                self.note('yield', kind, obj)
                self.requeue()
        elif self.slow is not None and t.name == self.slow[0]:
            self.block(lambda: False, self.now + self.slow[1], 'slow')
        labels = self.offer(self, t, kind, obj)
        self.note(kind, obj)
        if labels:
            self.points += 1
            a = self.chooser.choose(labels)
            if a:
                self.deviate(t, labels[a - 1])

    def deviate(self, t, label):
        self.note('DEVIATION', label)
        if label == 'delay':
            self.requeue()
        elif label.startswith('stall:'):
            self.block(lambda: False, self.now + float(label[6:]), 'stall')
        elif label == 'crash':
            self.kill(t.proc)
        elif label.startswith('kill:'):
            for p in self.procs:
                if p.name == label[5:]:
                    self.kill(p)
        elif label.startswith('freeze:'):
            sec, name = label[7:].split(':')
            for p in self.procs:
                if p.name == name and p.alive:
                    self.freeze(p, float(sec))
            self.requeue()
        elif label.startswith('interrupt:'):
            for p in self.procs:
                if p.name == label[10:] and p.alive:
                    self.interrupt(p)
        elif label.startswith('ev:'):
            fn = self.events.pop(label[3:])
            self.fire(label[3:], fn)
            self.requeue(front=False)
        elif label.startswith('fault:'):
            self.fault = label[6:]
        elif label.startswith('to:'):
            # switch to a given ready thread, then come back after it blocks
            name = label[3:]
            self.wake_blocked()
            for u in list(self.ready):
                if u.name == name:
                    self.ready.remove(u)
                    self.ready.appendleft(t)
                    self.ready.appendleft(u)
                    t.state = 'ready'
                    self._switch(t)
                    return
        else:
            raise HarnessError(label)

    def freeze(self, proc, sec):
        """Suspend a program: only its requests already with the server go on."""
        proc.frozen = self.now + sec
        self.at(proc.frozen, lambda: None)

    def fire(self, name, fn):
        """Run an external event: its own little program thread."""
        p = Proc(self, f'ev-{name}', None)
        self.procs.append(p)
        t = self.spawn(f'ev-{name}', p, fn)
        p.main = t
        self.ready.remove(t)
        self.ready.appendleft(t)
        return t

    def requeue(self, front=False):
        t = self.cur
        self.wake_blocked()
        t.state = 'ready'
        (self.ready.appendleft if front else self.ready.append)(t)
        self._switch(t)

    def _switch(self, t):
        self.hub.switch()
        if t.state == 'dead':
            raise Kill()
        if t.pending is not None and not t.remote:
            e, t.pending = t.pending, None
            raise e

    def interrupt(self, proc):
        """Ctrl-C: the main thread of the program is interrupted where it is."""
        t = proc.main
        if not proc.alive or t.done:
            return
        self.interrupted = self.now, proc.name
        if t is self.cur:
            raise KeyboardInterrupt
        t.pending = KeyboardInterrupt()
        if t in self.blocked and not t.remote:
            self.blocked.remove(t)
            t.state, t.pred = 'ready', None
            self.ready.append(t)

    def block(self, pred, deadline=None, what=''):
        """Block the running thread until pred() or the deadline; returns True if pred() held."""
        t = self.cur
        if t is None:
            raise HarnessError('blocking operation outside of a virtual thread: ' + what)
        if t.state == 'dead':
            raise Kill()
        while True:
            if pred():
                return True
            if deadline is not None and self.now >= deadline - 1e-9:
                return False
            t.pred, t.deadline, t.what = pred, deadline, what
            t.state = 'blocked'
            self.blocked.append(t)
            self._switch(t)

    def wake_blocked(self):
        if not self.blocked:
            return
        still = []
        for t in self.blocked:
            if t.proc.frozen > self.now + 1e-9 and not t.remote:
                still.append(t)
            elif t.pred() or (t.deadline is not None and self.now >= t.deadline - 1e-9):
                t.state = 'ready'
                t.pred = None
                self.ready.append(t)
            else:
                still.append(t)
        self.blocked = still

    # -- main loop --------------------------------------------------------------------------
    def run(self, until=None):
        """Run until `until()` holds, nothing can run, or the horizon is passed. Returns the reason."""
        global WORLD
        if WORLD is not self:
            raise HarnessError('world not active')
        self.hub = greenlet.getcurrent()
        while True:
            if self.failed is not None:
                raise self.failed
            if self.ended:
                return self.ended
            if until is not None and until():
                return 'until'
            self.wake_blocked()
            if self.ready:
                t = self.pick()
                if t.done or t.state == 'dead':
                    continue
                if not t.proc.alive:
                    t.state = 'dead'
                    self._end(t)
                    continue
                if t.proc.frozen > self.now + 1e-9 and not t.remote:
                    t.state, t.pred, t.deadline = 'blocked', lambda: True, t.proc.frozen
                    self.blocked.append(t)
                    continue
                t.state = 'running'
                self.cur = t
                inst = t.proc.inst
                if inst is not None and inst is not self.sys_inst:
                    inst.install()
                    self.sys_inst = inst
                try:
                    t.g.switch()
                finally:
                    self.cur = None
                if t.done:
                    t.state = 'done'
                continue
            # nothing is ready: advance the virtual clock
            nxt = None
            if self.timers:
                nxt = self.timers[0][0]
            for t in self.blocked:
                if t.deadline is not None and (nxt is None or t.deadline < nxt) and (t.remote or t.proc.frozen <= self.now + 1e-9):
                    nxt = t.deadline
            if nxt is None:
                return 'deadlock' if self.blocked else 'idle'
            if nxt > self.horizon:
                return 'horizon'
            if nxt > self.now:
                self.now = nxt
            while self.timers and self.timers[0][0] <= self.now + 1e-9:
                _, _, fn = heapq.heappop(self.timers)
                fn()

    def pick(self):
        if self.policy == 'lifo':
            return self.ready.pop()
        if self.last is not None:
            for i, t in enumerate(self.ready):
                if t.name != self.last:
                    del self.ready[i]
                    return t
        return self.ready.popleft()

    def digest(self):
        return self.h.hexdigest()

    def close(self):
        """End all remaining greenlets."""
        for p in self.procs:
            p.alive = False
        for t in self.threads:
            if not t.done:
                t.state = 'dead'
                try:
                    self._end(t)
                except BaseException:   # noqa
                    pass
        for p in self.procs:
            if p.inst is not None:
                p.inst.drop_sessions()
        for cls, name, old in reversed(self.undo):
            if old is None:
                if name in cls.__dict__:
                    delattr(cls, name)
            else:
                setattr(cls, name, old)


def activate(world):
    global WORLD
    WORLD = world


def deactivate():
    global WORLD
    WORLD = None
