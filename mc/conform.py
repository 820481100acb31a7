"""
Compares the stand-ins (fakes.py) with what they stand for: every small program over threads, events, locks, conditions, queues, remote queues,
and child processes is run both under the scheduler (virtual time) and on the real standard library (real time, one unit = UNIT seconds), and
must give the same results, the same exceptions and the same timing.   /opt/venv/bin/python mc/conform.py [--quick] [--json FILE]

Two actors use one object.  The first starts at 0, the second at 0.5 (units), and every timeout and sleep is a whole number, so no two operations
fall together and the real execution has only one possible order.
"""
import itertools
import json
import os
import queue
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
import multiprocessing
import multiprocessing.managers
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE]
sys.dont_write_bytecode = True
UNIT = 0.12
END = 20          # units: an actor still blocked then is stuck


class Real:
    """The real standard library; one unit of time is UNIT seconds."""
    Thread, Event, Lock, RLock, Condition, Queue = threading.Thread, threading.Event, threading.Lock, threading.RLock, threading.Condition, queue.Queue

    def __init__(self, unit):
        self.unit, self.zero = unit, time.monotonic()

    def now(self):
        return (time.monotonic() - self.zero) / self.unit

    def sleep(self, n):
        time.sleep(n * self.unit)

    def sec(self, n):
        return n * self.unit

    def process(self, kind):
        u = self.unit
        body = {'ok': f'time.sleep({1.8 * u})', 'status': f'time.sleep({1.8 * u}); os._exit(3)', 'quick': 'os._exit(5)',
                'deaf': f'signal.signal(2, signal.SIG_IGN); READY; time.sleep({2.8 * u})',
                'polite': f'signal.signal(15, lambda *a: (time.sleep({.8 * u}), os._exit(7))); READY; time.sleep({3.8 * u})'}[kind]
        if 'READY' not in body:
            body = 'READY; ' + body
        p = subprocess.Popen([sys.executable, '-S', '-c', 'import signal, time, os; signal.signal(2, signal.SIG_DFL); ' + body.replace('READY', 'os.write(1, b"!")') + '; os._exit(0)'],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        p.stdout.read(1)
        return p


class Fake(Real):
    def __init__(self):
        import fakes
        self.f = fakes
        self.Thread, self.Event, self.Lock, self.RLock, self.Condition, self.Queue = fakes.VThread, fakes.VEvent, fakes.VLock, fakes.VRLock, fakes.VCondition, fakes.VQueue
        self.zero = fakes.v_monotonic()

    def now(self):
        return self.f.v_monotonic() - self.zero

    def sleep(self, n):
        self.f.v_sleep(n)

    def sec(self, n):
        return n

    def process(self, kind):
        return self.f.VPopen([kind])


# ------------------------------------------------------------------------------------------ objects and what is done with them
def make(lib, kind, remote=None):
    if kind.startswith('queue'):
        return lib.Queue(int(kind[5:]))
    if kind == 'thread':
        return lib.Thread(target=lambda: lib.sleep(1.8))
    if kind == 'condition':
        return lib.Condition()
    if kind.startswith('remote'):
        return remote(int(kind[6:]))
    if kind.startswith('process:'):
        return lib.process(kind[8:])
    return getattr(lib, {'event': 'Event', 'lock': 'Lock', 'rlock': 'RLock'}[kind])()


def locked(c, f):
    with c:
        return f()


OPS = {
    'put1': lambda L, o: o.put(L.item(), timeout=L.lib.sec(1)), 'put': lambda L, o: o.put(L.item()), 'put_nw': lambda L, o: o.put_nowait(L.item()), 'putF': lambda L, o: o.put(L.item(), False),
    'get1': lambda L, o: o.get(timeout=L.lib.sec(1)), 'get': lambda L, o: o.get(), 'get_nw': lambda L, o: o.get_nowait(), 'get-1': lambda L, o: o.get(timeout=-1),
    'size': lambda L, o: o.qsize(), 'full': lambda L, o: o.full(), 'empty': lambda L, o: o.empty(), 'done': lambda L, o: o.task_done(), 'qjoin': lambda L, o: o.join(),
    'set': lambda L, o: o.set(), 'clear': lambda L, o: o.clear(), 'is_set': lambda L, o: o.is_set(), 'ewait1': lambda L, o: o.wait(L.lib.sec(1)), 'ewait': lambda L, o: o.wait(), 'ewait0': lambda L, o: o.wait(0),
    'acq': lambda L, o: o.acquire(), 'acq1': lambda L, o: o.acquire(timeout=L.lib.sec(1)), 'acq_nw': lambda L, o: o.acquire(False), 'rel': lambda L, o: o.release(), 'is_locked': lambda L, o: o.locked(),
    'cwait1': lambda L, o: locked(o, lambda: o.wait(L.lib.sec(1))), 'cwait': lambda L, o: locked(o, o.wait), 'notify': lambda L, o: locked(o, o.notify), 'notify_all': lambda L, o: locked(o, o.notify_all),
    'notify_bare': lambda L, o: o.notify(), 'cwait_for': lambda L, o: locked(o, lambda: o.wait_for(lambda: False, L.lib.sec(1))),
    'start': lambda L, o: o.start(), 'alive': lambda L, o: o.is_alive(), 'join1': lambda L, o: o.join(L.lib.sec(1)), 'join': lambda L, o: o.join(), 'join0': lambda L, o: o.join(0),
    'poll': lambda L, o: o.poll(), 'wait1': lambda L, o: o.wait(L.lib.sec(1)), 'wait': lambda L, o: o.wait(), 'wait0': lambda L, o: o.wait(0), 'int': lambda L, o: o.send_signal(signal.SIGINT),
    'term': lambda L, o: o.terminate(), 'kill': lambda L, o: o.kill(), 'rc': lambda L, o: o.returncode,
    'sleep1': lambda L, o: L.lib.sleep(1),
}
QUEUE = ('put1', 'put_nw', 'get1', 'get_nw', 'size', 'sleep1')
ALPHABET = {
    'queue': ('put1', 'put', 'put_nw', 'get1', 'get', 'get_nw', 'size', 'full', 'empty', 'sleep1'),
    'remote': ('put1', 'put_nw', 'get1', 'size', 'full', 'sleep1', 'get', 'put'),      # not get_nowait and empty: what was put arrives a moment later
    'event': ('set', 'clear', 'is_set', 'ewait1', 'ewait', 'ewait0', 'sleep1'),
    'lock': ('acq', 'acq1', 'acq_nw', 'rel', 'is_locked', 'sleep1'),
    'rlock': ('acq', 'acq1', 'acq_nw', 'rel', 'sleep1'),
    'condition': ('cwait1', 'cwait', 'notify', 'notify_all', 'cwait_for', 'sleep1'),
    'thread': ('start', 'alive', 'join1', 'join', 'join0', 'sleep1'),
    'process': ('poll', 'wait1', 'wait', 'wait0', 'int', 'term', 'kill', 'rc', 'sleep1'),
}
SINGLE = {'queue': ('put_nw', 'get_nw', 'get-1', 'done', 'qjoin', 'size', 'full', 'empty', 'put1')}


def programs(deep):
    """(kind, operations of the first actor, of the second)."""
    for kind in ('queue0', 'queue1', 'queue2'):
        a = ALPHABET['queue']
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)) + (((3, 2),) if deep else ()):
            al = a if n + m < 5 and (n + m < 4 or deep) else QUEUE
            for x in itertools.product(al, repeat=n):
                for y in itertools.product(al, repeat=m):
                    yield kind, x, y
        for n in range(1, 4 + deep):
            for x in itertools.product(SINGLE['queue'], repeat=n):
                yield kind, x, ()
    for kind in ('event', 'lock', 'rlock', 'condition'):
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 1)) + (((3, 2), (2, 3)) if deep else ()):
            for x in itertools.product(ALPHABET[kind], repeat=n):
                for y in itertools.product(ALPHABET[kind], repeat=m):
                    yield kind, x, y
    for n, m in ((1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 2)):
        for x in itertools.product(ALPHABET['thread'], repeat=n):
            for y in itertools.product(ALPHABET['thread'], repeat=m):
                yield 'thread', x, y
    for kind in ('remote0', 'remote1'):
        for n, m in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for x in itertools.product(ALPHABET['remote'][:8 if n + m < 4 else 4], repeat=n):
                for y in itertools.product(ALPHABET['remote'][:8 if n + m < 4 else 4], repeat=m):
                    yield kind, x, y
    for kind in ('ok', 'status', 'deaf', 'polite', 'quick'):
        for n in (1, 2, 3) if deep else (1, 2):
            for x in itertools.product(ALPHABET['process'], repeat=n):
                yield 'process:' + kind, ('sleep1',) + x, ()


class Actor:
    def __init__(self, lib, obj, name, ops, start):
        self.lib, self.obj, self.name, self.ops, self.start = lib, obj, name, ops, start
        self.log, self.n, self.ended = [], 0, False

    def item(self):
        self.n += 1
        return [self.name, self.n]

    gate = over = None

    def run(self):
        if self.gate:
            if not isinstance(self.obj, (threading.Thread, subprocess.Popen)) and hasattr(self.obj, 'qsize'):
                self.obj.qsize()          # the connection of this thread to the server
            self.gate.wait()
        self.lib.sleep(self.start)
        for op in self.ops:
            try:
                r = OPS[op](self, self.obj)
            except Exception as e:      # noqa
                r = 'raised ' + type(e).__name__
            self.log.append((op, repr(r), round(self.lib.now() * 2) / 2))
        self.ended = True
        if self.over:
            self.over.wait()         # a thread that has ended gives its identity to the next


def results(actors):
    return tuple((tuple(a.log), a.ended) for a in actors)


def run_real(prog, unit, remote=None):
    kind, x, y = prog
    lib = Real(unit)
    obj = make(lib, kind, remote)
    gate = threading.Barrier(3 if y else 2)
    actors = [Actor(lib, obj, n, ops, s) for n, ops, s in (('a', x, 0), ('b', y, 0.5)) if ops]
    over = threading.Event()
    for a in actors:
        a.over = over
    ts = [threading.Thread(target=a.run, daemon=True) for a in actors]
    for a in actors:
        a.gate = gate
    for t in ts:
        t.start()
    lib.zero = time.monotonic()
    gate.wait()
    end = lib.zero + 8 * unit
    while time.monotonic() < end and not all(a.ended for a in actors):
        time.sleep(unit / 10)
    r = results(actors)
    over.set()
    if kind.startswith('process'):
        try:
            obj.kill()
            obj.wait()
        except Exception:      # noqa
            pass
    return r


def run_fake(prog, policy='fifo', devs=None):
    """(results, alternatives at every point)."""
    import fakes
    import sched
    kind, x, y = prog
    w = sched.World(chooser=sched.Chooser(devs), policy=policy, horizon=60.0, offer=lambda w, t, k, o: ('delay',) if w.others_ready() else ())
    w.scenario = None

    def behaviour(args, env, proc):
        k = args[0]
        return {'ok': fakes.Script(1.95), 'status': fakes.Script(1.95, 3), 'deaf': fakes.Script(2.95, on={2: ('ignore',)}), 'polite': fakes.Script(3.95, on={15: ('die', .8, 7)}), 'quick': fakes.Script(0, 5)}[k]
    w.behaviour = behaviour
    sched.activate(w)
    fakes.patch()
    try:
        def main():
            lib = Fake()
            remote = None
            if kind.startswith('remote'):
                q = fakes.VMPQueue(int(kind[6:]))

                class M(fakes.FakeManager):
                    pass
                M.register('q', callable=lambda: q)
                m = M(('localhost', 5), b'k')
                m.start()
                c = M(('localhost', 5), b'k')
                c.connect()
                remote = lambda n: c.q()      # noqa
            obj = make(lib, kind, remote)
            if kind.startswith('process'):
                lib.sleep(0.1)
            lib.zero = fakes.v_monotonic()
            actors = [Actor(lib, obj, n, ops, s) for n, ops, s in (('a', x, 0), ('b', y, 0.5)) if ops]
            for a in actors:
                fakes.VThread(target=a.run, name=a.name).start()
            lib.sleep(8)
            return results(actors)
        p = w.add_proc('program', None, main)
        w.run(until=lambda: p.exit is not None)
        if p.exit is None or p.exit[0] != 'ok':
            raise RuntimeError(f'{prog}: {p.exit}')
        return p.exit[1], list(w.chooser.alts)
    finally:
        w.close()
        fakes.unpatch()
        sched.deactivate()


def possible(prog, depth=3):
    """Every result the stand-ins give for it on some schedule."""
    out = set()
    for policy in ('fifo', 'lifo', 'rr'):
        stack = [((), depth)]
        while stack:
            node, d = stack.pop()
            r, alts = run_fake(prog, policy, dict(node))
            out.add(r)
            if d:
                for i in range(node[-1][0] + 1 if node else 0, len(alts)):
                    stack += [(node + ((i, a),), d - 1) for a in range(alts[i], 0, -1)]
    return out


# ------------------------------------------------------------------------------------------ a real server of queues
class Manager(multiprocessing.managers.BaseManager):
    pass


def _serve(n):
    return multiprocessing.JoinableQueue(n)


Manager.register('make', callable=_serve)


def batch(args):
    progs, unit, workers = args
    m = None
    if any(p[0].startswith('remote') for p in progs):
        m = Manager(('127.0.0.1', 0), b'k')
        m.start()
    try:
        with ThreadPoolExecutor(workers) as pool:
            return list(pool.map(lambda p: run_real(p, unit, m and (lambda n: m.make(n))), progs))
    finally:
        if m:
            m.shutdown()


def main():
    quick = '--quick' in sys.argv
    t0 = time.time()
    progs = list(programs(not quick))
    print(len(progs), 'programs', flush=True)
    chunks = [progs[i::64] for i in range(64)]
    with ProcessPoolExecutor(8, mp_context=multiprocessing.get_context('spawn')) as pool:
        real = dict(zip([p for c in chunks for p in c], [r for rs in pool.map(batch, [(c, UNIT, 40) for c in chunks]) for r in rs]))
    print(f'real: {time.time() - t0:.0f} s', flush=True)
    usual = {p: run_fake(p)[0] for p in progs}
    print(f'stand-ins: {time.time() - t0:.0f} s', flush=True)
    bad = [p for p in progs if real[p] != usual[p]]
    print(len(bad), 'not on the first schedule', flush=True)
    fake = {p: possible(p) for p in bad}
    bad = [p for p in bad if real[p] not in fake[p]]
    print(f'{len(bad)} on no schedule: {time.time() - t0:.0f} s', flush=True)
    for k, unit in ((16, 0.2), (8, 0.4), (2, 0.5)):
        if not bad:
            break
        if k == 2:
            bad = bad[:100]
        for p, r in zip(bad, batch((bad, unit, k))):
            real[p] = r
        bad = [p for p in bad if real[p] not in fake[p]]
        print(f'{len(bad)} differ at {unit} s a unit: {time.time() - t0:.0f} s', flush=True)
    for p in bad[:20]:
        print('DIFFERENT', p, '\n   real', real[p], '\n   fake', usual[p])
    kinds = {}
    for p in progs:
        kinds[p[0]] = kinds.get(p[0], 0) + 1
    if '--json' in sys.argv:
        with open(sys.argv[sys.argv.index('--json') + 1], 'w') as f:
            json.dump({'programs': len(progs), 'by object': kinds, 'different': [str(p) for p in bad]}, f, indent=1)
    print(f'{len(progs)} programs, {len(bad)} different, {time.time() - t0:.0f} s')
    return 1 if bad else 0


if __name__ == '__main__':
    base = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='hsmc-')
    try:
        code = main()
    finally:
        shutil.rmtree(base, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
