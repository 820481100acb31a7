"""
Exhaustive exploration engine.

Two kinds of work, both enumerated completely within stated bounds, spread over forked workers:

* Scenario: a closed system of real hypershell programs under the controlled scheduler.  An execution is fixed by
  (scenario, policy, deviations).  Depth 0 = the policy's own schedule, depth 1 = every single alternative at every
  point, depth 2 = every pair (optionally only pairs at most `window` points apart).
* Cases: a finite list of inputs / operation sequences, each run against the real code and a reference model.
"""
import collections
import gc
import json
import os
import select
import signal
import struct
import sys
import time
import traceback
import pickle

import sched
import fakes
import inst as instmod
from sched import HarnessError

real_signal = signal.signal
REAL_LIMIT = 400        # wall seconds after which an execution counts as stuck in the harness
CPU_LIMIT = 60          # CPU seconds one execution may burn before it counts as a busy loop


# ------------------------------------------------------------------------------ per-worker package copies
_INSTS = {}


def get_inst(name, **kw):
    """A copy of the package for this worker, loaded on first use."""
    key = (os.getpid(), name, repr(sorted(kw.items())))
    if key not in _INSTS:
        if sched.WORLD is not None:
            raise HarnessError(f'the copy {name} must be loaded before the world starts')
        _INSTS[key] = instmod.Inst(name, **kw)
    return _INSTS[key]


_SINCE_GC = [0]


def tidy():
    """Collect garbage between executions only, so that finalisers never run inside one."""
    gc.disable()
    _SINCE_GC[0] += 1
    if _SINCE_GC[0] >= 15:
        _SINCE_GC[0] = 0
        gc.collect()


class Scenario:
    """A closed system to explore."""
    name = '?'
    policies = ('fifo', 'rr', 'lifo')
    depth = 1
    window = None
    horizon = 300.0
    max_steps = 60_000
    starve = True           # also run every thread starved ('last:T') and, for each of `slow`, slowed down ('slow:S:T')
    slow = (1.5,)
    no_slow = ('heartbeat',)

    def describe(self):
        return f'depth {self.depth}, window {self.window}, policies {self.policies}'

    def setup(self):
        """Per execution: prepare files and databases, reset package copies."""

    def offer(self, w, t, kind, obj):
        return ('delay',) if w.others_ready() else ()

    def build(self, w):
        """Add the programs."""

    def until(self, w):
        return False

    def check(self, w, reason):
        """List of violation messages."""
        return []

    def outcome(self, w, reason):
        return reason

    def teardown(self, w):
        pass

    def execute(self, policy, devs, trace=False):
        tidy()
        self.setup()
        ch = sched.Chooser(devs)
        if trace:
            ch.labels = []
        w = sched.World(chooser=ch, policy=policy, offer=self.offer, horizon=self.horizon, trace=trace,
                        max_steps=self.max_steps)
        w.scenario = self
        sched.activate(w)
        fakes.patch()
        try:
            self.build(w)
            reason = w.run(until=lambda: self.until(w))
            if any(i >= ch.n for i in (devs or {})):
                raise HarnessError(f'{self.name}: deviation {devs} beyond the {ch.n} points of the execution')
            try:
                msgs = self.check(w, reason)
                out = self.outcome(w, reason)
            except Exception as e:        # an outcome the oracle has no name for
                msgs, out = [f'{reason} in a state without meaning: {type(e).__name__}: {e}\n' + ''.join(traceback.format_tb(e.__traceback__)[-3:])], reason
        finally:
            try:
                w.close()
            finally:
                fakes.unpatch()
                sched.deactivate()
                self.teardown(w)
        return Result(msgs, out, w.digest(), ch.alts, w.steps, w.trace if trace else None, ch.labels,
                      [t.name for t in w.threads if t.proc.inst is not None])


Result = collections.namedtuple('Result', 'violations outcome digest alts steps trace labels threads')


# ------------------------------------------------------------------------------------------- worker pool
def _send(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack('>I', len(b)) + b
    while b:
        n = os.write(fd, b)
        b = b[n:]


def _recv(fd):
    h = b''
    while len(h) < 4:
        x = os.read(fd, 4 - len(h))
        if not x:
            return None
        h += x
    n = struct.unpack('>I', h)[0]
    parts = []
    while n:
        x = os.read(fd, min(n, 1 << 20))
        if not x:
            return None
        parts.append(x)
        n -= len(x)
    return pickle.loads(b''.join(parts))


_CURRENT = None         # what this worker is executing (for the busy-loop report)


def _worker(rfd, wfd, handler):
    devnull = os.open(os.devnull, os.O_RDWR)
    os.dup2(devnull, 0)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)

    def hang(signum, frame):
        _send(wfd, ('hang', _CURRENT, ''.join(traceback.format_stack(frame)[-6:])))
        os._exit(3)
    def stuck(signum, frame):
        _send(wfd, ('error', f'no answer after {REAL_LIMIT} s on {_CURRENT}\n' + ''.join(traceback.format_stack(frame)[-8:])))
        os._exit(5)
    real_signal(signal.SIGPROF, hang)
    real_signal(signal.SIGALRM, stuck)
    while True:
        task = _recv(rfd)
        if task is None:
            os._exit(0)
        try:
            r = ('ok', handler(task))
        except BaseException as e:     # noqa
            r = ('error', f'{type(e).__name__}: {e}\n' + traceback.format_exc())
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        _send(wfd, r)


def begin(what):
    """Start the CPU clock of one execution."""
    global _CURRENT
    _CURRENT = what
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    signal.setitimer(signal.ITIMER_REAL, REAL_LIMIT)


class Pool:
    def __init__(self, handler, n=None):
        self.n = n or max(1, min(8, os.cpu_count() or 1))
        self.handler = handler
        self.workers = {}        # read fd -> [pid, write fd, task or None]
        for _ in range(self.n):
            self._fork()

    def _fork(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for fd, (p, wfd, t) in self.workers.items():
                    os.close(fd)
                    os.close(wfd)
                _worker(r1, w2, self.handler)
            finally:
                os._exit(4)
        os.close(r1)
        os.close(w2)
        self.workers[r2] = [pid, w1, None]

    def run(self, tasks, on_result, deadline=None):
        """Feed tasks (a list that on_result may extend) until it is empty; returns False if stopped early."""
        queue = collections.deque(tasks)
        busy = 0
        stop = False
        while queue or busy:
            if deadline is not None and time.time() > deadline:
                stop = True
            if stop and not busy:
                break
            if not stop:
                for fd, wk in list(self.workers.items()):
                    if wk[2] is None and queue:
                        wk[2] = queue.popleft()
                        busy += 1
                        _send(wk[1], wk[2])
            rs, _, _ = select.select([fd for fd, wk in self.workers.items() if wk[2] is not None], [], [], 5)
            for fd in rs:
                wk = self.workers[fd]
                task, wk[2] = wk[2], None
                busy -= 1
                msg = _recv(fd)
                if msg is None or msg[0] == 'hang':
                    os.waitpid(wk[0], 0)
                    os.close(fd)
                    os.close(wk[1])
                    del self.workers[fd]
                    self._fork()
                    if msg is None:
                        msg = ('error', f'worker died on {task!r}')
                more = on_result(task, msg)
                if more is False:
                    stop = True
                elif more:
                    queue.extend(more)
        return not (stop and queue) and not stop

    def close(self):
        for fd, wk in self.workers.items():
            os.close(wk[1])
        for fd, wk in self.workers.items():
            if wk[2] is not None:
                os.kill(wk[0], signal.SIGKILL)
            os.waitpid(wk[0], 0)
            os.close(fd)
        self.workers = {}


# -------------------------------------------------------------------------------------------- statistics
class Stats:
    def __init__(self):
        self.executions = 0
        self.steps = 0
        self.points = 0
        self.digests = set()
        self.outcomes = collections.Counter()
        self.per = collections.OrderedDict()
        self.complete = True
        self.samples = []
        self.violations = []
        self.errors = []

    def note(self, part, n, **kw):
        d = self.per.setdefault(part, collections.Counter())
        d['executions'] += n
        for k, v in kw.items():
            d[k] += v


SCHED_RULE = ('One case is one complete execution of the real server and client programs under the controlled scheduler, '
              'fixed by (scenario, base policy, deviations): every base policy including each thread starved and each '
              'thread slowed down, then every single alternative (and, where the depth says so, every pair) at every '
              'choice point: another thread first, a stall, a crash, a user action or an injected error. Distinct = '
              'different complete history of operations; all of them run tasks, so none is trivial.')
SCHED_ASSUMPTIONS = (
    'Scheduling points are queue, event, lock, sleep, join, process, network and SQL operations, and every statement of the programs in '
    'the scenarios named lines; code between two of them is atomic (the GIL makes single attribute accesses atomic).',
    'Queues, threads, events, subprocess.Popen, the multiprocessing manager and the clock are replaced by models; mc/conform.py '
    'compares these with the real ones.',
    'SQLite is real; a crash of a program falls between two scheduling points, and a committed transaction survives it.')


def raised_by_code(e):
    """The exception comes out of the package under test, not out of the harness."""
    frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
    return any('/hypershell/' in f for f in frames[-4:])


class Check:
    """A property's check: scenarios and cases."""

    def __init__(self, prop, scenarios=(), cases=(), run_case=None, level='exploration', rule='', assumptions=(),
                 known=None):
        self.prop = prop
        self.scenarios = list(scenarios)
        self.cases = list(cases)
        self.run_case = run_case
        self.level = level
        self.rule = rule or SCHED_RULE
        self.assumptions = list(assumptions) + (list(SCHED_ASSUMPTIONS) if self.scenarios else [])

    # -- worker side ------------------------------------------------------------------------
    def handle(self, task):
        if task[0] == 'scn':
            return self._explore(task)
        return self._cases(task)

    def _explore(self, task):
        _, si, policy, nodes, depth, window = task
        scn = self.scenarios[si]
        out = {'n': 0, 'steps': 0, 'points': 0, 'digests': set(), 'outcomes': collections.Counter(), 'viol': [],
               'base_alts': None, 'samples': []}
        stack = [(tuple(n), depth) for n in reversed(nodes)]
        while stack:
            node, d = stack.pop()
            devs = dict(node)
            begin((si, policy, node))
            r = scn.execute(policy, devs)
            out['n'] += 1
            out['steps'] += r.steps
            out['points'] += len(r.alts)
            out['digests'].add(r.digest)
            out['outcomes'][r.outcome] += 1
            if r.violations:
                out['viol'].append((si, policy, node, r.violations, r.digest))
                if len(out['viol']) >= 3:
                    return out
                continue
            if len(out['samples']) < 1:
                out['samples'].append({'scenario': scn.name, 'policy': policy, 'deviations': [list(x) for x in node],
                                       'history': r.steps, 'outcome': str(r.outcome)[:300]})
            if not node:
                out['base_alts'] = r.alts
                out['threads'] = r.threads
            if d > 0:
                start = node[-1][0] + 1 if node else 0
                end = len(r.alts)
                if node and window is not None:
                    end = min(end, start + window)
                for i in range(end - 1, start - 1, -1):
                    for a in range(r.alts[i], 0, -1):
                        stack.append((node + ((i, a),), d - 1))
        return out

    def judge(self, case):
        try:
            return self.run_case(case)
        except Exception as e:
            if not raised_by_code(e):
                raise
            return [f'{str(case)[:300]}: {type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:]], '', 1

    def _cases(self, task):
        _, lo, hi = task
        out = {'n': 0, 'digests': set(), 'outcomes': collections.Counter(), 'viol': [], 'steps': 0, 'points': 0}
        for i in range(lo, hi):
            begin(('case', i))
            msgs, outcome, evals = self.judge(self.cases[i])
            out['n'] += evals
            out['steps'] += evals
            if isinstance(outcome, (set, frozenset, list)):
                out['digests'].update(outcome)
            else:
                out['digests'].add(str(outcome))
            if msgs:
                out['viol'].append(('case', i, None, msgs, None))
                if len(out['viol']) >= 3:
                    break
        return out

    # -- driver side ------------------------------------------------------------------------
    def run(self, tier, budget):
        st = Stats()
        t0 = time.time()
        deadline = t0 + budget
        pool = Pool(self.handle)
        try:
            self._run(st, pool, tier, deadline)
        finally:
            pool.close()
        st.wall = time.time() - t0
        return st

    def _absorb(self, st, label, msg):
        if msg[0] == 'hang':
            if isinstance(msg[1], tuple) and msg[1] and msg[1][0] == 'case':
                st.violations.append(('case', msg[1][1], None, ['the code did not come to an end (busy loop): ' + msg[2]], None))
            else:
                si, policy, node = msg[1]
                st.violations.append((si, policy, node, ['busy loop: no progress\n' + msg[2]], None))
            return None
        if msg[0] == 'error':
            st.errors.append(msg[1])
            return None
        o = msg[1]
        st.executions += o['n']
        st.steps += o['steps']
        st.points += o['points']
        st.digests |= o['digests']
        st.outcomes.update(o['outcomes'])
        st.note(label, o['n'], points=o['points'])
        st.violations.extend(o['viol'])
        st.seen = getattr(st, 'seen', 0) + 1
        if o.get('samples') and (st.seen & (st.seen - 1)) == 0:        # the 1st, 2nd, 4th, 8th ... piece of work
            st.samples.append(o['samples'][0])
        return o

    def _run(self, st, pool, tier, deadline):
        # depth 0 of every scenario and policy, then the cases, then depth 1, then depth 2
        bases = {}

        def on_base(task, msg):
            o = self._absorb(st, self.scenarios[task[1]].name, msg)
            if o is None or st.violations or st.errors:
                return False
            bases[task[1], task[2]] = o['base_alts']
            scn = self.scenarios[task[1]]
            if task[2] == scn.policies[0] and scn.starve:
                more = [f'last:{n}' for n in o['threads']]
                more += [f'slow:{x:g}:{n}' for x in scn.slow for n in o['threads']
                         if not any(p in n for p in scn.no_slow)]
                return [('scn', task[1], p, [()], 0, None) for p in more]

        tasks = [('scn', i, p, [()], 0, None) for i, s in enumerate(self.scenarios) for p in s.policies]
        if tasks and not pool.run(tasks, on_base, deadline):
            st.complete = False
            return

        def on_any(task, msg):
            label = self.scenarios[task[1]].name if task[0] == 'scn' else 'cases'
            o = self._absorb(st, label, msg)
            if st.violations or st.errors:
                return False

        if self.cases:
            step = max(1, min(200, len(self.cases) // (pool.n * 8) or 1))
            tasks = [('case', i, min(i + step, len(self.cases))) for i in range(0, len(self.cases), step)]
            if not pool.run(tasks, on_any, deadline):
                st.complete = False
                return
        for level in (1, 2, 3):
            tasks = []
            for i, s in enumerate(self.scenarios):
                if s.depth < level:
                    continue
                for p in s.policies:
                    alts = bases[i, p]
                    nodes = [((k, a),) for k in range(len(alts)) for a in range(1, alts[k] + 1)]
                    if level == 1 or s.depth == level:
                        # at its own maximal depth a scenario is explored in one pass
                        if s.depth != level:
                            continue
                        size = 6 if level == 1 else 1
                        tasks += [('scn', i, p, nodes[j:j + size], level - 1, s.window) for j in range(0, len(nodes), size)]
            if tasks and not pool.run(tasks, on_any, deadline):
                st.complete = False
                if st.violations or st.errors:
                    return
                st.capped = level
                break

    def replay(self, v, trace=False):
        si, policy, node = v[:3]
        if si == 'case':
            return self.run_case(self.cases[policy])
        return self.scenarios[si].execute(policy, dict(node), trace=trace)
