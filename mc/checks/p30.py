"""P30: a lost server, a failing database or a failing stream ends every program with an error, never a hang."""
import itertools
import signal

from clusters import Cluster
from explore import Check, get_inst
from fleet import Again, Fleet, chains, runs
from sched import EPOCH
import sched

HEART = 2
#: a client notices with its next heartbeat at the latest; then everything polls with at most two seconds
SOON = HEART + 8.0


class Stream:
    """Where failed tasks are written; breaks with the n-th write."""

    def __init__(self, n):
        self.n = n

    def write(self, text):
        if sched.WORLD is not None and text.strip():
            self.n -= 1
            if self.n < 0:
                sched.WORLD.hit = True
                raise BrokenPipeError(32, 'Broken pipe')
        return len(text)

    def flush(self):
        pass


class Failing(Again):
    """what: 'kill' (the server dies), 'db' (one database operation of the server fails), 'stream' (writing a failed task fails)."""

    def __init__(self, name, what, *a, again=True, breaks=0, app=False, **k):
        super().__init__(name, *a, oracle=oracle, **k)
        self.what, self.again, self.breaks, self.app = what, again, breaks, app

    def setup(self):
        super().setup()
        if self.what == 'stream':
            self.server['redirect_failures'] = Stream(self.breaks)

    def describe(self):
        return f'{self.what} ' + super().describe()

    def build(self, w):
        super().build(w)
        w.when = None       # of the failure

    def restart(self, w):
        self.server = {k: v for k, v in self.server.items() if k != 'redirect_failures'}
        super().restart(w)

    def start_client(self, w, i):
        if not self.app or w.server.exit is not None or not w.net:
            return super().start_client(w, i)
        C = self.C(i)
        c = self.clients[i]
        argv = ['-N', str(c['num_tasks']), '-b', str(c['bundlesize']), '-w', str(c['bundlewait'])]

        def client():
            C.core_signal.register_handlers()
            return C.client.ClientApp.main(argv)
        w.clients[i] = w.add_proc(self.cnames[i], C, client)

    def fault(self, w, t, kind):
        if w.hit or w.fault or w.server.exit is not None:
            return []
        if self.what == 'kill' and t.proc is w.server:
            return ['crash']
        if self.what == 'db' and t.proc is w.server and kind == 'sql':
            return ['fault:db']
        return []

    def offer(self, w, t, kind, obj):
        if w.second or t.proc.inst is None:
            return ()
        self.note(w)
        return super().offer(w, t, kind, obj) + self.fault(w, t, kind)

    def note(self, w):
        if w.when is None and (w.hit or (w.server.exit and w.server.exit[0] == 'killed')):
            w.when = w.now

    def first_done(self, w):
        self.note(w)
        return super().first_done(w)


def failed(p):
    return p.exit[0] == 'exc' or (p.exit[0] == 'ok' and p.exit[1] not in (None, 0))


def oracle(scn, w, reason):
    out = []
    scn.note(w)
    first = [w.server] + [c for c in w.clients if c is not None]
    if not w.second and reason != 'until':
        return [f'{[p.name for p in first if p.alive]} did not end within {w.now - (w.when or EPOCH):.0f} s of the failure ({reason}): '
                f'waiting: {[(t.name, t.what) for t in w.blocked]}']
    if w.when is not None:
        work = max([scn.duration] + [v.get('duration', 0) for v in scn.plan.values() if isinstance(v, dict)])
        for p in first:
            if p.exit_time is not None and p.exit_time > w.when + SOON + scn.slack(w) + (work if p is not w.server else 0):
                out.append(f'{p.name} ended {p.exit_time - w.when:.1f} s after the failure')
        if w.server.exit[0] == 'ok' and w.hit and not finished(scn, w):
            out.append('the server ended as if nothing had happened')
        dismissed = {r[2] for r in w.qlog if r[0] == 'get' and r[1].startswith('scheduled') and r[4] is None}
        for c in first[1:]:
            if c.exit[0] == 'ok' and not failed(c) and c.name not in dismissed:
                out.append(f'{c.name} ended as if nothing had happened')
            if c.exit[0] == 'exc' and not isinstance(c.exit[1], (EOFError, OSError)):
                out.append(f'{c.name} failed with {type(c.exit[1]).__name__}: {c.exit[1]}')
    if scn.again and scn.db:
        out += scn.second_ends(w, reason)
        if not out:
            out += complete(scn, w)
    return out


def finished(scn, w):
    """Everything was done in spite of the failure."""
    if not scn.db:
        return False
    rs = w.mid if getattr(w, 'mid', None) is not None else scn.rows()
    return [r['args'] for r in rs if r['previous_id'] is None] == scn.tasks and all(r['exit_status'] is not None for r in rs)


def complete(scn, w):
    """After the restart everything stored has run; nothing recorded has changed."""
    out = []
    rs = scn.rows()
    for r in rs:
        if r['exit_status'] is None or r['completion_time'] is None:
            out.append(f"task {r['args']}/{r['attempt']} was not completed after the restart")
    now = {r['id']: r for r in rs}
    for r in w.mid:
        if r['completion_time'] is not None and any(now[r['id']][k] != r[k] for k in ('exit_status', 'start_time', 'completion_time', 'client_id')):
            out.append(f"task {r['args']}/{r['attempt']}: its recorded result has changed")
    done = {r['id'] for r in w.mid if r['completion_time'] is not None}
    for r in runs(w)[w.mid_runs:]:
        if r.id in done:
            out.append(f'task {r.args} was executed again although its result had been recorded')
    firsts = [r['args'] for r in rs if r['previous_id'] is None]
    if firsts != scn.tasks[:len(firsts)]:
        out.append(f'stored: {firsts}, not a prefix of the input')
    return out + chains(rs, scn.server.get('max_retries', 0) + 1)


def slack(self, w):
    """Slow threads take their time."""
    return 60.0 if w.policy.startswith('slow') else 0.0


Failing.slack = slack


class BrokenCluster(Cluster):
    """what: as above; the program that fails is the cluster's (server and perhaps client)."""

    def __init__(self, name, what, argv, **k):
        super().__init__(name, argv, oracle=cluster_oracle, **k)
        self.what = what

    def build(self, w):
        super().build(w)
        w.when = None

    def note(self, w):
        if w.when is None and (w.hit or (w.cluster.exit and w.cluster.exit[0] == 'killed')):
            w.when = w.now

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None:
            return ()
        self.note(w)
        L = list(super().offer(w, t, kind, obj))
        if t.proc is w.cluster and not w.hit and not w.fault:
            L += ['crash'] if self.what == 'kill' else ['fault:db'] if kind == 'sql' else []
        return L

    def until(self, w):
        self.note(w)
        return super().until(w) or w.when is None and 'scaling' in self.name and w.now > EPOCH + 25


def cluster_oracle(scn, w, reason):
    scn.note(w)
    if w.when is None:
        return [] if reason == 'until' else [f'the run does not end ({reason})']
    everything = [w.cluster] + scn.clients(w)
    if reason != 'until':
        return [f'{[p.name for p in everything if p.alive]} did not end within {w.now - w.when:.0f} s of the failure ({reason}): '
                f'waiting: {[(t.name, t.what) for t in w.blocked]}']
    out = []
    for p in everything:
        if p.exit_time is not None and p.exit_time > w.when + SOON + scn.duration + (60 if w.policy.startswith('slow') else 0):
            out.append(f'{p.name} ended {p.exit_time - w.when:.1f} s after the failure')
    if w.hit and w.cluster.exit[0] == 'ok' and w.cluster.exit[1] == 0 and not all(r['exit_status'] is not None for r in scn.rows()):
        out.append('the cluster ended as if nothing had happened')
    return out


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'b': {'duration': 3.0, 'status': 1}}
    one = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART)]
    two = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART), dict(num_tasks=2, bundlesize=2, bundlewait=2, heartrate=HEART, at=3.0)]
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo', 'rr')
    T = ('a', 'b', 'c', 'd', 'e', 'f')
    for what, (n, b), clients in itertools.product(('kill', 'db'), ((4, 1), (6, 4)), (one, two)):
        S.append(Failing(f'{what}-b{b}-c{len(clients)}', what, T[:n], dict(bundlesize=b, bundlewait=1), clients, plan, offers=(), policies=pol, horizon=140,
                         starve=deep or (what == 'db' and b == 1), again=what == 'db' or deep))
    S.append(Failing('kill-long-task', 'kill', T[:4], dict(bundlesize=4), one, {'a': {'duration': 20.0}}, offers=(), policies=pol, horizon=140, again=False))
    S.append(Failing('kill-app', 'kill', T[:4], dict(bundlesize=2), two, plan, offers=(), policies=('fifo', 'rr'), starve=False, horizon=140, again=False, app=True))
    S.append(Failing('kill-open-input', 'kill', T[:4], dict(bundlesize=1), one, plan, feed=(0, 2, 60, 60), offers=(), policies=('fifo',), starve=False, horizon=300, again=False))
    S.append(Failing('db-open-input', 'db', T[:4], dict(bundlesize=1, bundlewait=1), one, plan, feed=(0, 2, 60, 60), offers=(), policies=('fifo', 'rr'), starve=False, horizon=300))
    S.append(Failing('db-retries', 'db', T[:4], dict(bundlesize=2, bundlewait=1, max_retries=1), one, plan, offers=(), policies=pol, horizon=140))
    S.append(Failing('db-eviction', 'db', T[:3], dict(bundlesize=1, bundlewait=1, evict_after=10), [dict(one[0], at=3.0), dict(one[0], heartrate=60)],
                     {'a': {'duration': 20.0}}, offers=(), policies=('fifo',), starve=False, horizon=140))
    S.append(Failing('db-noconfirm', 'db', T[:4], dict(bundlesize=2, bundlewait=1, no_confirm=True), [dict(one[0], no_confirm=True)], plan, offers=(), policies=('fifo',),
                     starve=False, horizon=140))
    S.append(Failing('db-restart', 'db', T[:3], dict(bundlesize=1), one, plan, offers=(), policies=('fifo', 'rr'), starve=False, horizon=140,
                     main=lambda scn, w: scn.S.server.serve_from(scn.lines(w), restart_mode=True, **scn.server)))
    for n in (0, 1):
        S.append(Failing(f'stream-{n}', 'stream', T, dict(bundlesize=2, bundlewait=1), one, {'a': 1, 'c': 1}, offers=('delay',), policies=pol, horizon=140, breaks=n))
        S.append(Failing(f'stream-nodb-{n}', 'stream', T, dict(bundlesize=2, bundlewait=1, in_memory=True), one, {'a': 1, 'c': 1}, offers=('delay',), policies=pol, horizon=140, breaks=n,
                         db=False, again=False))
    S.append(Failing('kill-nodb', 'kill', T, dict(bundlesize=4, in_memory=True), one, plan, offers=(), policies=pol, horizon=140, db=False, again=False))
    if deep:
        S.append(Failing('db-delays', 'db', T[:3], dict(bundlesize=1, bundlewait=1), one, plan, offers=('delay',), policies=('fifo',), depth=2, window=40, starve=False, horizon=140))
        S.append(Failing('kill-delays', 'kill', T[:4], dict(bundlesize=4, bundlewait=1), one, plan, offers=('delay',), policies=('fifo',), depth=2, window=40, starve=False, horizon=140, again=False))
    env = {'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}
    for what in ('kill', 'db'):
        if what == 'db':
            S.append(BrokenCluster('local-db', what, ['FILE', '-N1', '-b2', '-w1'], env=env, plan=plan, offers=(), policies=pol))
        S.append(BrokenCluster(f'remote-{what}', what, ['FILE', '-N1', '-b2', '-w1', '--launcher', 'srun'], env=env, plan=plan, offers=(), policies=pol))
        S.append(BrokenCluster(f'scaling-{what}', what, ['FILE', '-N1', '-b2', '-w1', '--autoscaling', 'fixed', '-X', '1', '-P', '3', '--launcher', 'launch'], env=env, plan=plan, offers=(), policies=pol, horizon=120))
    return Check('P30', S)
