"""P34: Ctrl-C ends a program at once with status 4, says so, disturbs no other program, and loses nothing."""
import itertools

import inst
import messages
from checks.p09 import Submit
from checks.p28 import Live
from checks.p30 import HEART, SOON, Failing, complete
from clusters import Cluster
from explore import Check, get_inst
from fleet import chains, runs
from sched import EPOCH

STATUS = 4
#: the thread that runs the program is interrupted where it waits; closing files and the database takes no virtual time
AT_ONCE = 1.0
SAID = 'interrupt'


class Spoken:
    """Interrupts one program (`who`) once, at any step of it."""
    who = 'server'

    def attach(self, w):
        messages.attach(w, self.speakers(), None)

    def teardown(self, w):
        messages.detach()
        super().teardown(w)

    def target(self, w):
        return next((p for p in w.procs if p.name == self.who), None)

    def strike(self, w, t):
        p = self.target(w)
        if p is None or not p.alive or p.main is None or p.main.done or w.interrupted or t.proc is not p or getattr(w, 'second', None):
            return []
        return ['interrupt:' + self.who]

    def slack(self, w):
        return 60.0 if w.policy.startswith('slow') else 0.0

    def verdict(self, w, app):
        """The interrupted program."""
        if not w.interrupted:
            return []
        when, _ = w.interrupted
        p = self.target(w)
        if p.exit is None:
            return [f'{p.name} goes on after the interrupt: {[(t.name, t.what) for t in w.blocked if t.proc is p]}']
        out = []
        if p.exit_time > when + AT_ONCE + self.slack(w):
            out.append(f'{p.name} ended {p.exit_time - when:.1f} s after the interrupt')
        how, what = p.exit
        if app and how == 'exc' and str(what).startswith('exit status '):       # as reported by the scenario of P09
            how, what = 'ok', int(str(what)[12:])
        if p.main.pending is not None:
            return out                   # it was ending by itself
        if how == 'exc':
            if not isinstance(what, KeyboardInterrupt):
                out.append(f'{p.name} failed with {type(what).__name__}: {what}')
            elif app:
                out.append(f'{p.name} does not handle the interrupt')
        elif not app:
            out.append(f'{p.name} returned {what!r} although it was interrupted')
        elif what != STATUS:
            out.append(f'{p.name} ended with status {what!r} although it was interrupted')
        elif not any(n == p.name and lv == 'CRITICAL' and SAID in x for _, n, lv, _, x in w.messages):
            out.append(f'{p.name} does not say that it was interrupted: {[m for m in w.messages if m[1] == p.name][-3:]}')
        return out


class Stopped(Spoken, Failing):
    """A server (embedded or as a program) with clients; then a restart completes everything."""

    def __init__(self, name, who, *a, **k):
        super().__init__(name, 'interrupt', *a, offers=k.pop('offers', ()), **k)
        self.who = who
        self.oracle = stopped

    def speakers(self):
        return [self.S] + [self.C(i) for i in range(len(self.clients))]

    def build(self, w):
        super().build(w)
        self.attach(w)
        w.watch = None

    def fault(self, w, t, kind):
        return self.strike(w, t)

    def note(self, w):
        if w.when is None and w.interrupted:
            w.when = w.now
        if w.when is None and w.server.exit is not None and self.who != 'server':
            return
        if self.who != 'server' and w.when is not None and w.watch is None and not w.second:
            w.watch = w.server.alive
            if w.server.alive:        # nobody finishes the work of this client: look on for a while, then end the server
                w.at(w.now + SOON + self.slack(w), lambda: self.end_server(w))

    def end_server(self, w):
        w.struck_clients = [p.name for p in w.clients if p is not None and p.alive]
        if w.server.alive and not w.second:
            w.kill(w.server)


def stopped(scn, w, reason):
    scn.note(w)
    first = [w.server] + [c for c in w.clients if c is not None]
    if not w.second and reason != 'until':
        return [f'{[p.name for p in first if p.alive]} did not end within {w.now - (w.when or EPOCH):.0f} s ({reason}): '
                f'waiting: {[(t.name, t.what) for t in w.blocked]}']
    out = scn.verdict(w, scn.app)
    if w.when is not None:
        work = max([scn.duration] + [v.get('duration', 0) for v in scn.plan.values() if isinstance(v, dict)])
        end = w.when if scn.who == 'server' else w.when + SOON + scn.slack(w)
        for p in first:
            if p.name != scn.who and p.exit_time is not None and p.exit_time > end + SOON + scn.slack(w) + work and p is not w.server:
                out.append(f'{p.name} ended {p.exit_time - end:.1f} s after the server')
        if scn.who != 'server' and w.server.exit[0] == 'exc':
            out.append(f'the server failed with {w.server.exit[1]!r} when a client was interrupted')
        for p in first[1:]:
            if p.name != scn.who and p.exit[0] == 'exc' and not isinstance(p.exit[1], (EOFError, OSError)):
                out.append(f'{p.name} failed with {type(p.exit[1]).__name__}: {p.exit[1]}')
    if scn.again and scn.db:
        out += scn.second_ends(w, reason)
        if not out:
            out += complete(scn, w)
    return out


class StoppedCluster(Spoken, Cluster):
    """A cluster program; then it is restarted."""
    who = 'cluster'

    def __init__(self, name, argv, **k):
        super().__init__(name, argv, oracle=cluster_stopped, **k)

    def speakers(self):
        return [self.S]

    def setup(self):
        super().setup()
        if self.db:
            get_inst('cluster-again', env=self.env).reset()

    def build(self, w):
        super().build(w)
        self.attach(w)
        w.second = w.again = None

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None or w.second:
            return ()
        return list(super().offer(w, t, kind, obj)) + self.strike(w, t)

    def until(self, w):
        if not w.second:
            if w.cluster.exit is None or any(p.exit is None for p in self.clients(w)):
                return not w.interrupted and 'scaling' in self.name and w.now > EPOCH + 25
            w.second, w.mid, w.mid_runs, w.first = True, self.rows() if self.db else None, len(runs(w)), list(self.clients(w))
            if not self.db:
                return True
            I = get_inst('cluster-again', env=self.env)
            w.again = w.add_proc('again', I, lambda: (I.core_signal.register_handlers(), I.cluster.ClusterApp.main(['--restart', '-N2', '-b1', '-w1']))[1])
        return w.again is not None and w.again.exit is not None


def cluster_stopped(scn, w, reason):
    everything = [w.cluster] + scn.clients(w)
    if not w.second:
        if not w.interrupted:
            return [] if reason == 'until' else [f'the run does not end ({reason})']
        return [f'{[p.name for p in everything if p.alive]} did not end within {w.now - w.interrupted[0]:.0f} s of the interrupt ({reason}): '
                f'waiting: {[(t.name, t.what) for t in w.blocked]}']
    out = scn.verdict(w, True)
    if w.interrupted:
        for p in w.first:
            if p.exit_time is not None and p.exit_time > w.interrupted[0] + SOON + scn.duration + scn.slack(w):
                out.append(f'{p.name} ended {p.exit_time - w.interrupted[0]:.1f} s after the interrupt')
    if not scn.db:
        return out
    if reason != 'until':
        return out + [f'the restarted cluster does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    rs = scn.rows()
    now = {r['id']: r for r in rs}
    if w.again.exit != ('ok', 0):
        out.append(f'the restarted cluster ended with {w.again.exit}')
    for r in rs:
        if r['exit_status'] is None or r['completion_time'] is None:
            out.append(f"task {r['args']}/{r['attempt']} was not completed after the restart")
    for r in w.mid:
        if r['completion_time'] is not None and any(now[r['id']][k] != r[k] for k in ('exit_status', 'start_time', 'completion_time', 'client_id')):
            out.append(f"task {r['args']}/{r['attempt']}: its recorded result has changed")
    done = {r['id'] for r in w.mid if r['completion_time'] is not None}
    for r in runs(w)[w.mid_runs:]:
        if r.id in done:
            out.append(f'task {r.args} was executed again although its result had been recorded')
    firsts = [r['args'] for r in rs if r['previous_id'] is None]
    want = scn.tasks if not w.interrupted else scn.tasks[:len(firsts)]
    if firsts != want:
        out.append(f'stored: {firsts} of {scn.tasks}')
    return out + chains(rs, 1)


class StoppedSubmit(Spoken, Submit):
    who = 'submit'

    def speakers(self):
        return [self.S]

    def build(self, w):
        super().build(w)
        self.attach(w)

    def offer(self, w, t, kind, obj):
        return list(super().offer(w, t, kind, obj)) + (self.strike(w, t) if t.proc.inst is not None else [])

    def check(self, w, reason):
        if not w.interrupted:
            return super().check(w, reason)
        out = self.verdict(w, self.app)
        rows = inst.rows(self.S.dbpath)[self.previous:]
        exp = [self.template.replace('{}', x.strip()).strip() for x in self.lines]
        got = [r['args'] for r in rows]
        if got != exp[:len(got)]:
            out.append(f'stored {got}, which is not a prefix of the input {exp}')
        if len(got) % self.size and len(got) != len(exp) and self.no_wait(w):
            out.append(f'{len(got)} tasks are stored: part of a bundle of {self.size}')
        if len({r['id'] for r in rows}) != len(rows):
            out.append('ids are not unique')
        return out

    def no_wait(self, w):
        return not any(self.feed)


class StoppedUser(Spoken, Live):
    """`hs task run` / `hs task wait` is interrupted; what it submitted is completed."""
    who = 'user'

    def speakers(self):
        return [self.U]

    def build(self, w):
        super().build(w)
        self.attach(w)

    def offer(self, w, t, kind, obj):
        return list(super().offer(w, t, kind, obj)) + (self.strike(w, t) if t.proc.inst is not None else [])

    def until(self, w):
        return super().until(w) and (not w.interrupted or w.now > w.interrupted[0] + 30 + self.slack(w))

    def check(self, w, reason):
        if not w.interrupted:
            return []
        if reason != 'until':
            return [f'does not end ({reason}): {[(t.name, t.what) for t in w.blocked]}']
        out = self.verdict(w, True)
        if w.server.exit is not None or any(c.exit is not None for c in w.clients):
            out.append(f'server {w.server.exit}, clients {[c.exit for c in w.clients]}')
        for r in self.rows():
            if r['completion_time'] is None or (r['exit_status'] or 0) < 0:
                out.append(f"{r['args']}: {r['exit_status']} at the end")
        return out


def make(tier):
    deep = tier == 'thorough'
    S = []
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo', 'rr')
    plan = {'b': {'duration': 3.0, 'status': 1}}
    one = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART)]
    two = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART), dict(num_tasks=2, bundlesize=2, bundlewait=2, heartrate=HEART, at=3.0)]
    T = ('a', 'b', 'c', 'd', 'e', 'f')
    for who, (n, b), clients in itertools.product(('server', 'client1'), ((4, 1), (6, 4)), (one, two)):
        S.append(Stopped(f'{who}-b{b}-c{len(clients)}', who, T[:n], dict(bundlesize=b, bundlewait=1), clients, plan, policies=pol, horizon=200, starve=deep))
    S.append(Stopped('server-retries', 'server', T[:4], dict(bundlesize=2, bundlewait=1, max_retries=1), one, plan, policies=pol, horizon=140, starve=False))
    S.append(Stopped('server-open-input', 'server', T[:4], dict(bundlesize=1), one, plan, feed=(0, 2, 60, 60), policies=('fifo',), starve=False, horizon=300))
    S.append(Stopped('server-eager', 'server', T[:4], dict(bundlesize=2, eager=True), one, plan, policies=('fifo',), starve=False, horizon=300))
    S.append(Stopped('server-nodb', 'server', T, dict(bundlesize=4, in_memory=True), one, plan, policies=pol, horizon=140, db=False, again=False))
    S.append(Stopped('client-app', 'client1', T[:4], dict(bundlesize=2), two, plan, policies=('fifo', 'rr'), starve=False, horizon=200, app=True))
    S.append(Stopped('client-long', 'client1', T[:4], dict(bundlesize=2), [dict(one[0], num_tasks=2)], {'a': {'duration': 20.0}, 'b': {'duration': 30.0}}, policies=('fifo',), starve=False, horizon=200, app=True))
    env = {'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}
    for nm, more in (('local', []), ('remote', ['--launcher', 'srun']), ('scaling', ['--autoscaling', 'fixed', '-X', '1', '-P', '3', '--launcher', 'launch'])):
        S.append(StoppedCluster(f'{nm}', ['FILE', '-N1', '-b2', '-w1', *more], env=env, plan=plan, offers=(), policies=pol, horizon=200))
    S.append(StoppedCluster('local-nodb', ['FILE', '-N1', '-b2', '-w1', '--no-db'], env=env, plan=plan, offers=(), policies=pol, db=False))
    for app, size, feed in itertools.product((False, True), (1, 2, 4), (None, [0, 0, 2, 0, 5])):
        if feed is None or not app:
            S.append(StoppedSubmit(f'submit-{"app" if app else "fn"}-{size}-{"slow" if feed else "fast"}', T[:5], feed, size=size, wait=1, app=app, offers=(), policies=pol, starve=deep))
    for nm, app, argv in (('run', 'TaskRunApp', ['a']),):
        S.append(StoppedUser(f'task-{nm}', argv, {'a': {'duration': 4.0}}, main=app, offers=(), policies=('fifo', 'rr'), starve=False))
    return Check('P34', S)
