"""P17: without a database every task still runs exactly once and the run ends."""
import collections
import io
import itertools
import os

from explore import Check
from fleet import ALL_LINES, Fleet, ends, runs, traffic
from sched import EPOCH


class Memory(Fleet):
    """configured: a database is configured and must stay untouched; else none is (and `ask` need not be given)."""

    def __init__(self, name, tasks, server=None, clients=({},), plan=None, configured=False, ask=True, **k):
        self.stream = None
        self.configured = configured
        kw = dict(bundlesize=1, bundlewait=1)
        kw = {**kw, **(server or {})}
        if ask:
            kw['in_memory'] = True
        k.setdefault('horizon', 400.0)
        super().__init__(name, tasks, kw, [dict(dict(bundlesize=1, bundlewait=1), **c) for c in clients], plan, db=configured, oracle=oracle, **k)

    def setup(self):
        super().setup()
        self.stream = self.server['redirect_failures'] = io.StringIO()
        if self.configured:
            os.remove(self.S.dbpath)        # not even created

    def describe(self):
        return f'lines {self.tasks} feed {self.feed} server { {k: v for k, v in self.server.items() if k != "redirect_failures"} } ' \
               f'clients {self.clients} database configured {self.configured} plan {self.plan}'


    def outcome(self, w, reason):
        return f'{reason} ' + ','.join(sorted(f'{r.args}:{r.client}:{r.status}' for r in runs(w)))


def returned(w):
    """Tasks in the order in which the server took their results."""
    import json
    return [json.loads(b) for _, p, bundle in traffic(w, 'get', 'completed', 'server') if bundle for b in bundle]


def failures(scn, w, text, out):
    """The stream has one line per failed attempt, in the order of return."""
    want = [t['args'] for t in returned(w) if t['exit_status'] != 0]
    got = text.splitlines()
    if got != want:
        out.append(f'failure stream {got}, failed attempts in the order of return {want}')
    ran = collections.Counter((r.args, r.attempt) for r in runs(w) if r.status != 0)
    back = collections.Counter((t['args'], t['attempt']) for t in returned(w) if t['exit_status'] != 0)
    if ran != back:
        out.append(f'failed attempts {sorted(ran)}, returned as failed {sorted(back)}')
    if text and not text.endswith('\n'):
        out.append('the last line of the failure stream is incomplete')


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    want = collections.Counter(x.strip() for x in scn.tasks)
    got = collections.Counter(r.args for r in runs(w))
    if got != want:
        out.append(f'executed {sorted(got.items())} for lines {sorted(want)}')
    if out:
        return out
    failures(scn, w, scn.stream.getvalue(), out)
    if scn.S.statements:
        out.append(f'{scn.S.statements} database statements were executed')
    if scn.configured and os.path.exists(scn.S.dbpath):
        out.append('the database was created')
    return out


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for conf, ask in ((True, True), (False, True), (False, False)):
        for n in (0, 1, 2, 3, 5) if not deep else range(0, 8):
            for sb, sw in ((1, 1), (2, 1), (3, 30), (4, 2)):
                for cb, nt, nc in ((1, 1, 1), (2, 2, 1), (1, 1, 2), (3, 2, 2)):
                    for dur in (0.3, 5.0):
                        for feed in (0, 1.7) if n > 1 else (0,):
                            L.append((conf, ask, n, sb, sw, cb, nt, nc, dur, feed))
    return L


def run_case(case):
    conf, ask, n, sb, sw, cb, nt, nc, dur, feed = case
    lines = [f'l{i}' for i in range(n)]
    scn = Memory('case', lines, dict(bundlesize=sb, bundlewait=sw), [dict(num_tasks=nt, bundlesize=cb, at=2 + 3 * i) for i in range(nc)],
                 {x: {'status': i % 2, 'duration': dur} for i, x in enumerate(lines)}, conf, ask, feed=[feed] * n if feed else None)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'b': 3, 'c': {'duration': 4.5, 'status': 1}, 'd': {'duration': 0.0, 'status': -9}}
    off = ('delay', 'stall:3') if deep else ('delay',)
    for b, n, k in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        S.append(Memory(f'b{b}-x{n}-c{k}', ('a', 'b', 'c', 'd') if b > 1 else ('a', 'b', 'c'), dict(bundlesize=b),
                        [dict(num_tasks=n, bundlesize=b, at=1.0 + 1.5 * i) for i in range(k)], plan, configured=bool(b % 2), offers=off, depth=1,
                        policies=('fifo', 'rr', 'lifo') if k == 1 or deep else ('fifo', 'lifo')))
    S.append(Memory('slow-end', ('a', 'b', 'c', 'd', 'e'), dict(bundlesize=2), [dict(num_tasks=1)], {x: {'duration': 6.0, 'status': 0} for x in 'abcde'},
                    offers=('delay', 'stall:3'), depth=1, policies=('fifo', 'lifo')))
    S.append(Memory('late-client', ('a', 'b', 'c'), dict(bundlesize=1), [dict(num_tasks=1, at=9)], plan, ask=False, offers=off, depth=1, policies=('fifo', 'lifo')))
    S.append(Memory('noconfirm', ('a', 'b', 'c'), dict(bundlesize=2, no_confirm=True), [dict(num_tasks=2, bundlesize=2, no_confirm=True)], plan, offers=off, depth=1))
    S.append(Memory('retries', ('a', 'b', 'c'), dict(bundlesize=2, max_retries=2), [dict(num_tasks=2, bundlesize=2)], plan, configured=True, offers=off, depth=1))
    S.append(Memory('lines', ('a', 'b', 'c'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=2)], plan, offers=off, depth=1, fine=ALL_LINES,
                    policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    # one thread is held up at any statement
    for who in ('server/hypershell-server', 'receiver', 'submit', 'heartmonitor', 'client-scheduler', 'executor-1', 'collector'):
        for sec in (1.5, 5, 12) if deep else (5,):
            S.append(Memory(f'held-up-{who.split("-")[-1]}-{sec}', ('a', 'b', 'c'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=2)], plan, fine=('server', 'client', 'submit'),
                            offers=(f'stall:{sec}@{who}',), depth=1, policies=('fifo', 'rr') if deep else ('fifo',)))
    if deep:
        S.append(Memory('pairs', ('a', 'b', 'c'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=2)], plan, offers=('delay',), depth=2, window=40,
                        policies=('fifo',), starve=False))
    return Check('P17', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: line counts x bundle sizes and waits x executors x clients x durations x pace of the input x database configured or not. '
                 'Scenarios: complete executions under the controlled scheduler with every single alternative at every point.')
