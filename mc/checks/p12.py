"""P12: user signals drain the client or server without losing work."""
import collections
import json
import signal
from explore import Check
from clusters import Cluster, died, signal_cluster
from bench import ClientBench, client_ended, client_ids, returned_once
from fleet import Again, ends, runs, send_signal, task_ids, traffic
from sched import EPOCH

USR1, USR2 = signal.SIGUSR1, signal.SIGUSR2
INT, TERM, KILL = signal.SIGINT, signal.SIGTERM, signal.SIGKILL
ORDER = [int(INT), int(TERM), int(KILL)]


# ------------------------------------------------------------------------------------------- client
def usr(n):
    def fire(scn, w):
        c = w.clients[0]
        if c is not None and c.alive and USR1 in c.handlers and not (n == USR1 and getattr(w, 'sig', None)):
            w.sig = getattr(w, 'sig', None) or {}
            w.sig.setdefault(n, w.now)
            send_signal(c, n)
    return fire


def interrupts(rs, t2, W, exact, out):
    """Tasks are interrupted after USR2, in the usual order and at the usual pace, and never otherwise."""
    for r in rs:
        s = r.popen.signals
        if [x for x, _ in s] != ORDER[:len(s)]:
            out.append(f'{r.args} was sent {s}')
        if s and (t2 is None or s[0][1] < t2):
            out.append(f'{r.args} was interrupted without a reason')
        if exact and t2 is not None and r.end is not None:
            due = max(t2, r.start) + 1.1
            for k in range(3):
                if k < len(s):
                    if s[k][1] > due:
                        out.append(f'{r.args}: signal {k + 1} at {s[k][1] - EPOCH:.2f} s, due at {due - EPOCH:.2f} s')
                    if k and s[k][1] < s[k - 1][1] + W - 0.01:
                        out.append(f'{r.args}: signal {k + 1} only {s[k][1] - s[k - 1][1]:.2f} s after the previous one')
                    due = s[k][1] + W + 1.1
                else:
                    if r.end > due:
                        out.append(f'{r.args} ran until {r.end - EPOCH:.2f} s, signal {k + 1} was due at {due - EPOCH:.2f} s')
                    break


def client_oracle(scn, w, reason):
    out = []
    if not client_ended(w, reason, out):
        return out
    kw = scn.clients[0]
    sig = getattr(w, 'sig', None) or {}
    t0 = min(sig.values()) if sig else None
    ret = {t['id']: t for _, _, t, _ in returned_once(w, out)}
    rs = runs(w)
    n = collections.Counter(r.id for r in rs)
    got = client_ids(w)
    if n != collections.Counter(got):
        out.append(f'received {len(got)} tasks, ran {dict(n)}')
    for r in rs:
        t = ret.get(r.id)
        if t is not None and t['exit_status'] != r.status:
            out.append(f"{r.args} ended with {r.status} and was returned with {t['exit_status']}")
    exact = w.slow is None and w.last is None and not (w.chooser.devs and scn.stalls)
    if t0 is not None:
        late = [t for t, _, b in traffic(w, 'get', 'scheduled') if b is not None and t > t0]
        if len(late) > 1 or exact and any(t > t0 + 2.1 for t in late):
            out.append(f'signalled at {t0 - EPOCH:.2f} s, took bundles at {[round(t - EPOCH, 2) for t in late]}')
    interrupts(rs, sig.get(USR2), kw.get('task_signalwait', 10), exact, out)
    if exact and t0 is not None:
        work = [r.end for r in rs if r.end is not None]
        last = max([t0] + work)
        if w.clients[0].exit_time > last + 8 + max(scn.accept) * 2:
            out.append(f'signalled at {t0 - EPOCH:.1f} s, last task ended at {last - EPOCH:.1f} s, left at {w.clients[0].exit_time - EPOCH:.1f} s')
    return out


# ------------------------------------------------------------------------------------------- server
class Signalled(Again):
    """The server is signalled at any moment (and maybe its client, too), then started again."""

    def __init__(self, name, *a, signum=USR1, also=None, grace=60, **k):
        super().__init__(name, *a, **k)
        self.signum, self.also, self.grace = signum, also, grace
        self.events = {'usr': lambda scn, w: scn.signal(w)} if not k.get('events') else {'usr': (k['events'], lambda scn, w: scn.signal(w))}

    def signal(self, w):
        if w.server.alive and USR1 in w.server.handlers:
            w.sig = w.now
            send_signal(w.server, self.signum)
        if self.also:
            for c in w.clients:
                if c is not None and c.alive and USR1 in c.handlers:
                    send_signal(c, self.also)

    def first_done(self, w):
        if w.server.exit is None:
            return False
        return all(c.exit is not None if c is not None else True for c in w.clients)

    def oracle_(self, w, reason):
        out = ends(self, w, reason)
        out += self.second_ends(w, reason)
        if out:
            return out
        sig = getattr(w, 'sig', None)
        first = w.mid if self.again else self.rows()
        n1 = w.mid_runs if self.again else 10**9
        rs = runs(w)
        by = {r['id']: r for r in first}
        if sig is not None:
            late = [(t, b) for t, p, b in traffic(w, 'put', 'scheduled') if b is not None and p == 'server' and t > sig]
            if len(late) > 1:
                out.append(f'signalled at {sig - EPOCH:.2f} s, handed out bundles at {[round(t - EPOCH, 2) for t, _ in late]}')
        taken = [i for _, p, b in traffic(w, 'get', 'scheduled') if p.startswith('client') for i in task_ids(b)]
        for i in taken:
            r = by[i]
            if r['completion_time'] is None or r['exit_status'] is None:
                out.append(f"{r['args']} was handed out and its result was not collected")
        for r in first:
            if r['id'] not in taken and (r['completion_time'] is not None or r['exit_status'] is not None):
                out.append(f"{r['args']} was not handed out and has a result")
        stored = sorted(r['args'] for r in first if r['previous_id'] is None)
        if stored != sorted(self.tasks) and not self.forever:
            out.append(f'stored {stored}')
        if self.again:
            done = {r['id'] for r in first if r['completion_time'] is not None}
            n = collections.Counter(r.id for r in rs)
            for r in self.rows():
                if r['completion_time'] is None or n[r['id']] != 1:
                    out.append(f"after the restart: {r['args']}/{r['attempt']} ran {n[r['id']]} times, status {r['exit_status']}")
                if r['id'] in done and {k: v for k, v in r.items() if k not in ('retried', 'next_id')} != \
                        {k: v for k, v in by[r['id']].items() if k not in ('retried', 'next_id')}:
                    out.append(f"after the restart: the record of {r['args']} has changed")
        return out

    def check(self, w, reason):
        return self.oracle_(w, reason)


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'b': {'duration': 2.3, 'status': 3}, 'c': {'duration': 4.2}, 'd': {'duration': 1.4, 'on': {INT: ('ignore',)}},
            'e': {'duration': 25, 'on': {INT: ('ignore',), TERM: ('die', 0.7, 4)}}, 'f': {'duration': 0.2}}
    B = [(0, ['a', 'b', 'c']), (0, ['d', 'f']), (9, ['g'])]
    E = [(0, ['a', 'e']), (0, ['b', 'c'])]
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo',)
    for n, b in ((1, 2), (2, 3)) if not deep else ((1, 1), (1, 2), (2, 3), (3, 2)):
        for name, ev in (('usr1', {'usr1': usr(USR1)}), ('usr2', {'usr2': usr(USR2)}), ('both', {'usr1': usr(USR1), 'usr2': usr(USR2)})):
            S.append(ClientBench(f'client-{name}-x{n}-b{b}', B, dict(num_tasks=n, bundlesize=b, bundlewait=2, task_signalwait=2), plan, dismiss=4,
                                 oracle=client_oracle, events=ev, offers=(), depth=2 if name == 'both' else 1, window=None if deep else 30, policies=pol,
                                 until=stopped))
        S.append(ClientBench(f'client-usr2-hard-x{n}-b{b}', E, dict(num_tasks=n, bundlesize=b, bundlewait=2, task_signalwait=2), plan, dismiss=5,
                             oracle=client_oracle, events={'usr2': usr(USR2)}, offers=('delay', 'stall:3') if deep else (), depth=1, policies=pol, until=stopped))
    S.append(ClientBench('client-usr1-slow-server', B, dict(num_tasks=2, bundlesize=2, bundlewait=2), plan, dismiss=4, accept=(6,), oracle=client_oracle,
                         events={'usr1': usr(USR1)}, offers=('delay',), depth=1, policies=pol, until=stopped))
    plan = {'b': {'duration': 3.0, 'status': 3}, 'c': {'duration': 0.4}}
    L = ('a', 'b', 'c', 'd', 'e')
    for signum in (USR1, USR2):
        for b, n, r in ((1, 1, 0), (2, 2, 1)) if not deep else ((1, 1, 0), (1, 2, 1), (2, 2, 1), (3, 1, 2)):
            S.append(Signalled(f'server-usr{1 if signum == USR1 else 2}-b{b}-x{n}-r{r}', L, dict(bundlesize=b, bundlewait=1, max_retries=r),
                               [dict(num_tasks=n, bundlesize=b, bundlewait=1)], plan, signum=signum, offers=(), depth=1, policies=('fifo', 'lifo') if not deep else ('fifo', 'rr', 'lifo'), starve=False))
    S.append(Signalled('server-slow-input', L, dict(bundlesize=1, bundlewait=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)], plan, feed=[0, 1, 3, 4, 9],
                       offers=(), depth=1, policies=('fifo',), starve=False))
    S.append(Signalled('server-and-client', L, dict(bundlesize=1, bundlewait=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)], plan, also=USR1,
                       offers=('delay',) if deep else (), depth=1, policies=('fifo', 'lifo'), starve=False))
    S.append(Signalled('server-two-clients', L, dict(bundlesize=1, bundlewait=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1), dict(num_tasks=1, bundlesize=2, bundlewait=1, at=4)],
                       plan, offers=(), depth=1, policies=('fifo',), starve=False))
    S.append(Signalled('server-no-client', L, dict(bundlesize=1, bundlewait=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1, at=None)], plan,
                       events=6, offers=(), depth=1, policies=('fifo',), starve=False))
    S.append(Signalled('server-late-client', L, dict(bundlesize=1, bundlewait=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1, at=12)], plan,
                       offers=(), depth=1, policies=('fifo',), starve=False))
    for signum, name in ((USR1, 'usr1'), (USR2, 'usr2')):
        for argv in (('-N', '1'), ('-N', '2', '-b', '2', '-r', '1')):
            S.append(Cluster(f"cluster-{name}{''.join(argv)}", ['FILE', *argv, '-w', '1'], tasks=L, plan={'b': {'duration': 7.0, 'status': 3}, 'c': {'duration': 0.4}}, offers=('delay',) if deep else (), depth=1,
                             events={name: signal_cluster(signum)}, policies=pol, oracle=cluster_oracle))
    return Check('P12', S)


# ------------------------------------------------------------------------------------------- server and client in one program
def cluster_oracle(scn, w, reason):
    if reason != 'until':
        return [f'it does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    out = []
    if w.cluster.exit != ('ok', 0):
        out.append(f'it ended with {w.cluster.exit}: {died(w)}')
    rows = scn.rows()
    if sorted(r['args'] for r in rows if r['previous_id'] is None) != sorted(scn.tasks):
        out.append(f"stored {sorted(r['args'] for r in rows)}")
    rs = runs(w)
    n = collections.Counter(r.id for r in rs)
    by = {r.id: r for r in rs}
    for r in rows:
        who = f"{r['args']}/{r['attempt']}"
        if n[r['id']] > 1:
            out.append(f"{who} ran {n[r['id']]} times")
        elif n[r['id']]:
            if r['completion_time'] is None or r['exit_status'] != by[r['id']].status:
                out.append(f"{who} ended with {by[r['id']].status}, recorded {r['exit_status']}")
        elif r['exit_status'] is not None or r['completion_time'] is not None:
            out.append(f"{who} did not run, recorded {r['exit_status']}")
        elif r['schedule_time'] is not None:
            out.append(f'{who} was handed out and did not run')
    sig = w.signalled
    interrupts(rs, sig if 'usr2' in scn.events else None, 10, w.slow is None and w.last is None and not (w.chooser.devs and scn.stalls), out)
    if sig is None:
        if any(r['completion_time'] is None for r in rows):
            out.append('work is left without a signal')
    else:
        late = [t for t, _, b in traffic(w, 'put', 'scheduled') if b is not None and t > sig]
        if len(late) > 1:
            out.append(f'signalled at {sig - EPOCH:.2f} s, handed out bundles at {[round(t - EPOCH, 2) for t in late]}')
    return out


def stopped(scn, w):
    """The client has left, or nobody has asked it to."""
    c = w.clients[0]
    if c is not None and c.exit is not None:
        return w.server.exit is not None or w.now > c.exit_time + 30
    return False
