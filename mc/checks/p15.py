"""P15: an idle client leaves after its timeout, never earlier and never with work."""
import itertools
import json
import os

from bench import ClientBench, client_ended, final_beats, returned_once
from explore import Check
from fleet import runs, traffic
from sched import EPOCH

POLL = 2.0          # the client looks for tasks with this timeout
CLOSE = 5.0         # executors, collector and heartbeat notice the end by polling


class Idle(ClientBench):
    """gaps: seconds between the moments at which bundles are handed out; None dismissal."""

    def __init__(self, name, gaps, timeout, durations, n=1, b=1, size=1, delay_start=0, dismiss=None, **k):
        at, bundles, plan = 2.0, [], {}
        for i, g in enumerate(gaps):
            at += g
            lines = [f't{i}.{j}' for j in range(size)]
            bundles.append((at, lines))
            for x in lines:
                plan[x] = {'duration': durations[i % len(durations)], 'status': 0}
        self.timeout = timeout
        self.last_at = at
        client = dict(num_tasks=n, bundlesize=b, bundlewait=1, delay_start=delay_start)
        if timeout is not None:
            client['client_timeout'] = timeout
        k.setdefault('horizon', at + sum(durations) * len(gaps) * size + 60 + delay_start)
        super().__init__(name, bundles, client, plan, dismiss=dismiss, oracle=oracle, **k)

    def until(self, w):
        # the scripted server stays to the end if the client leaves by itself
        c = w.clients[0]
        return c is not None and c.exit is not None and (w.server.exit is not None or w.now > c.exit_time + 6)


class Delayed(Idle):
    """A client that starts with a delay; the server may come up only then.  chance: what the random number in [0, 1) is."""

    def __init__(self, delay, chance, app, timeout, gaps):
        super().__init__('case', gaps, timeout, (0.5,), delay_start=delay, horizon=abs(delay) + 100, dismiss=None if timeout else max(0, abs(delay)) + 20)
        self.delay_start, self.chance, self.app, self.oracle = delay, chance, app, delayed

    def start_client(self, w, i):
        w.chance = self.chance
        if not w.net:
            return super().start_client(w, i)
        w.begun = w.now
        if not self.app:
            return super().start_client(w, i)
        C, c = self.C(i), self.clients[i]
        argv = ['-N', '1', f'--delay-start={self.delay_start}', '-o', os.devnull, '-e', os.devnull] + (['-T', str(c['client_timeout'])] if 'client_timeout' in c else [])

        def client():
            C.core_signal.register_handlers()
            return C.client.ClientApp.main(argv)
        w.clients[i] = w.add_proc(self.cnames[i], C, client)


def delayed(scn, w, reason):
    first = next((t for t, p in w.connects if p.startswith('client')), None)
    d, u = scn.delay_start, scn.chance
    want = d if d >= 0 else u * -d
    if first is None:
        return [f'delay {d}: the client never connected ({reason}, {w.clients[0].exit})']
    got = first - w.begun
    out = []
    if abs(got - want) > 0.1:
        out.append(f'delay {d} ({u} of the way): the client connected after {got:.2f} s')
    if d < 0 and not -0.01 <= got <= -d + 0.1:
        out.append(f'delay {d}: the client connected after {got:.2f} s')
    return out + oracle(scn, w, reason)


def oracle(scn, w, reason):
    out = []
    T = scn.timeout
    exact = w.slow is None and not (w.chooser.devs and scn.stalls)
    gets = traffic(w, 'get', 'scheduled')
    bundles = [r for r in gets if r[2] is not None]
    dismissed = [r for r in gets if r[2] is None]
    fin = [r[3] for r in w.qlog if r[0] == 'put' and r[1].startswith('heartbeat') and r[2].startswith('client') and json.loads(r[4])['state'] == 1]
    if T is None and scn.dismiss is None:
        if fin or (w.clients[0] is not None and w.clients[0].exit is not None):
            out.append(f'the client has no timeout, was not dismissed, and left at {w.now - EPOCH:.1f} s')
        if len(bundles) != len(scn.bundles):
            out.append(f'{len(bundles)} of {len(scn.bundles)} bundles were taken')
        if [r.args for r in runs(w) if r.end is None] or len(runs(w)) != sum(len(b) for _, b in scn.bundles):
            out.append('not every task was run')
        return out
    if not client_ended(w, reason, out):
        return out
    returned_once(w, out)
    if not fin:
        return out
    first = next((r[3] for r in w.qlog if r[0] == 'put' and r[1].startswith('heartbeat') and r[2].startswith('client')), None)
    last = max([first] + [r[0] for r in bundles])
    if dismissed:
        if exact and len(bundles) != len(scn.bundles):
            out.append(f'{len(bundles)} of {len(scn.bundles)} bundles were taken before the dismissal')
        return out
    if T is None:
        out.append(f'the client has no timeout and left at {fin[0] - EPOCH:.1f} s without having been dismissed')
        return out
    if fin[0] < last + T - (0.01 if exact else 3.5):
        out.append(f'the client left at {fin[0] - EPOCH:.2f} s, {fin[0] - last:.2f} s after its last bundle or its start, timeout {T} s')
    if not exact:
        return out
    idle = max([last] + [r.end for r in runs(w)])
    if fin[0] > max(last + T + POLL, idle + POLL) + CLOSE:
        out.append(f'the client left at {fin[0] - EPOCH:.2f} s, last bundle at {last - EPOCH:.2f} s, last work at {idle - EPOCH:.2f} s, timeout {T} s')
    # a bundle on offer within the timeout is taken
    puts = traffic(w, 'put', 'scheduled')
    for k, r in enumerate(puts):
        before = max([first] + [g[0] for g in bundles[:k]])
        if len(bundles) <= k and r[0] < before + T - 0.01 and r[2] is not None:
            out.append(f'a bundle handed out {r[0] - before:.2f} s after the previous one was not taken, timeout {T} s')
            break
    return out


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for T in (1, 3, 5) if not deep else (1, 2, 3, 5, 10):
        gaps = (0, T - 0.9, T - 0.1, T + 0.5, T + 2.5) if not deep else (0, T / 2, T - 0.9, T - 0.1, T + 0.5, T + 1.5, T + 2.5, 2 * T + 5)
        for k in (0, 1, 2, 3):
            for g in itertools.product(gaps, repeat=k):
                for dur in ((0.5,), (T + 3.5,), (T - 0.5, 0.2)):
                    for n, size in ((1, 1), (2, 3)) if not deep else ((1, 1), (1, 2), (2, 1), (2, 3)):
                        if k == 0 and (n > 1 or dur != (0.5,)):
                            continue
                        L.append((g, T, dur, n, size, 0, None))
    for d in (3, 8):
        for T in (2, 5):
            for g in ((), (d + 1,), (0.5,)):
                L.append((g, T, (0.5,), 1, 1, d, None))
    for g in ((), (0,), (30,), (0, 40), (10, 20)):
        for dur in ((0.5,), (25,)):
            for n in (1, 2):
                L.append((g, None, dur, n, 2, 0, None))
                L.append((g, None, dur, n, 2, 0, 20))
                L.append((g, 60, dur, n, 2, 0, 20))
    # timeouts of a day and more: dismissed long before
    for T in (86400, 86403, 2 * 86400 + 1):
        for g in ((), (0,), (6, 7)):
            L.append((g, T, (0.5,), 1, 1, 0, 25))
    for d in (-1800, -60, -8, -1.5, -0.5, 0, 0.5, 1, 3.25, 60) + ((-7, -2, 2, 30, 1800) if deep else ()):
        for u in (0, 0.25, 0.5, 0.999):
            for app in (False, True):
                for T, g in ((2, ()), (3, (0,)), (None, (0,))):
                    if d < 0 or u == 0.5:
                        L.append(('delay', d, u, app, T, g))
    return L


def run_case(case):
    if case[0] == 'delay':
        r = Delayed(*case[1:]).execute('fifo', {})
        return r.violations, str(case), 1
    g, T, dur, n, size, d, dis = case
    scn = Idle('case', g, T, dur, n, 2 if n > 1 else 1, size, d, dis)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    for n, b, size in ((1, 1, 1), (2, 2, 3)):
        for name, gaps, T, dur in (('none', (), 3, (1,)), ('one', (0,), 3, (1,)), ('near', (1, 2.6), 3, (0.4,)), ('busy', (1, 1), 2, (4,)),
                                   ('edge', (1, 3.2), 3, (0.4,))):
            S.append(Idle(f'{name}-x{n}', gaps, T, dur, n, b, size, offers=('delay', 'stall:1.2', 'stall:3') if deep else ('delay', 'stall:1.2'), depth=1))
            if n == 1 or deep:
                S.append(Idle(f'{name}-x{n}-pairs', gaps, T, dur, n, b, size, offers=('delay',), depth=2, window=30 if deep else 8, policies=('fifo', 'lifo')))
    S.append(Idle('dismissed', (0, 2), 3, (2,), 2, 2, 2, dismiss=1, offers=('delay',), depth=1))
    S.append(Idle('dismissed-notimeout', (0, 8), None, (2,), 2, 2, 2, dismiss=5, offers=('delay', 'stall:3'), depth=1))
    S.append(Idle('notimeout', (0, 30), None, (2,), 2, 2, 2, offers=('delay',), depth=1))
    return Check('P15', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every sequence of up to three bundles over gaps around the timeout x task durations x executors x delayed start, run through '
                 'the real client. Scenarios: complete executions under the controlled scheduler with every single alternative at every point.')
