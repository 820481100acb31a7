"""P10: a client returns every finished task exactly once, promptly, and before leaving."""
import collections
import datetime as dt
import itertools
import json
from explore import Check
from bench import ClientBench, client_ended, client_ids, returned, returned_once
from fleet import CLIENT_LINES, runs, traffic
import sched
from sched import EPOCH


def ts(x):
    return dt.datetime.fromisoformat(x).timestamp()


def oracle(scn, w, reason):
    out = []
    if not client_ended(w, reason, out):
        return out
    kw = scn.clients[0]
    ids = client_ids(w)
    rs = collections.defaultdict(list)
    for r in runs(w):
        rs[r.id].append(r)
    ret = returned_once(w, out)
    given = {t['id']: t for _, b in w.given for t in b}
    # confirmations: one per bundle
    got = [[json.loads(x)['id'] for x in b] for _, _, b in traffic(w, 'get', 'scheduled') if b is not None]
    conf = [json.loads(b) for _, _, b in traffic(w, 'put', 'confirmed')]
    if [c['task_ids'] for c in conf] != ([] if kw.get('no_confirm') else got):
        out.append(f"bundles {got} were confirmed as {[c['task_ids'] for c in conf]}")
    if any(c['client_id'] != scn.C(0).instance for c in conf):
        out.append('confirmed in the name of another client')
    for i in ids:
        if len(rs[i]) != 1:
            out.append(f"{given[i]['args']} was run {len(rs[i])} times")
    delayed = sum(float(l.split(':')[1]) for l in scn.stalls + [x for x, _ in scn.stalls_at]) * len(w.chooser.devs)
    for when, _, t, size in ret:
        if size > kw.get('bundlesize', 1):
            out.append(f'{size} tasks were returned at once')
        if len(rs[t['id']]) != 1:
            continue
        r = rs[t['id']][0]
        g = given[t['id']]
        for f in g:
            if f not in ('client_id', 'client_host', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'waited', 'duration') and t[f] != g[f]:
                out.append(f"{g['args']}: {f} was {g[f]!r} and came back as {t[f]!r}")
        if t['exit_status'] != r.status or t['client_id'] != scn.C(0).instance or t['command'] != r.command:
            out.append(f"{g['args']}: returned {t['exit_status']} {t['client_id']} {t['command']!r}; it was {r.status} {scn.C(0).instance} {r.command!r}")
        if w.slow is None:
            tol = 2 + delayed
            if not (r.start - tol <= ts(t['start_time']) <= r.start + 1e-3 and r.end - 1e-3 <= ts(t['completion_time']) <= r.end + tol):
                out.append(f"{g['args']}: ran {r.start - EPOCH:.2f}..{r.end - EPOCH:.2f}, returned as {t['start_time']}..{t['completion_time']}")
            if scn.accept == (0,) and when > r.end + kw.get('bundlewait', 5) + 2.5 + delayed:
                out.append(f"{g['args']} finished at {r.end - EPOCH:.1f} s and was returned at {when - EPOCH:.1f} s (wait {kw.get('bundlewait', 5)} s)")
    if w.slow is None:
        # an incomplete bundle is not returned before the wait is over, unless it is the last one
        back = [(t, len(b)) for t, _, b in traffic(w, 'put', 'completed') if b]
        last = [scn.clients[0].get('at', 2) + EPOCH] + [t for t, _ in back]
        for k, (t, n) in enumerate(back[:-1]):
            if n < kw.get('bundlesize', 1) and t < last[k] + kw.get('bundlewait', 5) - 0.02 - delayed:
                out.append(f'{n} tasks (of {kw.get("bundlesize", 1)}) were returned {t - last[k]:.2f} s after the previous ones, and more followed')
    if scn.clients[0].get('client_timeout') is None and scn.dismiss is not None:
        if len(ids) != len(given):
            out.append(f'{len(ids)} of {len(given)} tasks were taken')
    return out


def cases(tier):
    """Paces of completion: every sequence of durations on one executor, steady ones, and two executors."""
    deep = tier == 'thorough'
    L = []
    for wait in (1, 3):
        durs = (0.2, 0.7 * wait, 1.4 * wait, wait + 3)
        for n in (3,) if not deep else (2, 3, 4):
            for d in itertools.product(durs, repeat=n):
                for size in (2, 10) if not deep else (1, 2, 3, 10):
                    for x in (1, 2):
                        L.append((d, size, wait, x))
        for d in (0.2, 0.5, 0.9, 1.0, 1.1, 2.5):
            for n in (12, 30):
                for size in (3, 100):
                    for x in (1, 2):
                        L.append(((d,) * n, size, wait, x))
    return L


def run_case(case):
    durs, size, wait, x = case
    lines = [f't{i}' for i in range(len(durs))]
    scn = ClientBench('case', [(0, lines[:len(lines) // 2]), (0, lines[len(lines) // 2:])], dict(num_tasks=x, bundlesize=size, bundlewait=wait),
                      {a: {'duration': d, 'status': i % 2} for i, (a, d) in enumerate(zip(lines, durs))}, dismiss=wait + 9, oracle=oracle, offers=())
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    three = [(0, ['a', 'b']), (0, ['c'])]
    five = [(0, ['a', 'b', 'c']), (4, ['d']), (9, ['e'])]
    plan = {'b': {'status': 2, 'duration': 0.4}, 'c': {'duration': 2.6}, 'd': {'status': -15, 'duration': 1.3}}
    for (b, wt, n), (bn, bundles) in itertools.product(((1, 2, 1), (2, 2, 1), (3, 3, 2), (10, 4, 2), (2, 0, 2)) if not deep else itertools.product((1, 2, 3, 10), (0, 1, 3), (1, 2, 3)),
                                                       (('three', three), ('five', five))):
        S.append(ClientBench(f'{bn}-b{b}-w{wt}-x{n}', bundles, dict(num_tasks=n, bundlesize=b, bundlewait=wt), plan, dismiss=0 if bn == 'three' else 1,
                             oracle=oracle, depth=2 if bn == 'three' and (deep or b == 2) else 1, offers=('delay', 'stall:4') if b != 1 else ('delay',), window=12 if deep else 6,
                             policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    # the server is slow to accept results
    for acc in ((7,), (0, 9), (3, 3, 3)):
        for b, wt, n in ((1, 1, 1), (2, 1, 2), (3, 5, 2)):
            S.append(ClientBench(f'accept{acc[0]}-{len(acc)}-b{b}-x{n}', three + [(2, ['d', 'e'])], dict(num_tasks=n, bundlesize=b, bundlewait=wt), plan, dismiss=0,
                                 accept=acc, oracle=oracle, offers=('delay',), depth=1, policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    # one task finishes, then nothing for a long while
    S.append(ClientBench('alone', [(0, ['a', 'l'])], dict(num_tasks=2, bundlesize=4, bundlewait=3), {'l': {'duration': 40}}, dismiss=1, oracle=oracle, offers=('delay', 'stall:3')))
    S.append(ClientBench('one-by-one', [(t, [chr(97 + i)]) for i, t in enumerate((0, 6, 12, 13, 30))], dict(num_tasks=2, bundlesize=3, bundlewait=4), dismiss=20, oracle=oracle, offers=('delay', 'stall:3')))
    # leaving after an idle timeout, without confirmations
    S.append(ClientBench('timeout', [(0, ['a', 'b', 'c'])], dict(num_tasks=2, bundlesize=3, bundlewait=20, client_timeout=4), {'c': {'duration': 9}}, dismiss=None, oracle=oracle, offers=('delay', 'stall:4')))
    S.append(ClientBench('timeout-slow', [(0, ['a', 'b', 'c'])], dict(num_tasks=1, bundlesize=2, bundlewait=20, client_timeout=1), {'c': {'duration': 9}}, accept=(12,), dismiss=None, oracle=oracle, offers=('delay', 'stall:4')))
    S.append(ClientBench('no-confirm', three, dict(num_tasks=2, bundlesize=2, bundlewait=2, no_confirm=True), plan, dismiss=0, oracle=oracle, offers=('delay',)))
    # every statement of the client is a point
    for b, wt, n in ((2, 1, 2),) if not deep else ((1, 1, 2), (2, 1, 2), (3, 2, 3)):
        S.append(ClientBench(f'lines-b{b}-x{n}', three, dict(num_tasks=n, bundlesize=b, bundlewait=wt), plan, dismiss=0, oracle=oracle, fine=CLIENT_LINES,
                             offers=('delay', 'stall:3') if deep else ('delay',), policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    # one thread of the client is held up at any statement
    for who in ('hypershell-client-scheduler', 'collector', 'executor-1', 'hypershell-heartbeat', 'hypershell-client:'):
        for sec in (1.2, 4, 11) if deep else (4,):
            S.append(ClientBench(f'held-up-{who.split("-")[-1]}-{sec}', three, dict(num_tasks=2, bundlesize=2, bundlewait=2), plan, dismiss=0, oracle=oracle,
                                 fine=('client', 'core.queue', 'core.thread', 'core.fsm') if deep else ('client',), offers=(f'stall:{sec}@{who}',), policies=('fifo', 'rr') if deep else ('fifo',)))
    if deep:
        S.append(ClientBench('lines-pairs', [(0, ['a', 'b'])], dict(num_tasks=2, bundlesize=2, bundlewait=1), plan, dismiss=0, oracle=oracle, fine=CLIENT_LINES,
                             depth=2, window=10, policies=('fifo',), starve=False))
    return Check('P10', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every sequence of durations (shorter and longer than the wait) and steady paces x bundle sizes and waits x executors. '
                 'Scenarios: complete executions under the controlled scheduler with the stated alternatives at every point.')
