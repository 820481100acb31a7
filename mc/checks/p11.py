"""P11: walltime limits are enforced by interrupt, terminate, kill, in that order."""
import datetime as dt
import itertools
import signal
from explore import Check
from bench import ClientBench, client_ended, client_ids, returned_once
from fleet import runs
from sched import EPOCH

INT, TERM, KILL = signal.SIGINT, signal.SIGTERM, signal.SIGKILL
ORDER = [int(INT), int(TERM), int(KILL)]


def oracle(scn, w, reason):
    out = []
    if not client_ended(w, reason, out):
        return out
    kw = scn.clients[0]
    L, W = kw.get('task_timeout'), kw.get('task_signalwait', 10)
    ret = {t['id']: t for _, _, t, _ in returned_once(w, out)}
    exact = w.slow is None and not (w.chooser.devs and scn.stalls)
    rs = runs(w)
    if sorted(r.id for r in rs) != sorted(client_ids(w)):
        out.append(f'run: {[r.args for r in rs]}')
    for r in rs:
        sig = r.popen.signals
        who = f'{r.args} ({r.start - EPOCH:.2f}..{(r.end or 0) - EPOCH:.2f} s)'
        if [s for s, _ in sig] != ORDER[:len(sig)]:
            out.append(f'{who} was sent {sig}')
            continue
        times = [t for _, t in sig]
        if L is None:
            if sig:
                out.append(f'{who} has no limit and was sent {sig}')
            continue
        # the walltime runs from the recorded start of the task
        began = dt.datetime.fromisoformat(ret[r.id]['start_time']).timestamp() if r.id in ret else r.start
        if sig and times[0] < began + L - 1e-6:
            out.append(f'{who} was interrupted after {times[0] - began:.2f} s, before its limit of {L} s')
        if r.end is not None and r.end - began < L and sig:
            out.append(f'{who} ended in time and was sent a signal')
        if exact:
            end = r.end if r.end is not None else 1e18
            due = r.start + L
            for k in range(3):
                if k < len(times):
                    lo = r.start + L if k == 0 else times[k - 1] + W
                    if times[k] < lo - 0.01:
                        out.append(f'{who}: signal {k + 1} at {times[k] - EPOCH:.2f} s, before {lo - EPOCH:.2f} s')
                    if times[k] > due + 1.1:
                        out.append(f'{who}: signal {k + 1} at {times[k] - EPOCH:.2f} s, due at {due - EPOCH:.2f} s')
                    due = times[k] + W
                else:
                    if end > due + 1.1:
                        out.append(f'{who}: signal {k + 1} due at {due - EPOCH:.2f} s was never sent')
                    break
        t = ret.get(r.id)
        if t is not None and t['exit_status'] != r.status:
            out.append(f"{who} ended with {r.status} and was returned with {t['exit_status']}")
    return out


def bench(name, plan, L, W, n=1, b=1, **k):
    k.setdefault('starve', False)
    return ClientBench(name, [(0, ['a', 'b']), (0, ['c', 'd'])] if b == 2 else [(0, ['a']), (0, ['b']), (0, ['c'])],
                       dict(num_tasks=n, bundlesize=b, bundlewait=1, task_timeout=L, task_signalwait=W), plan, dismiss=1, oracle=oracle, horizon=600.0, **k)


def reactions(W, deep):
    ints = [None, ('die', 0.5, 7), ('die', W - 0.4, 0), ('die', W + 0.4, 3), ('ignore',)]
    terms = [None, ('die', 0.5, 4), ('die', W + 0.4, 5), ('ignore',)]
    kills = [None, ('die', W * 0.6, -9)]
    if deep:
        ints += [('die', W, 1), ('die', 2 * W + 0.3, 2)]
        terms += [('die', W, 6), ('die', W - 0.2, 0)]
        kills += [('die', W - 0.2, -9)]
    return itertools.product(ints, terms, kills)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for L, W in ((1, 1), (3, 2), (2, 4)) if not deep else itertools.product((1, 2, 3, 5), (1, 2, 4, 10)):
        for dur in (L - 0.4, L, L + 0.5, L + W + 0.2, None) if not deep else (L - 0.9, L - 0.4, L - 0.001, L, L + 0.3, L + 0.5, L + 1, L + W + 0.2, L + 2 * W + 0.1, None):
            for ri, rt, rk in reactions(W, deep):
                for n in (1, 2):
                    out.append((L, W, dur, ri, rt, rk, n))
    # limits of a day and more
    for L in (86400, 86402, 3 * 86400 + 1):
        for dur in (0.5, 3.0, 8.0):
            out.append((L, 2, dur, None, None, None, 1))
    for W in (86401,):
        out.append((2, W, 9.0, ('ignore',), None, None, 1))
    return out


def run_case(case):
    L, W, dur, ri, rt, rk, n = case
    on = {k: v for k, v in ((INT, ri), (TERM, rt), (KILL, rk)) if v is not None}
    scn = bench('case', {'b': {'duration': dur, 'status': 9, 'on': on}, 'a': {'duration': min(L, 9) - 0.4}, 'c': {'duration': 0.3}}, L, W, n)
    seen = []
    scn.outcome = lambda w, reason: seen.append([(r.args, r.status, [(s, round(t - r.start, 1)) for s, t in r.popen.signals]) for r in runs(w)])
    r = scn.execute('fifo', {})
    return r.violations, str((L, W, dur, seen)), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    stub = ('die', 0.3, 1)
    P = {'forever': {'b': {'duration': None}}, 'stubborn': {'b': {'duration': None, 'on': {INT: ('ignore',), TERM: ('ignore',)}}},
         'late': {'b': {'duration': None, 'on': {INT: ('die', 2.4, 5)}}, 'a': {'duration': 2.6}},
         'close': {'a': {'duration': 2.0}, 'b': {'duration': 2.1}, 'c': {'duration': None, 'on': {INT: stub}}},
         'two': {'a': {'duration': None, 'on': {INT: ('ignore',)}}, 'b': {'duration': None, 'on': {INT: stub}}}}
    for name, plan in P.items():
        for n, b in ((1, 1), (2, 2)):
            S.append(bench(f'{name}-x{n}', plan, 2, 2, n, b, offers=('delay',), depth=2, window=40 if deep else 10, starve=True))
            S.append(bench(f'{name}-x{n}-stall', plan, 2, 2, n, b, offers=('delay', 'stall:0.6', 'stall:1.7') if deep else ('stall:0.6',), depth=1, starve=True))
        S.append(bench(f'{name}-nolimit', {k: v for k, v in plan.items() if v.get('duration')}, None, 2, 2, 1, offers=('delay',), depth=1))
    return Check('P11', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every combination of limit, signal wait, duration of the task and its reaction to each of the three signals (die at '
                 'once, after a delay shorter or longer than the wait, ignore), run through the real client; distinct by the resulting signals '
                 'and states. Scenarios: complete executions under the controlled scheduler with every single/pair of alternatives.')
