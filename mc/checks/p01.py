"""P01: every task runs exactly once, its true result is recorded."""
from explore import Check
from fleet import ALL_LINES, Fleet, runs, ends
import collections
import itertools
from sched import EPOCH
import datetime as dt


def stamp(x):
    """Epoch seconds of a stored time."""
    if x is None:
        return None
    return dt.datetime.fromisoformat(x).timestamp()


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    rs = runs(w)
    rows = scn.rows()
    want = collections.Counter(scn.tasks)
    if collections.Counter(r['args'] for r in rows) != want:
        out.append(f"records {sorted(r['args'] for r in rows)} for lines {sorted(scn.tasks)}")
    started = collections.Counter(r.args for r in rs)
    if started != want:
        out.append(f'executed {sorted(started.items())} for lines {sorted(scn.tasks)}')
    byid = collections.defaultdict(list)
    for r in rs:
        byid[r.id].append(r)
    for r in rows:
        mine = byid.get(r['id'], [])
        if len(mine) != 1:
            out.append(f"task {r['args']!r}: {len(mine)} executions")
            continue
        m = mine[0]
        tmpl = next((c.get('template') for c in scn.clients if c.get('template')), '{}')
        cmd = tmpl.replace('{}', r['args'])
        C = scn.C(scn.cnames.index(m.client))
        facts = {
            'args': (r['args'], m.args), 'command': (r['command'], m.command), 'command text': (r['command'], cmd),
            'exit status': (r['exit_status'], m.status), 'client': (r['client_id'], C.instance),
            'attempt': (r['attempt'], 1), 'retried': (bool(r['retried']), False), 'server': (r['server_id'], scn.S.instance),
            'client host': (r['client_host'], C.host), 'server host': (r['server_host'], scn.S.host), 'submit host': (r['submit_host'], scn.submitter[1] if scn.submitter else scn.S.host),
            'submit': (r['submit_id'], scn.submitter[0] if scn.submitter else scn.S.instance),
        }
        capture = scn.clients[scn.cnames.index(m.client)].get('capture')
        env = dict(m.env)
        for f in 'outpath', 'errpath':
            facts[f] = (r[f], env['TASK_' + f.upper()] if capture else None)
        for k, (got, exp) in facts.items():
            if got != exp:
                out.append(f"task {r['args']!r}: recorded {k} is {got!r}, should be {exp!r}")
        # derived facts agree with the stored times
        if r['start_time'] and r['completion_time'] and r['submit_time']:
            z, a, b = stamp(r['submit_time']), stamp(r['start_time']), stamp(r['completion_time'])
            for k, span in ('waited', a - z), ('duration', b - a):
                if r[k] is None or abs(r[k] - span) > 1:
                    out.append(f"task {r['args']!r}: recorded {k} is {r[k]!r}, between its times are {span:.2f} s")
            if r['schedule_time'] and not z <= stamp(r['schedule_time']) <= a:
                out.append(f"task {r['args']!r}: scheduled at {stamp(r['schedule_time']) - EPOCH:.2f}, submitted {z - EPOCH:.2f}, started {a - EPOCH:.2f}")
        a, b = stamp(r['start_time']), stamp(r['completion_time'])
        if a is None or b is None or not r['schedule_time'] or not r['submit_time']:
            out.append(f"task {r['args']!r}: time missing {r}")
        elif 'stall' not in str(scn.offers) and not w.policy.startswith('slow') and (abs(a - m.start) > 0.5 or abs(b - m.end) > 0.5):
            out.append(f"task {r['args']!r}: ran {m.start - EPOCH:.2f}..{m.end - EPOCH:.2f}, recorded {a - EPOCH:.2f}..{b - EPOCH:.2f}")
        elif a > m.start + 1e-3 or b < m.end - 1e-3:
            out.append(f"task {r['args']!r}: ran {m.start - EPOCH:.2f}..{m.end - EPOCH:.2f}, recorded {a - EPOCH:.2f}..{b - EPOCH:.2f}")
    return out


class Placed(Fleet):
    submitter = None         # (id, host) of the program that put the tasks into the database before


def before(scn):
    S = scn.S
    T = S.data_model.Task
    S.install()
    tasks = [T.new(args=a) for a in scn.tasks]
    for i, t in enumerate(tasks):
        t.submit_id, t.submit_host = scn.submitter
        t.submit_time = dt.datetime.fromtimestamp(EPOCH - 60 + i).astimezone()
    T.add_all(tasks)
    S.drop_sessions()


def make(tier):
    Fleet = Placed
    deep = tier == 'thorough'
    scns = []
    plan = {'b': 3, 'c': {'duration': 3.5, 'status': 0}, 'd': {'duration': 0.0, 'status': -9}}
    for b, n, k in itertools.product((1, 2, 3), (1, 2), (1, 2)):
        clients = [dict(num_tasks=n, bundlesize=b, bundlewait=2, at=1.0 + 1.5 * i) for i in range(k)]
        tasks = ('a', 'b', 'c', 'd') if b > 1 else ('a', 'b', 'c')
        scns.append(Fleet(f'b{b}-x{n}-c{k}', tasks, dict(bundlesize=b, bundlewait=1), clients, plan, oracle=oracle,
                          offers=('delay', 'stall:3') if k == 1 or deep else ('delay',),
                          depth=1, policies=('fifo', 'rr', 'lifo') if k == 1 or deep else ('fifo', 'rr')))
    scns.append(Fleet('dup-lines', ('a', 'a', 'b'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=1)], plan, oracle=oracle))
    scns.append(Fleet('template', ('a', 'b', 'c', 'd', 'e'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=3, template='run {} now')],
                      plan, oracle=oracle))
    scns.append(Fleet('noconfirm', ('a', 'b', 'c'), dict(bundlesize=2, no_confirm=True), [dict(num_tasks=2, bundlesize=2, no_confirm=True)],
                      plan, oracle=oracle))
    scns.append(Fleet('capture', ('a', 'b', 'c', 'd'), dict(bundlesize=2), [dict(num_tasks=2, bundlesize=2, capture=True), dict(num_tasks=1, bundlesize=1, at=1.0)],
                      plan, oracle=oracle))
    s = Fleet('placed', ('a', 'b', 'c', 'd'), dict(bundlesize=2, restart_mode=True), [dict(num_tasks=2, bundlesize=2), dict(num_tasks=1, bundlesize=1, at=1.0)],
              plan, oracle=oracle, source=lambda scn, w: None, prepare=before)
    s.submitter = ('the-submitter', 'desk.host')
    scns.append(s)
    # every statement of the programs is a point
    scns.append(Fleet('lines', ('a', 'b', 'c'), dict(bundlesize=1), [dict(num_tasks=2, bundlesize=2, bundlewait=2)], plan, oracle=oracle, fine=ALL_LINES,
                      offers=('delay', 'stall:3') if deep else ('delay',), policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    scns.append(Fleet('lines-two', ('a', 'b', 'c'), dict(bundlesize=2), [dict(num_tasks=1, bundlesize=1, at=2), dict(num_tasks=1, bundlesize=2, at=2.5)], plan,
                      oracle=oracle, fine=ALL_LINES, depth=1 if deep else 0))
    # one thread is held up at any statement
    for who in ('server/hypershell-scheduler', 'confirm', 'receiver', 'submit-', 'client-scheduler', 'executor-1', 'collector'):
        for sec in (1.5, 5, 12) if deep else (5,):
            scns.append(Fleet(f'held-up-{who.split("-")[-1] or "submit"}-{sec}', ('a', 'b', 'c'), dict(bundlesize=1), [dict(num_tasks=2, bundlesize=2, bundlewait=2)], plan, oracle=oracle,
                              fine=('server', 'client', 'submit', 'data.model') if deep else ('server', 'client', 'submit'), offers=(f'stall:{sec}@{who}',), policies=('fifo', 'rr') if deep else ('fifo',)))
    if deep:
        for s in list(scns[:2]) + scns[4:5]:
            scns.append(Fleet(s.name + '-deep', s.tasks, s.server, s.clients, plan, oracle=oracle, offers=('delay',), depth=2,
                              policies=('fifo',), starve=False))
    for s in scns:
        s.hosts = True
    return Check('P01', scns)
