"""P24: autoscaling keeps the number of clients within its bounds and follows its policy."""
import datetime as dt
import itertools
import json
import signal
import sqlite3

import fakes
import inst
import program
import sched
from explore import Check, get_inst
from clusters import Cluster, died, kill_client, signal_cluster
from fleet import runs, unconfirmed
from sched import EPOCH
from tasktable import FIELDS, TIMES, raw_time, task, uid

# ------------------------------------------------------------------------- the autoscaler against every history of its inputs
SERVER, OLD = uid(2, 2), uid(9, 2)
C1, C2, C3 = uid(3, 3), uid(4, 3), uid(5, 3)


def done(n, client, start, dur, server=SERVER, host='h1'):
    """A task completed by this client, started `start` seconds after the first."""
    r = task(n, f't{n}', 'done', 0)
    t0 = r['schedule_time'].replace(hour=12, minute=1, second=0)
    r.update(server_id=server, client_id=client, client_host=host, schedule_time=t0, start_time=t0 + dt.timedelta(seconds=start),
             completion_time=t0 + dt.timedelta(seconds=start + dur), duration=int(dur))
    return r


def left(n, k=1, state='new'):
    return [task(n + i, f'r{n + i}', state) for i in range(k)]


def client(cid, gone=False, server=SERVER):
    return {'id': cid, 'host': 'h1', 'server_id': server, 'server_host': 'srv', 'connected_at': '2030-01-01 12:00:00.000000',
            'disconnected_at': '2030-01-01 12:30:00.000000' if gone else None, 'evicted': 0}


def earlier(rows):
    """Traces of an earlier server whose clients were never recorded as gone and whose tasks were long."""
    old = [done(900 + i, C3, 10_000 * i, 10_000, OLD) for i in range(2)]
    for r in old:
        r.update(schedule_time=r['schedule_time'] - dt.timedelta(days=1))
    return rows + old


# name: (task rows, client rows, tasks remaining, pressure times the factor).  The pressure is the time in which the connected
# clients would finish what remains at the rate they have shown, in units of the average duration of their tasks.
STATES = {
    'empty': ([], [], 0, None),
    'submitted': (left(1, 3), [], 3, None),
    'scheduled': (left(1, 2) + left(3, 1, 'queued') + left(4, 1, 'assigned'), [client(C1)], 4, None),
    'finished': ([done(1, C1, 0, 4), done(2, C1, 4, 4)], [client(C1)], 0, 0.0),
    'cancelled': ([done(1, C1, 0, 4), task(2, 'x', 'cancelled')], [client(C1)], 0, 0.0),
    'high': ([done(1, C1, 0, 4), done(2, C1, 4, 4)] + left(3, 8), [client(C1)], 8, 8.0),
    'low': ([done(i, C1, 0, 16) for i in range(1, 9)] + left(10, 2), [client(C1)], 2, 0.25),
    'even': ([done(1, C1, 0, 2), done(2, C1, 2, 2)] + left(3, 1), [client(C1)], 1, 1.0),
    'above': ([done(1, C1, 0, 2), done(2, C1, 2, 2)] + left(3, 3), [client(C1), client(C2)], 3, 3.0),
    'two': ([done(1, C1, 0, 4), done(2, C2, 0, 4)] + left(3, 4), [client(C1), client(C2)], 4, 2.0),
    'gone': ([done(1, C1, 0, 4), done(2, C1, 4, 4)] + left(3, 8), [client(C1, gone=True)], 8, None),
    'half-gone': ([done(1, C1, 0, 4)] + [done(i, C2, 0, 400) for i in (2, 3, 4)] + left(5, 1), [client(C1), client(C2, gone=True)], 1, 1.0),
    'instant': ([done(1, C1, 0, 0)] + left(3, 5), [client(C1)], 5, None),
    'quick': ([done(1, C1, 0, 0), done(2, C1, 0, 2)] + left(3, 1), [client(C1)], 1, 1.0),
    'another': (earlier([done(1, C1, 0, 4), done(2, C1, 4, 4)] + left(3, 8)), [client(C1), client(C3, server=OLD)], 8, 8.0),
}
STATE_SQL = {}


def set_state(path, name):
    if name not in STATE_SQL:
        tasks, clients, _, _ = STATES[name]
        STATE_SQL[name] = ([[raw_time(r[f]) if f in TIMES else json.dumps(r[f]) if f == 'tag' else r[f] for f in FIELDS] for r in tasks],
                           [list(c.values()) for c in clients])
    t, c = STATE_SQL[name]
    db = sqlite3.connect(path)
    db.execute('PRAGMA synchronous=OFF')
    db.execute('delete from task')
    db.execute('delete from client')
    db.executemany(f"insert into task ({','.join(FIELDS)}) values ({','.join('?' * len(FIELDS))})", t)
    db.executemany('insert into client (id, host, server_id, server_host, connected_at, disconnected_at, evicted) values (?,?,?,?,?,?,?)', c)
    db.commit()
    db.close()


def running(w):
    return [r[1] for r in w.log if r[0] == 'spawn' and r[1].end_time is None]


def apply(w, S, exits, state):
    for p in {'': [], 'oldest': running(w)[:1], 'newest': running(w)[-1:], 'all': running(w)}[exits.rstrip('!')]:
        p._finish(1 if exits.endswith('!') else 0)
    if state is not None:
        set_state(S.dbpath, state)
    w.changes.append((w.now, exits, state))


def scale_case(case):
    """policy, period, factor, initial, minimum and maximum size, state at the start, ((exits, state) per phase)."""
    policy, period, factor, init, lo, hi, first, history = case
    S = get_inst('server')
    S.reset()
    inst.fresh_db(S)
    set_state(S.dbpath, first)
    step = period + 2.63
    stop_at = step * (len(history) + 1)

    def main():
        t = S.cluster_remote.AutoScalerThread(['launch', 'it'], policy=policy, period=period, factor=factor, init_size=init, min_size=lo, max_size=hi)
        sched.WORLD.scaler = t
        t.start()
        t.join()

    def prepare(w):
        w.changes = []
        for i, (e, s) in enumerate(history):
            w.at(EPOCH + step * (i + 1) + 0.37, lambda e=e, s=s: apply(w, S, e, s))
        w.at(EPOCH + stop_at, lambda: w.fire('stop', lambda: w.scaler.stop()))

    r = program.run(S, main, horizon=stop_at + 5 * period + 60, behaviour=lambda args, env, proc: fakes.Script(None), real_std=True, prepare=prepare)
    w = r.world
    out = []
    if r.error is not None:
        out.append(f'the autoscaler died: {type(r.error).__name__}: {r.error}')
    if r.stuck or r.elapsed > stop_at + 2:
        out.append(f'stopped at {stop_at} s, the autoscaler ended ' + ('never' if r.stuck else f'at {r.elapsed:.1f} s'))
    log = [(x[1].start_time, 'spawn', None) if x[0] == 'spawn' else (x[1].end_time, 'exit', None) for x in w.log if x[0] in ('spawn', 'exit')]
    log += [(t, 'state', s) for t, _, s in w.changes if s is not None]
    log.sort(key=lambda x: x[0])
    n = 0
    state = first
    initial = 0
    last = None             # last launch after the initial ones

    def due():
        _, _, remaining, pressure = STATES[state]
        return n < lo or n == 0 and remaining > 0 or policy == 'dynamic' and pressure is not None and pressure / factor > 1 and n < hi

    want = EPOCH if due() else None             # since when a launch is due

    def overdue(t):
        if want is not None and t - want > period + 2:
            return [f'from {want - EPOCH:.1f} s to {t - EPOCH:.1f} s no client was launched (running {n}, database {state})']
        return []
    for t, what, s in log + [(EPOCH + min(r.elapsed, stop_at), 'end', None)]:
        if what == 'spawn' and t < EPOCH + 1:
            initial += 1
            n += 1
            want = t if due() else None
            continue
        out += overdue(t)
        if what == 'spawn':
            if t > EPOCH + stop_at:
                out.append('a client was launched after the stop')
            if not due():
                out.append(f'a client was launched at {t - EPOCH:.1f} s without a reason (running {n}, database {state})')
            if t < (EPOCH if last is None else last) + period - 0.01:
                out.append(f'a client was launched at {t - EPOCH:.1f} s, too early')
            last = t
            n += 1
            want = t if due() else None
            continue
        if what == 'exit':
            n -= 1
        elif what == 'state':
            state = s
        want = (want or t) if due() else None
    if initial != init:
        out.append(f'{initial} clients were launched at the start instead of {init}')
    return out[:3], {str([(round(t - EPOCH, 1), x) for t, x, _ in log])}, 1


EXITS = ('', 'oldest', 'all!')
SIZES = [(1, 0, 2), (0, 0, 1), (2, 2, 2), (1, 2, 3), (3, 1, 2), (0, 1, 1)]


def cases(tier):
    deep = tier == 'thorough'
    L = []
    names = list(STATES)
    pair = list(itertools.product(EXITS, names))
    for policy in ('fixed', 'dynamic'):
        for init, lo, hi in SIZES:
            for first in ('submitted', 'high') if not deep else names:
                for h in itertools.product(pair, repeat=1):
                    L.append(('scale', policy, 5, 1.0, init, lo, hi, first, h))
            few = [('', 'high'), ('', 'low'), ('', 'empty'), ('all!', None), ('oldest', None), ('', None)]
            for h in itertools.product(few, repeat=4 if not deep else 5):
                L.append(('scale', policy, 5, 1.0, init, lo, hi, 'submitted', h))
        for h in itertools.product(pair, repeat=2):
            L.append(('scale', policy, 1, 1.0, 1, 0, 2, 'submitted', h))
        for period in (1, 60):
            for factor in (0.5, 2.0, 8.0):
                for s in names:
                    for e in EXITS:
                        L.append(('scale', policy, period, factor, 1, 0, 2, s, ((e, None), ('', None))))
        if deep:
            for init, lo, hi in SIZES[:3]:
                for h in itertools.product(pair, repeat=2):
                    L.append(('scale', policy, 5, 1.0, init, lo, hi, 'high', h))
            for h in itertools.product(pair, repeat=3):
                L.append(('scale', policy, 5, 1.0, 1, 1, 2, 'submitted', h))
    return L


# ------------------------------------------------------------------------------ whole clusters with autoscaling
USR1, USR2 = signal.SIGUSR1, signal.SIGUSR2


def cluster_oracle(scn, w, reason):
    out = []
    if reason != 'until':
        return [f'the cluster does not end ({reason}), signalled at {w.signalled and w.signalled - EPOCH}: waiting {[(t.name, t.what) for t in w.blocked]}']
    dead = getattr(w, 'dead', [])
    smooth = not w.chooser.devs and w.slow is None and w.last is None
    if w.cluster.exit != ('ok', 0):
        out.append(f'the cluster ended with {w.cluster.exit}: {died(w)}')
    for name, e in died(w):
        if name.split('/')[0] == 'cluster':
            out.append(f'thread {name} died with {type(e).__name__}: {e}')
    if w.signalled is None:
        return out + ['the cluster ended although nobody had signalled it']
    for t, argv, name in w.launched:
        # it looks once per second, and a check may be under way
        if t > w.signalled + (1.6 if smooth else 6):
            out.append(f'a client was launched {t - w.signalled:.1f} s after the signal')
    for p in scn.clients(w):
        if p.name not in dead and p.exit != ('ok', 0) and smooth:
            out.append(f'{p.name} ended with {p.exit}')
    for r in scn.rows():
        if r['exit_status'] is None and r['client_id'] is not None and not dead:
            out.append(f"{r['args']} is left with its client")
    for r in runs(w):
        row = [x for x in scn.rows() if x['id'] == r.id]
        if r.client not in dead and r.status is not None and row and row[0]['exit_status'] != r.status:
            out.append(f"{r.args} ended with {r.status} and has {row[0]['exit_status']}")
    lost = any(unconfirmed(w, n) for n in dead)         # listed finding of P02
    if scn.complete and w.signalled >= EPOCH + scn.complete and not lost:
        for r in scn.rows():
            if r['exit_status'] != 0:
                out.append(f"{r['args']} was not completed by {w.signalled - EPOCH:.0f} s ({r['exit_status']})")
    # no more clients at any time than the largest size, no gap without one
    n = 0
    for x in w.log:
        if x[1].script.kind == 'client':
            n += (x[0] == 'spawn') - (x[0] == 'exit')
            if n > scn.largest:
                out.append(f'{n} clients are running at once')
    return out[:4]


class Auto(Cluster):
    def __init__(self, name, argv, largest=1, complete=None, **kw):
        self.largest, self.complete = largest, complete
        super().__init__(name, [*argv, '--launcher', 'launch', 'FILE'], oracle=cluster_oracle, **kw)


def fails_oracle(scn, w, reason):
    if reason != 'until':
        return [f'the cluster does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    if w.cluster.exit[0] != 'ok' or not isinstance(w.cluster.exit[1], int) or w.cluster.exit[1] == 0:
        return [f'the cluster ended with {w.cluster.exit} although {scn.why}']
    return []


class Fails(Cluster):
    def __init__(self, name, why, argv, **kw):
        self.why = why
        super().__init__(name, [*argv, '--launcher', 'launch', 'FILE'], oracle=fails_oracle, **kw)


def scenarios(tier):
    deep = tier == 'thorough'
    S = []
    usr = signal_cluster(USR1)
    late = (40, usr)
    S.append(Auto('fixed', ['-A', 'fixed', '-P', '3', '-I', '1', '-X', '1', '-N', '2'], 1, complete=25, events={'stop': (25, usr)}, starve=deep))
    S.append(Auto('fixed-usr1', ['-A', 'fixed', '-P', '3', '-I', '1', '-X', '1', '-N', '2'], 1, offers=(), events={'stop': usr, 'late': late}, tasks=('a', 'b'),
                  policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    S.append(Auto('fixed-usr2', ['-A', 'fixed', '-P', '2', '-I', '2', '-X', '2', '-b', '2'], 2, offers=(), events={'stop': signal_cluster(USR2), 'late': (9, usr)}, tasks='abcde',
                  policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    S.append(Auto('fixed-killed', ['-A', 'fixed', '-P', '3', '-I', '1', '-X', '0'], 1, complete=70, offers=(), events={'kill': kill_client, 'stop': (70, usr)}, tasks=('a', 'b'),
                  duration=2.0, policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    S.append(Auto('fixed-refill', ['-A', 'fixed', '-P', '3', '-I', '2', '-X', '2'], 2, complete=70, offers=(), events={'kill': (8, kill_client), 'kill2': (12, kill_client), 'stop': (70, usr)},
                  tasks='abcdefgh', duration=2.0, policies=('fifo', 'rr', 'lifo')))
    S.append(Auto('dynamic', ['-A', 'dynamic', '-P', '3', '-I', '1', '-X', '0', '-Y', '3', '-T', '4'], 3, complete=80, offers=('delay',) if deep else (), events={'stop': (80, usr)},
                  tasks='abcdefghijklmnop', duration=3.0, policies=('fifo', 'rr', 'lifo')))
    S.append(Auto('dynamic-empty', ['-A', 'dynamic', '-P', '2', '-I', '0', '-X', '0', '-Y', '2', '-T', '4'], 2, complete=40, offers=('delay',), events={'stop': (40, usr)}, tasks=('a', 'b')))
    S.append(Fails('not-launched', 'the launcher cannot be started', ['-A', 'fixed', '-P', '3'], launch=lambda scn, w, k, args: FileNotFoundError(2, 'no', 'launch')))
    S.append(Fails('not-relaunched', 'the launcher cannot be started', ['-A', 'fixed', '-P', '3'], events={'kill': (6, kill_client)}, tasks=('a', 'b', 'c', 'd', 'e', 'f'), offers=(),
                   launch=lambda scn, w, k, args: FileNotFoundError(2, 'no', 'launch') if k else None))

    def occupied(scn, w):
        other = fakes.FakeManager(('', int(scn.port)), authkey=b'other')
        other._table = {}
        w.net[int(scn.port)] = other
    S.append(Fails('occupied', 'its port is taken', ['-A', 'fixed', '-P', '3', '-p', '50001'], extra=occupied))
    S[-1].port = 50001
    return S


def run_case(case):
    return {'scale': scale_case}[case[0]](case[1:])


def make(tier):
    return Check('P24', scenarios(tier), cases=cases(tier), run_case=run_case, rule='')
