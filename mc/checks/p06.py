"""P06: tasks are handed out in submission order, in bounded bundles, retries by mode."""
import collections
import itertools
import sqlite3
import datetime as dt
from explore import Check, get_inst
from fleet import Fleet, traffic, runs, ends, task_ids
from stubs import StubClient, peer, Empty
import inst
import sched
import json

# ---------------------------------------------------------------- reference model of the scheduler
# a task: dict(key, sub (submission order), state, done (completion order), attempt)
NEW, OUT, OK, BAD, RETRIED, CANCEL = 'new', 'out', 'ok', 'bad', 'retried', 'cancel'


def select(tasks, size, attempts, eager):
    """The next bundle: list of (args, attempt); updates the state."""
    def new(n):
        L = sorted((t for t in tasks if t['state'] == NEW), key=lambda t: t['sub'])[:n]
        for t in L:
            t['state'] = OUT
        return [(t['args'], t['attempt']) for t in L]

    def retry(n):
        L = sorted((t for t in tasks if t['state'] == BAD and t['attempt'] < attempts), key=lambda t: t['done'])[:n]
        out = []
        for t in L:
            t['state'] = RETRIED
            tasks.append(dict(args=t['args'], sub=10**9, state=OUT, done=None, attempt=t['attempt'] + 1))
            out.append((t['args'], t['attempt'] + 1))
        return out
    first, second = (retry, new) if eager else (new, retry)
    out = first(size)
    return out + second(size - len(out))


class Model:
    """Scheduler, one bundle on the queue and one in hand."""

    def __init__(self, tasks, size, attempts, eager, queuesize=1):
        self.tasks, self.size, self.attempts, self.eager, self.qs = tasks, size, attempts, eager, queuesize
        self.queue, self.hand = [], None
        self.settle()

    def settle(self):
        while True:
            if self.hand is None:
                b = select(self.tasks, self.size, self.attempts, self.eager)
                if not b:
                    return
                self.hand = b
            if len(self.queue) >= self.qs:
                return
            self.queue.append(self.hand)
            self.hand = None

    def take(self):
        if not self.queue:
            return None
        b = self.queue.pop(0)
        self.settle()
        return b

    def done(self, args, attempt, ok, order):
        for t in self.tasks:
            if t['args'] == args and t['attempt'] == attempt:
                t['state'] = OK if ok else BAD
                t['done'] = order


# ---------------------------------------------------------------- cases: database contents x actions
def put_rows(S, spec, T0):
    """spec: list of (args, sub rank, state, done rank)."""
    c = sqlite3.connect(S.dbpath)

    def ts(x):
        return dt.datetime.fromtimestamp(T0 + x).strftime('%Y-%m-%d %H:%M:%S.%f')
    for i, (args, sub, state, done) in enumerate(spec):
        row = dict(id=f'00000000-0000-4000-8000-0000000000{i:02d}', args=args, submit_id='s', submit_time=ts(sub), submit_host='h',
                   attempt=1, retried=0, tag='{}')
        if state in (OUT, OK, BAD, RETRIED, CANCEL):
            row.update(schedule_time=ts(100 + i), server_id='x', server_host='h')
        if state in (OK, BAD, RETRIED):
            row.update(client_id='c', start_time=ts(150), completion_time=ts(200 + done), exit_status=0 if state == OK else 3, duration=1, waited=1)
        if state == CANCEL:
            row.update(exit_status=-1)
        if state == RETRIED:
            row.update(retried=1, next_id=f'00000000-0000-4000-8000-0000000001{i:02d}')
        c.execute(f"insert into task ({','.join(row)}) values ({','.join('?' * len(row))})", list(row.values()))
        if state == RETRIED:            # its successor succeeded
            row2 = dict(row, id=row['next_id'], previous_id=row['id'], next_id=None, retried=0, attempt=2, exit_status=0,
                        submit_time=ts(300), completion_time=ts(400))
            c.execute(f"insert into task ({','.join(row2)}) values ({','.join('?' * len(row2))})", list(row2.values()))
    c.commit()
    c.close()


def run_case(case):
    """Run a server on the given database with a stub client performing the given actions; compare every bundle."""
    spec, size, retries, eager, script = case
    out = []
    seen = []
    bad = []

    def body(scn, w):
        model = Model([dict(args=a, sub=s, state=NEW if st == OUT else st, done=d, attempt=1) for a, s, st, d in spec],
                      size, retries + 1, eager)
        C = scn.C(0)
        sc = StubClient(w, C)
        sc.beat()
        held = []
        order = 1000
        n = 0
        stop = False
        sched.WORLD.block(lambda: False, w.now + 8, 'settle')
        for act in itertools.chain(script, itertools.repeat(None)):
            if act is None or act == 'take':
                try:
                    b = sc.get(timeout=8)
                    got = None if b is None else [(t['args'], t['attempt'], t) for t in b]      # None: dismissed
                except Empty:
                    got = None
                exp = model.take()
                seen.append(exp)
                if (None if got is None else [x[:2] for x in got]) != exp:
                    bad.append(f'bundle {n}: handed out {None if got is None else [x[:2] for x in got]}, expected {exp}')
                    return
                if got is None:
                    if act is None:
                        return
                    continue
                n += 1
                sc.confirm([x[2] for x in got])
                held += got
            else:
                which, ok = act      # return one of the held tasks
                if not held:
                    continue
                a, at, t = held.pop(0 if which == 'old' else -1)
                sc.finish([t], 0 if ok else 5)
                order += 1
                model.done(a, at, ok, order)
                if not any(x['state'] in (NEW, OUT, BAD) for x in model.tasks):
                    return       # it may finish now
            sched.WORLD.block(lambda: False, w.now + 8, 'settle')
            sc.beat()
            model.settle()

    scn = Fleet('case', (), dict(bundlesize=size, max_retries=retries, eager=eager, restart_mode=True, evict_after=600), [dict(at=None)],
                starve=False, source=lambda scn, w: None, horizon=1000.0,
                prepare=lambda scn: put_rows(scn.S, spec, sched.EPOCH - 10000),
                extra=lambda scn, w: peer(scn, w, 'stub', scn.C(0), lambda: body(scn, w)),
                until=lambda scn, w: bool(w.peers.get('stub') and w.peers['stub'].exit))
    scn.oracle = lambda scn, w, reason: bad + ([f"stub failed: {w.peers['stub'].exit}"] if w.peers.get('stub') and w.peers['stub'].exit
                                               and w.peers['stub'].exit[0] != 'ok' else [] if reason == 'until' or not any(s[2] in (NEW, OUT, BAD) for s in spec)
                                               else [f'no end: {reason}'])
    scn.outcome = lambda w, reason: 'x'
    r = scn.execute('fifo', {})
    return r.violations, str((seen, size, eager)), 1


def cases(tier):
    deep = tier == 'thorough'
    L = []
    # every database content of up to 3 tasks
    states = (NEW, OUT, OK, BAD, RETRIED)
    for n in (2, 3) if not deep else (1, 2, 3, 4):
        for sts in itertools.product(states, repeat=n):
            if n == 4 and len([s for s in sts if s in (NEW, OUT, BAD)]) < 3:
                continue
            subs = [p for p in itertools.permutations(range(n))] if n <= 3 and deep else \
                [tuple(range(n)), tuple(reversed(range(n))), (tuple(range(1, n)) + (0,))]
            seen = set()
            for p in subs:
                if p in seen:
                    continue
                seen.add(p)
                spec = tuple((chr(97 + i), p[i], sts[i], (i * 2 + 1) % n if n > 1 else 0) for i in range(n))
                for size, retries, eager in itertools.product((1, 2) if n < 3 or not deep else (1, 2, 3), (0, 1), (False, True)):
                    if retries == 0 and eager and not deep:
                        continue
                    L.append((spec, size, retries, eager, ()))
    # histories: five new tasks, every script of takes and returns
    spec = tuple((chr(97 + i), i, NEW, 0) for i in range(4))
    acts = ('take', ('old', False), ('new', False), ('old', True))
    for k in (3, 4) if not deep else (3, 4, 5, 6):
        for script in itertools.product(acts, repeat=k):
            if script[0] != 'take':
                continue
            for size, eager in (((2, False), (2, True), (1, True)) if not deep else itertools.product((1, 2, 3), (False, True))):
                L.append((spec, size, 2, eager, script))
    return L


# ---------------------------------------------------------------- whole runs: no reordering, whatever the threads do
def whole(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    rows = {r['id']: r for r in scn.rows()}
    size = scn.server['bundlesize']
    handed = collections.Counter()
    order = []
    for _, who, b in traffic(w, 'put', 'scheduled'):
        ids = task_ids(b)
        if len(ids) > size:
            out.append(f'bundle of {len(ids)} tasks')
        handed.update(ids)
        L = [rows[i] for i in ids]
        news = [r['attempt'] == 1 for r in L]
        if scn.server.get('eager') and sorted(news) != news:
            out.append(f"eager: new task before a retry in {[(r['args'], r['attempt']) for r in L]}")
        if not scn.server.get('eager') and sorted(news, reverse=True) != news:
            out.append(f"retry before a new task in {[(r['args'], r['attempt']) for r in L]}")
        order += [r['args'] for r in L if r['attempt'] == 1]
    if order != scn.tasks:
        out.append(f'tasks were handed out in order {order}')
    for i, n in handed.items():
        if n != 1:
            out.append(f"{rows[i]['args']}/{rows[i]['attempt']} was handed out {n} times")
    return out


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'b': 1, ('d', 1): {'status': 1, 'duration': 3.0}, ('d', 2): 0}
    for eager in (False, True):
        for b in (2,) if not deep else (1, 2, 3):
            S.append(Fleet(f'{"eager" if eager else "lazy"}-b{b}', ('d', 'c', 'b', 'a', 'e'), dict(bundlesize=b, bundlewait=1, max_retries=1, eager=eager),
                           [dict(num_tasks=2, bundlesize=1, bundlewait=1), dict(num_tasks=1, bundlesize=1, bundlewait=1)][:2 if deep else 1],
                           plan, feed=[0, 0, 1.5, 0, 2.5], oracle=whole, depth=1, policies=('fifo', 'rr', 'lifo') if deep else ('fifo',)))
    return Check('P06', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every content of the task table up to the stated size (state of each task, submission and completion order) and every '
                 'script of taking bundles and returning tasks, for every bundle size, retry limit and mode, against a reference scheduler; '
                 'a case is distinct by the sequence of bundles expected. Scenarios: complete executions under the controlled scheduler as in P01.')
