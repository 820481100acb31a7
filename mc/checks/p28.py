"""P28: waiting for a task returns exactly when it has finished, with its result."""
import collections
import itertools
import json
import os
import sqlite3
import sys

import inst
import fakes
import program
import sched
import tasktable
from explore import Check, get_inst
from fleet import Fleet, runs
from sched import EPOCH

# ---------------------------------------------------------------------------------------- waiting for a task
#: what may happen to the task while it is being waited for
CHANGES = {
    'queue': "update task set schedule_time='2030-01-01 12:00:00.000000' where id=?",
    'ok': "update task set schedule_time='2030-01-01 12:00:00.000000', completion_time='2030-01-01 12:05:00.000000', exit_status=0 where id=?",
    'fail': "update task set schedule_time='2030-01-01 12:00:00.000000', completion_time='2030-01-01 12:05:00.000000', exit_status=3 where id=?",
    'killed': "update task set schedule_time='2030-01-01 12:00:00.000000', completion_time='2030-01-01 12:05:00.000000', exit_status=-15 where id=?",
    'cancel': "update task set schedule_time='2030-01-01 12:00:00.000000', exit_status=-1 where id=?",
    'revert': "update task set schedule_time=null, completion_time=null, exit_status=null where id=?",
    'retried': "update task set retried=1 where id=?",
    'delete': 'delete from task where id=?',
}
STATUS = {'ok': 0, 'fail': 3, 'killed': -15, 'cancel': -1}
ID = tasktable.uid(1)
OTHER = tasktable.uid(2)
TABLE = [tasktable.task(1, 'mine', 'new', tag={'a': 'x'}), tasktable.task(2, 'other', 'new')]


def after(state, change):
    """(exists, exit status) after a change."""
    if state == 'deleted':
        return state
    if change == 'delete':
        return 'deleted'
    if change in STATUS:
        return STATUS[change]
    return None if change == 'revert' else state


def wait_case(case):
    _, interval, history, flags, start = case
    S = tasktable.copy()
    tasktable.fill(S, TABLE)
    path = S.dbpath

    def change(what, id=ID):
        c = sqlite3.connect(path)
        c.execute(CHANGES[what], (id,))
        c.commit()
        c.close()
    if start:
        change(start)
    at = []
    for t, what in history:
        at.append((t, lambda w, what=what: change(what)))
    at.append((0.3, lambda w: change('ok', OTHER)))        # another task finishes
    argv = [ID] + ([] if interval is None else ['-n', str(interval)]) + list(flags)
    o = program.run(S, lambda: S.task.TaskWaitApp.main(argv), at=at, horizon=120.0)
    S.drop_sessions()
    n = 5 if interval is None else interval

    def state_at(t):
        s = after(None, start) if start else None
        for when, what in history:
            if when <= t:
                s = after(s, what)
        return s
    # the moments of interest: the task counts as waited for until the first poll that finds it finished or gone
    when, t = None, 0.0
    while t < 120:
        if state_at(t) is not None:
            when = t
            break
        t += n
    final = state_at(when) if when is not None else None
    out = []
    who = f'wait {argv} with {start or "a new task"}, then {history}'
    if when is None:
        if not o.stuck:
            out.append(f'{who}: returned after {o.elapsed:.1f} s ({o.status} {o.error}) although the task never finished')
        return out, str(case), 1
    if o.stuck:
        return [f'{who}: never returns'], str(case), 1
    if o.elapsed > when + 0.6:
        out.append(f'{who}: returned after {o.elapsed:.1f} s, expected at {when:.1f} s')
    # not earlier than the task was finished
    if state_at(o.elapsed + 0.05) is None and not any(what == 'revert' for _, what in history):
        out.append(f'{who}: returned after {o.elapsed:.1f} s, before the task was finished')
    if o.error:
        return [f'{who}: ended with {o.error!r}'], str(case), 1
    if final == 'deleted':
        if o.status in (0, None):
            out.append(f'{who}: the task is gone and the status is {o.status}')
        if o.out:
            out.append(f'{who}: the task is gone and {o.out!r} is shown')
        return out, str(case), 1
    want = final if '-r' in flags or '--return' in flags else 0
    if o.status != want:
        out.append(f'{who}: status {o.status}, expected {want}')
    if '-s' in flags or '--status' in flags:
        if o.out != f'{final}\n':
            out.append(f'{who}: shows {o.out!r}, expected {final}')
    elif '-i' in flags:
        if '--json' in flags:
            try:
                d = json.loads(o.out)
            except ValueError:
                d = {}
            if d.get('id') != ID or d.get('exit_status') != final or d.get('args') != 'mine' or d.get('tag') != {'a': 'x'}:
                out.append(f'{who}: shows {o.out!r}')
        elif '--yaml' not in flags:
            L = [x.strip() for x in o.out.splitlines()]
            if f'id: {ID}' not in L or f'exit_status: {final}' not in L or 'args: mine' not in L:
                out.append(f'{who}: shows {o.out!r}')
        elif f'exit_status: {final}' not in o.out or ID not in o.out:
            out.append(f'{who}: shows {o.out!r}')
    elif o.out:
        out.append(f'{who}: prints {o.out!r}')
    return out, str(case), 1


# ------------------------------------------------------------------------------------------- captured output
BYTES = (b'', b'a', b'a\n', b'a\r\nb\r\n', b'a\rb', b'\r', b'\n\n', b'\xff\xfe\x00', b'\0', 'é漢\n'.encode(), b'\xc3', b'x' * 200_000 + b'\n', b'\r\n' * 40_000,
         b'a\x85b\x1cc\xe2\x80\xa8d\n', b'\x1a', b'\xef\xbb\xbfx')


def info_case(case):
    """hs task info --stdout/--stderr of a task run here or elsewhere, captured or not."""
    _, out_bytes, err_bytes, place, flag = case
    S = tasktable.copy()
    lib = os.path.join(S.core_platform.default_path.lib, 'task')
    os.makedirs(lib, exist_ok=True)
    other = os.path.join(inst.scratch(), 'elsewhere')
    os.makedirs(other, exist_ok=True)
    for d in (lib, other):
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
    d = lib if place in ('same', 'shared') else other
    paths = {x: os.path.join(d, f'{ID}.{x}') for x in ('out', 'err')}
    r = tasktable.task(1, 'mine', 'done', 0)
    r.update(outpath=paths['out'], errpath=paths['err'], client_host=S.core_logging.HOSTNAME if place in ('same', 'site') else 'farhost')
    q = tasktable.task(2, 'other', 'done', 0)
    q.update(outpath=os.path.join(d, f'{OTHER}.out'), errpath=os.path.join(d, f'{OTHER}.err'), client_host=r['client_host'])
    if place == 'none':
        r.update(outpath=None, errpath=None)
    for p, b in ((paths['out'], out_bytes), (paths['err'], err_bytes), (q['outpath'], b'other out'), (q['errpath'], b'other err')):
        with open(p, 'wb') as f:
            f.write(b)
    tasktable.fill(S, [r, q])
    calls = []

    class Remote:
        def __init__(self, host, *a, **k):
            calls.append(host)

        def __enter__(self):
            return self

        def __exit__(self, *exc):
            pass

        def get_file(self, a, b):
            with open(a, 'rb') as f:
                x = f.read()
            with open(b, 'wb') as f:
                f.write(x)
    keep = S.task.SSHConnection
    S.task.SSHConnection = Remote
    try:
        o = program.run(S, lambda: S.task.TaskInfoApp.main([ID, flag]), binary=True)
    finally:
        S.task.SSHConnection = keep
        S.drop_sessions()
    want = (out_bytes, b'') if flag == '--stdout' else (b'', err_bytes)
    who = f'info {flag} with {want[0][:20] or want[1][:20]!r} captured ({place})'
    if o.error or o.stuck:
        return [f'{who}: {o.error!r}'], str(case)[:200], 1
    if place == 'none':
        return ([f'{who}: status {o.status}, shows {o.out[:40]!r} for a task without captured output'] if o.out or o.status == 0 and o.out else []), str(case)[:200], 1
    out = []
    if o.status != 0:
        out.append(f'{who}: status {o.status}')
    if (o.out, o.err) != want:
        out.append(f'{who}: shows {o.out[:60]!r} {o.err[:60]!r} ({len(o.out)}, {len(o.err)} bytes)')
    if place == 'far' and calls != ['farhost'] or place in ('same', 'site') and calls:
        out.append(f'{who}: fetched from {calls}')
    return out, str(case)[:200], 1


# ----------------------------------------------------------------------------------------- hs task run / wait
class Live(Fleet):
    """A server runs for ever with capturing clients; the user runs commands meanwhile."""

    def __init__(self, name, argv, plan, main='TaskRunApp', client=None, others=(), **k):
        self.argv, self.app, self.others = argv, main, others
        super().__init__(name, (), dict(bundlesize=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1, capture=True, at=0.5, **(client or {}))],
                         plan, oracle=oracle, forever=True, **k)

    def describe(self):
        return f'{self.app} {self.argv} while other lines {self.others} are processed; ' + super().describe()

    def C(self, i):
        return get_inst('client-user', db=None, site='site-user')        # the user's own programs

    @property
    def U(self):
        return get_inst('user', db='world.db', site='site-user')

    def setup(self):
        super().setup()
        self.U.reset()
        lib = os.path.join(self.U.core_platform.default_path.lib, 'task')
        os.makedirs(lib, exist_ok=True)
        for f in os.listdir(lib):
            os.remove(os.path.join(lib, f))

    def execute(self, *a, **k):
        keep = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = self.out, self.err = program.Stream(), program.Stream()
        sys.stdout.fileno = sys.stderr.fileno = lambda: 1
        try:
            return super().execute(*a, **k)
        finally:
            sys.stdout, sys.stderr = keep

    def build(self, w):
        super().build(w)
        w.user = None
        U = self.U

        def go():
            def main():
                for x in self.others:
                    U.data_model.Task.add(U.data_model.Task.new(args=x))
                return getattr(U.task, self.app).main(list(self.argv))
            w.user = w.add_proc('user', U, main)
        w.at(EPOCH + 1.5, go)

    def until(self, w):
        return w.user is not None and w.user.exit is not None

    def outcome(self, w, reason):
        return f'{reason} {w.user and w.user.exit} {self.out.getvalue()[:40]!r}'


def oracle(scn, w, reason):
    if reason != 'until':
        return [f'hs task run does not return ({reason} at {w.now - EPOCH:.0f} s; {[(t.name, t.what) for t in w.blocked]})']
    out = []
    kind, val = w.user.exit
    rows = scn.rows()
    if kind == 'exc':
        return [f'ended with {val!r}']
    args = ' '.join(x for x in scn.argv[scn.argv.index('--') + 1:])
    mine = [r for r in rows if r['args'] == args]
    if len(mine) != 1:
        return [f'{len(mine)} tasks {args!r} were submitted']
    me = mine[0]
    ran = [r for r in runs(w) if r.id == me['id']]
    plan = scn.plan[args]
    if isinstance(plan, BaseException) or plan.get('unstarted'):
        if me['exit_status'] in (None, 0):
            out.append(f"returned although the task has status {me['exit_status']}")
        return out
    if me['completion_time'] is None or len(ran) != 1 or ran[0].end is None:
        return [f"returned at {w.user.exit_time - EPOCH:.1f} s, before the task was completed ({me['exit_status']})"]
    if me['exit_status'] != plan['status']:
        out.append(f"recorded {me['exit_status']}")
    if (scn.out.getvalue(), scn.err.getvalue()) != (plan['out'], plan['err']):
        out.append(f"shows {scn.out.getvalue()[:80]!r} {scn.err.getvalue()[:80]!r} of a task that wrote {plan['out'][:80]!r} {plan['err'][:80]!r}")
    n = int(scn.argv[scn.argv.index('-n') + 1])
    if w.slow is None and not (w.chooser.devs and scn.stalls):
        # returned within the bundle wait and polling delays of client and server, then seen at the next poll
        if w.user.exit_time > ran[0].end + 1 + 1 + 2 + n + 1.5:
            out.append(f'returned {w.user.exit_time - ran[0].end:.1f} s after the task ended (interval {n} s)')
    return out


def run_case(case):
    return {'wait': wait_case, 'info': info_case}[case[0]](case)


FLAGS = ((), ('-s',), ('-r',), ('-i',), ('-i', '--json'), ('-i', '--yaml'))


def cases(tier):
    deep = tier == 'thorough'
    L = []
    times = (0.4, 2.9, 7.3)
    for start in (None, *CHANGES):
        for f in FLAGS:
            L.append(('wait', 1, (), f, start))
    for n in (1, 2, None, 7) if not deep else (1, 2, 3, None, 7, 30):
        for t in (0.4, 1.0, 2.9, 5.0, 13.3):
            for c in CHANGES:
                for f in FLAGS:
                    L.append(('wait', n, ((t, c),), f, None))
    ch = list(CHANGES)
    for n in (1, 3) if not deep else (1, 2, 3, None):
        for k in (2,) if not deep else (2, 3):
            for cs in itertools.product(ch, repeat=k):
                for f in ((), ('-s',), ('-r',)):
                    for start in (None, 'queue') if not deep else (None, 'queue', 'fail', 'cancel'):
                        L.append(('wait', n, tuple(zip(times, cs)), f, start))
    for place in ('same', 'site', 'far', 'shared', 'none'):
        for b in BYTES:
            for f in ('--stdout', '--stderr'):
                L.append(('info', b, b'the other', place, f) if f == '--stdout' else ('info', b'the other', b, place, f))
    return L


def make(tier):
    deep = tier == 'thorough'
    S = []
    P = {'plain': {'duration': 1.2, 'status': 0, 'out': b'hello\n', 'err': b'a warning\n'}, 'fails': {'duration': 0.4, 'status': 3, 'out': b'a\r\n', 'err': b'oops\xff\n'},
         'long': {'duration': 9.0, 'status': -9, 'out': b'x' * 70_000, 'err': b'y' * 70_000}, 'other': {'duration': 2.0, 'status': 0, 'out': b'not mine', 'err': b'nor this'}}
    for x in ('plain', 'fails', 'long'):
        for n in (1, 4):
            S.append(Live(f'run-{x}-n{n}', ['-n', str(n), '--', x], P, others=('other',) if n == 1 else (), offers=('delay', 'stall:3') if deep else ('delay',), depth=1,
                          policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo'), starve=deep or n == 1))
    S.append(Live('run-tags', ['-n', '1', '-t', 'site:b', 'x:1', '--', 'plain'], P, offers=('delay',), depth=1, policies=('fifo',)))
    S.append(Live('run-unstartable', ['-n', '1', '--', 'bad'], {'bad': OSError(11, 'no')}, offers=('delay',), depth=1, policies=('fifo',)))
    return Check('P28', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every history of one change (two, in the thorough tier three) to the awaited task x interval x kind of report; every kind of captured bytes x where '
                 'they were captured. Scenarios: hs task run with a real server and capturing client under the controlled scheduler with every single alternative.')
