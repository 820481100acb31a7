"""P31: the captured output of a task is shown as its recorded run wrote it, wherever that was."""
import datetime as dt
import itertools
import os
import shutil
import sqlite3

import fakes
import inst
import program
import sched
import tasktable
from explore import Check, get_inst
from sched import EPOCH

MINE, OTHER = tasktable.uid(1), tasktable.uid(2)
HOSTS = ('h1', 'h2')
BASE = EPOCH - 5000


class Gone(BaseException):
    """The program is killed."""


class Far:
    """What other machines hold: {(host, path): bytes}, and how the connection to them behaves."""

    def __init__(self):
        self.files = {}
        self.connected = []
        self.breaks = None      # (kind, chunks that still arrive)
        self.pause = 0
        self.hit = False
        self.on_hit = lambda kind: None

    def chunk(self):
        if self.pause:
            fakes.v_sleep(self.pause)
        if self.breaks is not None:
            kind, n = self.breaks
            if n == 0:
                self.hit = True
                self.on_hit(kind)
                raise Gone() if kind == 'kill' else EOFError('connection lost') if kind == 'eof' else OSError('connection lost')
            self.breaks = (kind, n - 1)


def client_class(far):
    class SFTP:
        def __init__(self, host):
            self.host = host

        def getfo(self, path, f, *a, **k):
            far.chunk()
            data = far.files.get((self.host, path))
            if data is None:
                raise FileNotFoundError(2, 'No such file')
            for i in range(0, max(len(data), 1), 3):
                far.chunk()
                f.write(data[i:i + 3])
                f.flush()
            return len(data)

        def get(self, path, local, *a, **k):
            with open(local, 'wb') as f:       # as paramiko does: the file is there before the first byte
                return self.getfo(path, f)

        def open(self, path, mode='r', *a):
            import io
            far.chunk()
            data = far.files.get((self.host, path))
            if data is None:
                raise FileNotFoundError(2, 'No such file')
            return io.BytesIO(data) if 'b' in mode else io.StringIO(data.decode())

        file = open

        def stat(self, path):
            data = far.files.get((self.host, path))
            if data is None:
                raise FileNotFoundError(2, 'No such file')
            return type('Attr', (), {'st_size': len(data), 'st_mtime': BASE})()

        def close(self):
            pass

    class Client:
        def __init__(self):
            self.host = None

        def set_missing_host_key_policy(self, p):
            pass

        def load_system_host_keys(self, *a):
            pass

        def connect(self, hostname, **k):
            self.host = {'h1.example.org': 'h1'}.get(hostname, hostname)
            far.connected.append((self.host, {'hostname': hostname, **{x: y for x, y in k.items() if y is not None}}))
            far.chunk()

        def open_sftp(self):
            return SFTP(self.host)

        def close(self):
            pass
    return Client


def text(n, which):
    """What run n wrote; later runs write less."""
    return (f'{which}{n}:'.encode() + b'\xff\r\n\x00' + b'#' * (9 - 2 * n if which == 'o' else n * 3))[:12 - n if n < 4 else 0]


class Place:
    """One site with its database, the far machines, and what is known about the tasks."""

    def __init__(self):
        conf = os.path.join(inst.scratch(), 'ssh_config')
        if not os.path.exists(conf):
            with open(conf, 'w') as f:
                f.write(PROFILES)
        self.S = get_inst('captured', db='captured.db', site='site-captured', env={'HYPERSHELL_SSH_CONFIG': conf})
        self.far = Far()
        self.far.on_hit = self.on_hit
        self.frozen = None
        self.dir = os.path.join(self.S.core_platform.default_path.lib, 'task')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.else_ = os.path.join(inst.scratch(), 'another site')
        shutil.rmtree(self.else_, ignore_errors=True)
        os.makedirs(self.else_)
        tasktable.fill(self.S, [tasktable.task(1, 'mine', 'new'), tasktable.task(2, 'other', 'new')])
        self.run = {}           # id -> (host, out bytes, err bytes, outpath, errpath)
        self.n = 0
        self.log = ''
        self.now = BASE

    def on_hit(self, kind):
        """What is on disk when the program is killed stays."""
        if kind == 'kill':
            self.frozen = {x: open(os.path.join(self.dir, x), 'rb').read() for x in os.listdir(self.dir)}

    def thaw(self):
        if self.frozen is not None:
            keep = {x: os.path.getmtime(os.path.join(self.dir, x)) for x in os.listdir(self.dir)}
            shutil.rmtree(self.dir)
            os.makedirs(self.dir)
            for x, b in self.frozen.items():
                p = os.path.join(self.dir, x)
                with open(p, 'wb') as f:
                    f.write(b)
                if x in keep:
                    os.utime(p, (keep[x], keep[x]))
            self.frozen = None

    def sql(self, q, *a):
        c = sqlite3.connect(self.S.dbpath)
        c.execute(q, a)
        c.commit()
        c.close()

    def tick(self):
        """Files written in the last action are as old as it."""
        for d in (self.dir, self.else_):
            for x in os.listdir(d):
                p = os.path.join(d, x)
                if os.path.getmtime(p) > EPOCH - 9000 and os.path.getmtime(p) < self.now - 9:
                    continue
                if not BASE <= os.path.getmtime(p) <= self.now:
                    os.utime(p, (self.now, self.now))
        self.now += 20

    def execute(self, id, host):
        """The task runs there; this is recorded."""
        self.n += 1
        o, e = text(self.n, 'o'), text(self.n, 'e')
        d = {'here': self.dir, 'else': self.else_}.get(host, '/far site/task')
        paths = [f'{d}/{id}.{x}' for x in ('out', 'err')]
        at = [dt.datetime.fromtimestamp(self.now + x).strftime('%Y-%m-%d %H:%M:%S.%f') for x in (0, 2, 5)]
        self.now += 4
        for p, b in zip(paths, (o, e)):
            if host in HOSTS:
                self.far.files[host, p] = b
            else:
                with open(p, 'wb') as f:
                    f.write(b)
                os.utime(p, (self.now, self.now))
        self.sql('update task set schedule_time=?, start_time=?, completion_time=?, exit_status=0, client_id=?, client_host=?, server_id=?, server_host=?, command=?,'
                 ' outpath=?, errpath=?, waited=0, duration=3 where id=?', *at, tasktable.uid(9, 3), self.here if host in ('here', 'else') else host, tasktable.uid(2, 2), 'srv',
                 'x', *paths, id)
        self.run[id] = (host, o, e, *paths)

    @property
    def here(self):
        return self.S.task.HOSTNAME

    def revert(self, id):
        self.sql('update task set ' + ', '.join(f'{x}=null' for x in ('schedule_time', 'start_time', 'completion_time', 'exit_status', 'client_id', 'client_host', 'server_id',
                                                                        'server_host', 'command', 'outpath', 'errpath', 'waited', 'duration')) + ' where id=?', id)
        self.run.pop(id, None)

    def program(self, which, id, **k):
        S = self.S
        keep = S.core_remote.SSHClient
        S.core_remote.SSHClient = client_class(self.far)
        try:
            return program.run(S, lambda: S.task.TaskInfoApp.main([id, '--stdout' if which == 'out' else '--stderr']), binary=True, horizon=200.0, **k)
        finally:
            S.core_remote.SSHClient = keep
            S.drop_sessions()

    def show(self, which, id, breaks=None):
        """Ask for the output; what is wrong with the answer."""
        self.far.breaks, self.far.hit = breaks, False
        n = len(self.far.connected)
        try:
            o = self.program(which, id)
        finally:
            self.far.breaks = None
            self.thaw()
        self.log += f'{o.status}{o.out!r}{o.err!r}{self.far.hit};'
        who = f'info --std{which} of {"the task" if id == MINE else "the other task"}'
        if breaks and self.far.hit:
            who += f' ({breaks[0]} after {breaks[1]} chunks)'
        got, rest = (o.out, o.err) if which == 'out' else (o.err, o.out)
        rec = self.run.get(id)
        if o.stuck or (o.error is not None and not isinstance(o.error, Gone)):
            return [f'{who} ended with {o.error or "no end"}']
        if rec is None:
            return [f'{who} printed {got!r} and ended with {o.status}, but there is none'] if o.status == 0 or got else []
        host, out, err, outpath, errpath = rec
        want = out if which == 'out' else err
        if rest:
            return [f'{who} wrote {rest!r} to the other stream']
        for h, k in self.far.connected[n:]:
            if h != host:
                return [f'{who} connected to {h}, ran on {host}']
            if k != CONNECTION[h]:
                return [f'{who} connected with {k}, configured: {CONNECTION[h]}']
        if self.far.hit:
            if o.status == 0:
                return [f'{who} ended with 0']
            return [] if want.startswith(got) else [f'{who} printed {got!r}, written by the run: {want!r}']
        if host in HOSTS and (host, outpath if which == 'out' else errpath) not in self.far.files:
            # only a copy of it may be left
            return [] if o.status != 0 and not got or o.status == 0 and got == want else [f'{who} ended with {o.status} and printed {got!r}, written by the run: {want!r}']
        if o.status != 0 or got != want:
            return [f'{who} ended with {o.status} and printed {got!r}, written by the run (on {host}): {want!r}']
        return []


BREAKS = [(kind, n) for kind in ('kill', 'net') for n in (0, 1, 2, 3)]


def act(p, a):
    if a in ('here', 'else') + HOSTS:
        p.execute(MINE, a)
    elif a == 'other':
        p.execute(OTHER, 'h1')
        return p.show('out', OTHER)
    elif a == 'revert':
        p.revert(MINE)
    elif a == 'gone':
        p.far.files = {}
    elif isinstance(a, tuple):
        return p.show(a[1], MINE, a[0])
    else:
        return p.show(a, MINE)
    return []


def history_case(case):
    p = Place()
    out = []
    for k, a in enumerate(case[1]):
        for m in act(p, a):
            out.append(f'after {case[1][:k]}: {m}')
        p.tick()
        if out:
            break
    return out, p.log, len(case[1])


def both_case(case):
    """Two programs ask at the same time: the second starts during the first one's transfers."""
    _, first, second, offset, host = case
    p = Place()
    p.execute(MINE, host)
    p.tick()
    p.far.pause = 0.1
    S = p.S
    done = []
    flag = {'out': '--stdout', 'err': '--stderr'}

    def start(w):
        w.second = w.add_proc('second', S, lambda: S.task.TaskInfoApp.main([MINE, flag[second]]))
    o = p.program(first, MINE, at=[(offset, start)], until_all=True)
    host, out, err = p.run[MINE][:3]
    res = []
    if o.stuck or o.error or o.status != 0:
        res.append(f'the first one ended with {o.status} {o.error}')
    q = getattr(o.world, 'second', None)
    if q is None:
        return res, 'over', 1
    if q.exit != ('ok', 0):
        res.append(f'the second one ended with {q.exit}')
    want = {'out': b'', 'err': b''}
    for x in (first, second):
        want[x] += out if x == 'out' else err
    if (o.out, o.err) != (want['out'], want['err']):
        res.append(f'printed {o.out!r} and {o.err!r}, written: {want}')
    return [f'{first} and {offset} s later {second} on {host}: {m}' for m in res], str(offset), 1


PROFILES = '''Host h1 alias
    HostName h1.example.org
    User someone
    IdentityFile /keys/id
Host *.inner
    User other
'''


CONNECTION = {'h1': {'hostname': 'h1.example.org', 'username': 'someone', 'key_filename': ['/keys/id']}, 'h2': {'hostname': 'h2'}}


def run_case(case):
    return {'history': history_case, 'both': both_case}[case[0]](case)


def cases(tier):
    deep = tier == 'thorough'
    L = []
    first = ('here', 'else', 'h1')
    rest = ('here', 'else', 'h1', 'h2', 'revert', 'out', 'err', 'other', 'gone', (('kill', 1), 'out'), (('kill', 2), 'err'), (('net', 2), 'out'), (('net', 3), 'err'))
    for n in range(1, 6 if deep else 5):
        for h in itertools.product(rest, repeat=n - 1):
            if n > 1 and not (h[-1] in ('out', 'err', 'other') or isinstance(h[-1], tuple)):
                continue        # nothing is asked at the end
            if any(a == b for a, b in zip(h, h[1:]) if a not in ('out', 'err')):
                continue
            L += [('history', (f,) + h) for f in first]
    L += [('history', h) for h in (('out',), ('err',))]
    # every point at which a transfer can break, then again
    for b, which, then in itertools.product([(k, n) for k in ('kill', 'net', 'eof') for n in range(9)], ('out', 'err'), (('out', 'err'), ('err', 'out'), ('h2', 'out', 'err'))):
        L.append(('history', ('h1', (b, which)) + then))
    for a, b, t in itertools.product(('out', 'err'), ('out', 'err'), [x / 20 for x in range(0, 40 if deep else 24)]):
        if a != b:
            L.append(('both', a, b, t, 'h1'))
    return L


def make(tier):
    return Check('P31', cases=cases(tier), run_case=run_case,
                 rule='Cases: every history, up to the stated length, of runs of the task here, in another site and on two other hosts, reverts, requests for its '
                 'output and errors, interrupted requests, and lost files; every point at which a transfer can break; two requests at every offset of each other. '
                 'The SSH library is replaced by one with the same interface that serves files from memory.',
                 assumptions=('The clocks of the hosts agree within a second.',))
