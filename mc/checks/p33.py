"""P33: messages tell what happened at the level and in the form configured; a program that cannot write them ends with an error."""
import glob
import itertools
import os
import re

import fakes
import inst
import messages
import program
import sched
from checks.p30 import BrokenCluster, Failing, SOON, HEART, failed, oracle as failing_oracle
from clusters import Cluster
from explore import Check, get_inst
from fleet import Fleet, ends, runs
from sched import EPOCH

LEVELS = ('CRITICAL', 'ERROR', 'WARNING', 'INFO', 'DEBUG', 'TRACE', 'DEVEL')
NUMBER = {'CRITICAL': 50, 'ERROR': 40, 'WARNING': 30, 'INFO': 20, 'DEBUG': 10, 'TRACE': 5, 'DEVEL': 1}
BAD = '%(nothing)s %(message)s'


def slug(env):
    return '-'.join(f'{k[11:]}={v}' for k, v in sorted(env.items())).replace('/', '_')


class Talking:
    """A system whose programs' messages are collected.  loud: settings of the program of interest (`who`), other programs are silent."""
    loud = {'HYPERSHELL_LOGGING_LEVEL': 'DEBUG'}
    who = 'server'
    lasting = True          # once broken, always broken

    def breaker(self, w, p):
        """Writing to standard error fails from the chosen message on, or once."""
        if self.who not in (p.name, 'all') or self.what != 'log' or getattr(w, 'second', None):
            return
        w.point('log', '')
        if w.fault == 'log' or (w.hit and self.lasting):
            w.fault, w.hit = None, True
            raise BrokenPipeError(32, 'Broken pipe')

    def attach(self, w):
        messages.attach(w, self.talkers(), self.breaker)

    def teardown(self, w):
        messages.detach()
        super().teardown(w)


class Speech(Talking, Failing):
    """what: 'log' (standard error breaks at any message), 'format' (no message can be formatted), 'none'."""

    def __init__(self, name, what, *a, who='server', loud=None, lasting=True, verdict=None, **k):
        k.setdefault('offers', ())
        super().__init__(name, what, *a, **k)
        self.who, self.lasting = who, lasting
        self.loud = {'HYPERSHELL_LOGGING_LEVEL': 'DEBUG', **(loud or {})}
        self.oracle = verdict or (failing_oracle if who == 'server' else client_oracle)
        if what == 'format':
            self.loud['HYPERSHELL_LOGGING_FORMAT'] = BAD

    def describe(self):
        return f'messages of {self.who} {self.loud} lasting {self.lasting} ' + super().describe()

    def env(self, name):
        return self.loud if self.who in (name, 'all') else {}

    @property
    def S(self):
        e = self.env('server')
        name = 'server-' + slug(e) if e else 'server'
        return get_inst(name, env=e) if self.db else get_inst(name + '-nodb', db=None, site='site-nodb', env=e)

    def C(self, i):
        e = self.env(self.cnames[i])
        return get_inst(self.cnames[i] + ('-' + slug(e) if e else ''), db=None, site=f'site-{self.cnames[i]}', env=e)

    def talkers(self):
        return [I for n, I in [('server', self.S)] + [(self.cnames[i], self.C(i)) for i in range(len(self.clients))] if self.env(n)]

    def build(self, w):
        self.attach(w)
        super().build(w)

    def fault(self, w, t, kind):
        if kind == 'log' and not w.hit and not w.fault:
            return ['fault:log']
        return []


def client_oracle(scn, w, reason):
    """One client cannot write its messages: it ends with an error soon; the others do everything."""
    out = []
    p = next((c for c in w.clients if c is not None and c.name == scn.who), None)
    if w.when is not None and p is not None:
        work = max([scn.duration] + [v.get('duration', 0) for v in scn.plan.values() if isinstance(v, dict)])
        if p.exit is None:
            return [f'{p.name} did not end within {w.now - w.when:.0f} s of the failure ({reason}): waiting: {[(t.name, t.what) for t in w.blocked if t.proc is p]}']
        if not failed(p):
            out.append(f'{p.name} ended as if nothing had happened')
        if p.exit_time > w.when + SOON + work:
            out.append(f'{p.name} ended {p.exit_time - w.when:.1f} s after the failure')
    if scn.known_gap(w) or unfinished_gap(scn, w, p):
        return out
    if reason != 'until':
        return out + [f'{[x.name for x in [w.server] + w.clients if x is not None and x.alive]} did not end ({reason}): waiting: {[(t.name, t.what) for t in w.blocked]}']
    if failed(w.server):
        out.append(f'the server ended with {w.server.exit}')
    rs = scn.rows()
    if sorted(r['args'] for r in rs if r['exit_status'] is not None) != sorted(scn.tasks):
        out.append(f"completed: {[(r['args'], r['exit_status']) for r in rs]}")
    return out


def unfinished_gap(scn, w, p):
    """Finding F-unconfirmed (P02): the client has ended with an error holding tasks it had not confirmed."""
    from fleet import unconfirmed
    return p is not None and failed(p) and unconfirmed(w, p.name)


# ---------------------------------------------------------------------------------- what the messages say
def told(scn, w, reason):
    """INFO of a client: one for every task it starts, naming it; a failed task: a warning of the server naming it; nothing graver when all is well."""
    out = ends(scn, w, reason)
    if out:
        return out
    R = runs(w)
    for c in w.clients:
        if c is None or c.exit[0] == 'never':
            continue
        mine = [r.id for r in R if r.client == c.name]
        info = [m for m in w.messages if m[1] == c.name and m[2] == 'INFO']
        for i in mine:
            if len([m for m in info if i in m[4]]) != 1:
                out.append(f'{c.name}: {[m[4] for m in info if i in m[4]]} at the start of task {i}')
        if len(info) != len(mine):
            out.append(f'{c.name}: {len(info)} messages at INFO for {len(mine)} tasks')
        for r in R:
            m = next((m for m in info if r.id in m[4]), None)
            if r.client == c.name and m is not None and abs(m[0] - r.start) > (0.5 if w.policy[:4] != 'slow' else 60):
                out.append(f'{c.name}: the start of {r.args} at {r.start - EPOCH:.2f} is told at {m[0] - EPOCH:.2f}')
    grave = [m for m in w.messages if m[1] == 'server' and m[2] in ('WARNING', 'ERROR', 'CRITICAL')]
    ids = [(r['id'], r['exit_status'], r['args']) for r in scn.rows()] if scn.db else [(r.id, r.status, r.args) for r in R]
    for i, status, args in ids:
        mine = [m[4] for m in grave if i in m[4]]
        if status == 0 and mine:
            out.append(f'task {args} went well, but {mine}')
        if status not in (0, None) and not any(str(status) in m.replace(i, '') for m in mine):
            out.append(f'task {args} ended with {status}: {mine}')
        if status not in (0, None) and len(mine) != 1:
            out.append(f'task {args} ended with {status}, told {len(mine)} times')
    expect = scn.expect(R) if hasattr(scn, 'expect') else {}
    for m in w.messages:
        if m[2] in ('ERROR', 'CRITICAL') and m[1] not in expect:
            out.append(f'{m[1]} says {m[2]} {m[4]}, but all is well')
    for name, n in expect.items():
        got = [m[4] for m in w.messages if m[1] == name and m[2] == 'ERROR']
        if len(got) != n:
            out.append(f'{name}: {n} tasks cannot be started or expanded, {len(got)} errors: {got}')
    shown = [x for x in w.shown]
    if len(shown) != len(w.messages):
        out.append(f'{len(w.messages)} messages, {len(shown)} lines')
    for m, (p, text) in zip(w.messages, shown):
        if p != m[1] or not text.rstrip('\n').endswith(m[4]) or f'[{m[3]}]' not in text or m[2] not in text:
            out.append(f'{m} is shown as {text!r}')
            break
    return out


class Told(Speech):
    """Nothing breaks; `broken`: number of tasks of client1 which cannot be started or expanded."""

    def __init__(self, name, *a, broken=0, **k):
        super().__init__(name, 'none', *a, who='all', again=False, verdict=told, **k)
        self.broken = broken
        if broken:
            self.expect = lambda R: {'client1': broken}


def cluster_told(scn, w, reason):
    """A cluster that ends with an error has said so (critical); one that ends well has not."""
    out = []
    if reason != 'until':
        return [f'did not end ({reason})']
    for p in [w.cluster] + scn.clients(w):
        crit = [m[4] for m in w.messages if m[1] == p.name and m[2] == 'CRITICAL']
        if p.exit is None or p.exit[0] == 'killed':
            continue
        if failed(p) and not crit:
            out.append(f'{p.name} ended with {p.exit} without a word')
        if not failed(p) and crit:
            out.append(f'{p.name} ended well after {crit}')
    return out


class SpeakingCluster(Talking, BrokenCluster):
    def __init__(self, name, what, argv, verdict=None, loud=None, lasting=True, who='cluster', **k):
        self.who = who
        self.loud = {'HYPERSHELL_LOGGING_LEVEL': 'DEBUG', **(loud or {}), **({'HYPERSHELL_LOGGING_FORMAT': BAD} if what == 'format' else {})}
        super().__init__(name, what, argv, **k)
        self.lasting = lasting
        if verdict:
            self.oracle = verdict

    @property
    def S(self):
        e = {**self.env, **self.loud}
        kw = {} if self.db else {'db': None, 'site': 'site-cluster-nodb'}
        return get_inst(('cluster-' if self.db else 'cluster-nodb-') + slug(self.loud), env=e, **kw)

    def C(self, name):
        e = self.loud if self.who == 'all' else {}
        return get_inst(name + ('-' + slug(e) if e else ''), db=None, site=f'site-{name}', env={**{k: v for k, v in self.env.items() if 'CLIENT' in k or 'TASK' in k}, **e})

    def talkers(self):
        return [self.S]

    def build(self, w):
        self.attach(w)
        super().build(w)

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None or self.what == 'none':
            return ()
        if self.what != 'log':
            return super().offer(w, t, kind, obj)
        self.note(w)
        L = list(Cluster.offer(self, w, t, kind, obj))
        if kind == 'log' and t.proc is w.cluster and not w.hit and not w.fault:
            L.append('fault:log')
        return L


# ---------------------------------------------------------------------------------- level and form
HOST = 'a123.cluster.foo.edu'
STYLES = {
    'default': '{level:>8} [{name}] {message}',
    'detailed': '{time}.{ms} {host} {level:>8} [{name}] {message}',
    'detailed-compact': '{hms} [{short}] {level:>8} [{relative}] {message}',
    'system': '{time}.{ms} {host} {level:>8} [{app}] [{name}] {message}',
}
FORMATS = {     # logging.format: how it is shown
    '%(levelname)s %(message)s': '{level} {message}',
    '%(hostname)s|%(hostname_short)s|%(relative_name)s|%(app_id)s|%(message)s': '{host}|{short}|{relative}|{app}|{message}',
    '%(elapsed_hms)s|%(elapsed_ms)d|%(message)s': '{hms}|{elapsed}|{message}',
    '%(ansi_bold)s%(ansi_level)s%(ansi_red)s%(ansi_green)s%(ansi_blue)s%(ansi_yellow)s%(ansi_cyan)s%(ansi_magenta)s%(ansi_white)s%(ansi_black)s%(ansi_italic)s'
    '%(ansi_underline)s%(ansi_faint)s%(ansi_reset)s%(message)s': '{message}',
    '[%(asctime)s %(levelname)s] %(message)s': '[{time} {level}] {message}',
}
DATES = {None: '%Y-%m-%d %H:%M:%S', '%d.%m.%Y': '%d.%m.%Y'}


def hms(seconds):
    ms = int(round(seconds * 1000, 3))
    s, ms = divmod(ms, 1000)
    d, s = divmod(s, 86400)
    return f'{d:02d}-{s // 3600:02d}:{s // 60 % 60:02d}:{s % 60:02d}.{ms:03d}'


def shapes(m, I, form, datefmt, at):
    """All texts a message could be shown as, given when it was created (to a millisecond)."""
    import datetime
    out = set()
    for d in (-0.001, 0, 0.001):
        t = at + d
        when = datetime.datetime.fromtimestamp(t)
        out.add(form.format(level=m[2], name=m[3], relative=m[3].split('.', 1)[-1], message=m[4], host=HOST, short='a123', app=I.instance,
                            time=when.strftime(datefmt), ms=f'{int(t % 1 * 1000 + 1e-6):03d}', hms=hms(t - EPOCH), elapsed=int((t - EPOCH) * 1000 + 1e-6)))
    return out


_REFERENCE = {}
PROGRAMS = ('cluster', 'submit', 'list', 'wait', 'server')


def talk(I, prog):
    """Run a program; returns (Outcome, messages, shown)."""
    I.reset()
    inst.fresh_db(I)
    I.__dict__.pop('log_setup', None)
    path = os.path.join(inst.scratch(), 'tasks.in')
    with open(path, 'w') as f:
        f.write('a\nb\n')
    plan = {'a': 1}

    def behaviour(args, env, proc):
        return fakes.Script(1.0, plan.get((env or {}).get('TASK_ARGS'), 0), kind='task')
    mains = {
        'cluster': lambda: I.cluster.ClusterApp.main([path, '-N1']),
        'submit': lambda: I.submit.SubmitApp.main([path]),
        'list': lambda: I.task.TaskSearchApp.main(['args', '-w', 'nothing == 1']),
        'wait': lambda: I.task.TaskWaitApp.main(['00000000-0000-0000-0000-000000000000']),
        'server': lambda: I.server.ServerApp.main([path, '--max-retries', '2', '--no-db']),
    }

    def prepare(w):
        messages.attach(w, [I])
    got = []

    def main():
        w = sched.WORLD
        try:
            return mains[prog]()
        finally:
            got.append((list(w.messages), list(w.shown)))
    try:
        r = program.run(I, main, policy='fifo', behaviour=behaviour, prepare=prepare, signals=True, real_std=True, horizon=30)
        m = got[0] if got else (r.world.messages, r.world.shown)
    finally:
        messages.detach()
    return r, m[0], m[1]


def copy(env, tag):
    return get_inst('p33-' + tag, env={'HYPERSHELL_LOGGING_LEVEL': None, **env}, host=HOST, site='site-p33')


def normal(text):
    """Without identities, times and addresses."""
    return re.sub(r'\d', '#', re.sub(r'[0-9a-f]{8}-[0-9a-f-]{27}', 'ID', text))


def reference(prog):
    if prog not in _REFERENCE:
        _REFERENCE[prog] = talk(copy({'HYPERSHELL_LOGGING_LEVEL': 'DEVEL'}, 'DEVEL'), prog)
    return _REFERENCE[prog]


def level_case(case):
    """A program at one level shows exactly those messages of the most verbose run that are at least as grave."""
    level, prog = case
    r0, all0, _ = reference(prog)
    I = copy({} if level is None else {'HYPERSHELL_LOGGING_LEVEL': level}, str(level))
    r, ms, shown = talk(I, prog)
    limit = NUMBER[(level or 'WARNING').upper()]
    want = [(m[1], m[2], m[3], normal(m[4])) for m in all0 if NUMBER[m[2]] >= limit]
    got = [(m[1], m[2], m[3], normal(m[4])) for m in ms]
    out = []
    if got != want:
        out.append(f'{prog} at {level}: {[x for x in got if x not in want][:2]} more, {[x for x in want if x not in got][:2]} less, {len(got)} not {len(want)} messages')
    if (r.status, repr(r.error), r.stuck) != (r0.status, repr(r0.error), r0.stuck):
        out.append(f'{prog} at {level} ended with {r.status} {r.error!r}, otherwise {r0.status} {r0.error!r}')
    if r.status and not any(m[2] == 'CRITICAL' for m in ms):
        out.append(f'{prog} ended with {r.status} without a word')
    out += looks(f'{prog} at {level}', I, ms, shown, STYLES['default'], DATES[None])
    return out, f'{len(got)} {r.status}', 1


def looks(who, I, ms, shown, form, datefmt):
    if len(ms) != len(shown):
        return [f'{who}: {len(ms)} messages, {len(shown)} lines']
    for m, (_, text) in zip(ms, shown):
        if text not in {x + '\n' for x in shapes(m, I, form, datefmt, m[0])}:
            return [f'{who}: {m} is shown as {text!r}, not {sorted(shapes(m, I, form, datefmt, m[0]))[1]!r}']
    return []


def form_case(case):
    """Style, format and date format, from the environment or the configuration file; the format given wins over the style."""
    style, form, date, where = case
    env, text = {'HYPERSHELL_LOGGING_LEVEL': 'TRACE'}, ''
    for k, v in (('style', style), ('format', form), ('datefmt', date)):
        if v is None:
            continue
        if where == 'env' or where == 'mixed' and k != 'style':
            env['HYPERSHELL_LOGGING_' + k.upper()] = v
        else:
            text += f'{k} = {v!r}\n'
    tag = f'{style}-{list(FORMATS).index(form) if form else None}-{date and "date"}-{where}'
    site = f'site-p33-{tag}'
    d = os.path.join(inst.scratch(), site)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'config.toml'), 'w') as f:
        f.write('[logging]\n' + text)
    I = get_inst('p33-' + tag, env=env, host=HOST, site=site)
    want = FORMATS[form] if form else STYLES[(style or 'default').lower()]
    r, ms, shown = talk(I, 'cluster')
    out = looks(f'{tag}', I, ms, shown, want, DATES[date])
    if r.status != 0:
        out.append(f'{tag}: ended with {r.status} {r.error!r}')
    if len(ms) < 20:
        out.append(f'{tag}: only {len(ms)} messages')
    return out, tag, 1


ELAPSED = tuple(x + d for x in (0, 1, 59, 60, 3599, 3600, 86399, 86400, 86401, 90061, 863999, 864000, 100 * 86400) for d in (0, .001, .25, .5, .999))


def elapsed_case(case):
    """The time since the start of the program."""
    I = copy({'HYPERSHELL_LOGGING_LEVEL': 'INFO', 'HYPERSHELL_LOGGING_FORMAT': '%(elapsed_hms)s|%(elapsed_ms)d|%(elapsed)f|%(elapsed_delta)s'}, 'elapsed')
    import datetime
    got = []

    def main():
        w = sched.WORLD
        fakes.v_sleep(case)
        I.core_logging.Logger.with_name('hypershell.client').info('here')
        got.append((w.messages[-1][0], w.shown[-1][1]))
        return 0
    try:
        r = program.run(I, main, prepare=lambda w: messages.attach(w, [I]), real_std=True, horizon=200 * 86400)
    finally:
        messages.detach()
    if not got:
        return [f'{case}: {r.status} {r.error!r}'], '', 1
    t = got[0][0] - EPOCH
    a, b, c, d = got[0][1].rstrip('\n').split('|')
    out = []
    ok = {(hms(x), int(x * 1000 + 1e-6)) for x in (t, t - .001, t + .001)}
    if a not in {x[0] for x in ok} or int(b) not in {x[1] for x in ok} or abs(float(c) - t) > .0011:
        out.append(f'after {t:.4f} s: {a} {b} {c}')
    if not any(d == str(datetime.timedelta(seconds=t + k / 1e6)) for k in range(-1100, 1100)):
        out.append(f'after {t:.4f} s: {d}')
    return out, a, 1


WRONG = {
    'level': ('"verbose"', '""', '10', 'true', '["info"]', '"warn"', '" info"', '"NOTSET"'),
    'style': ('"fancy"', '""', '3', 'false', '"default "', '["default"]'),
    'format': ('"hello"', '5', '"%(message)"', '["%(message)s"]', '"%"'),
}


def wrong_case(case):
    """A setting that cannot be right stops every program at once: status 3, a message and the traceback in a file."""
    name, value, where = case
    tag = f'{name}-{WRONG[name].index(value)}-{where}'
    site = f'site-p33w-{tag}'
    d = os.path.join(inst.scratch(), site)
    os.makedirs(d, exist_ok=True)
    env = {'HYPERSHELL_LOGGING_LEVEL': None}
    if where == 'env':
        env[f'HYPERSHELL_LOGGING_{name.upper()}'] = value.strip('"')
    else:
        with open(os.path.join(d, 'config.toml'), 'w') as f:
            f.write(f'[logging]\n{name} = {value}\n')
    import io
    import sys
    err, sys.stderr = sys.stderr, io.StringIO()
    out = []
    end = 'started'
    try:
        I = inst.Inst('p33w', env=env, site=site)
        messages.setup_of(I)
    except SystemExit as e:
        end = e.code
    except Exception as e:      # noqa
        end = repr(e)
    finally:
        text = sys.stderr.getvalue()
        sys.stderr = err
    files = glob.glob(os.path.join(d, '**', 'exception-*'), recursive=True)
    if end != 3:
        out.append(f'logging.{name} = {value} ({where}): {end}')
    elif 'CRITICAL' not in text or len(files) != 1 or 'Traceback' not in open(files[0]).read() or files[0] not in text:
        out.append(f'logging.{name} = {value} ({where}): {text!r} {files}')
    return out, str(end), 1


def run_case(case):
    return {'level': level_case, 'form': form_case, 'elapsed': elapsed_case, 'wrong': wrong_case}[case[0]](case[1] if len(case) == 2 else case[1:])


def cases(tier):
    C = [('level', l, p) for p in PROGRAMS for l in (None,) + LEVELS + ('info', 'Debug')]
    forms = [(s, None) for s in (None, 'Default', *STYLES)] + [(s, f) for f in FORMATS for s in (None, 'system')]
    C += [('form', s, f, d, w) for s, f in forms for d in DATES for w in ('env', 'file', 'mixed') if w != 'mixed' or s and f]
    C += [('elapsed', x) for x in ELAPSED]
    C += [('wrong', n, v, w) for n in WRONG for v in WRONG[n] for w in ('env', 'file') if w == 'file' or v.startswith('"') or n != 'format']
    return C


def make(tier):
    deep = tier == 'thorough'
    S = []
    T = ('a', 'b', 'c', 'd')
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo', 'rr')
    plan = {'b': {'duration': 2.0, 'status': 1}}
    one = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART)]
    two = [dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=HEART), dict(num_tasks=2, bundlesize=2, bundlewait=2, heartrate=HEART, at=3.0)]
    base = dict(policies=pol, horizon=140, starve=False)
    # what is said
    S.append(Told('told', T, dict(bundlesize=2, bundlewait=1), two, plan, offers=('delay',), loud={'HYPERSHELL_LOGGING_LEVEL': 'INFO'}, policies=('fifo', 'rr', 'lifo'), horizon=140))
    S.append(Told('told-retries', T[:3], dict(bundlesize=2, bundlewait=1, max_retries=1), one, {'b': 1, ('c', 1): 7}, offers=('delay',), loud={'HYPERSHELL_LOGGING_LEVEL': 'TRACE'}, policies=pol, horizon=140))
    S.append(Told('told-nodb', T[:3], dict(bundlesize=2, bundlewait=1, in_memory=True), one, {'b': 3}, offers=('delay',), db=False, policies=pol, horizon=140))
    S.append(Told('told-broken', T[:3], dict(bundlesize=2, bundlewait=1), [dict(one[0])], {'b': OSError(2, 'No such file')}, broken=1, offers=('delay',), policies=pol, horizon=140))
    S.append(Told('told-template', ('1', 'x', '3'), dict(bundlesize=2, bundlewait=1), [dict(one[0], template='echo {= 1/int(x) =}')], {}, broken=1, offers=('delay',), policies=pol, horizon=140))
    env = {'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}
    quiet = {'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL'}
    for n, more in (('local', []), ('remote', ['--launcher', 'srun']), ('scaling', ['--autoscaling', 'fixed', '-X', '1', '-P', '3', '--launcher', 'launch'])):
        for what in ('none', 'db', 'kill'):
            if (n, what) != ('local', 'kill'):
                S.append(SpeakingCluster(f'words-{n}-{what}', what, ['FILE', '-N1', '-b2', '-w1', *more], env=env, plan=plan, offers=(), policies=pol, loud=quiet, verdict=cluster_told, who='all', horizon=120))
    # standard error breaks
    for last in (True, False):
        tag = 'for-ever' if last else 'once'
        S.append(Speech(f'server-{tag}', 'log', T, dict(bundlesize=2, bundlewait=1), one, plan, lasting=last, loud={'HYPERSHELL_LOGGING_LEVEL': 'TRACE'} if deep else None, **base))
        S.append(Speech(f'server-retries-{tag}', 'log', T[:3], dict(bundlesize=1, bundlewait=1, max_retries=1), one, {'b': 1, ('c', 1): 1}, lasting=last, **base))
        S.append(Speech(f'server-nodb-{tag}', 'log', T, dict(bundlesize=2, bundlewait=1, in_memory=True), one, plan, lasting=last, db=False, again=False, **base))
        S.append(Speech(f'server-warning-{tag}', 'log', T, dict(bundlesize=2, bundlewait=1), two, {'a': 1, 'c': 1}, lasting=last, loud={'HYPERSHELL_LOGGING_LEVEL': 'WARNING'}, **base))
        S.append(Speech(f'server-open-{tag}', 'log', T, dict(bundlesize=1, bundlewait=1), one, plan, feed=(0, 2, 60, 60), lasting=last, policies=('fifo',), starve=False, horizon=300))
        S.append(Speech(f'client-{tag}', 'log', T, dict(bundlesize=1, bundlewait=1, evict_after=10), two, plan, who='client1', lasting=last, again=False, **base))
        S.append(Speech(f'client-app-{tag}', 'log', T, dict(bundlesize=1, bundlewait=1, evict_after=10), two, plan, who='client1', lasting=last, again=False, app=True, **base))
        S.append(SpeakingCluster(f'cluster-{tag}', 'log', ['FILE', '-N1', '-b2', '-w1'], env={'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}, plan=plan, offers=(), policies=pol, lasting=last))
        S.append(SpeakingCluster(f'cluster-nodb-{tag}', 'log', ['FILE', '-N1', '-b2', '-w1', '--no-db'], env={'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}, plan=plan, offers=(), policies=pol, lasting=last, db=False))
        S.append(SpeakingCluster(f'remote-{tag}', 'log', ['FILE', '-N1', '-b2', '-w1', '--launcher', 'srun'], env={'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}, plan=plan, offers=(), policies=pol, lasting=last))
        S.append(SpeakingCluster(f'scaling-{tag}', 'log', ['FILE', '-N1', '-b2', '-w1', '--autoscaling', 'fixed', '-X', '1', '-P', '3', '--launcher', 'launch'],
                                 env={'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}, plan=plan, offers=(), policies=pol, horizon=120, lasting=last))
    # messages cannot be formatted
    for level in LEVELS[2:]:
        loud = {'HYPERSHELL_LOGGING_LEVEL': level}
        F = dict(base, policies=('fifo', 'rr', 'lifo'))
        for n, clients in (('one', one), ('two', two)):
            S.append(Speech(f'format-server-{n}-{level}', 'format', T, dict(bundlesize=2, bundlewait=1), clients, {'c': 1}, loud=loud, **F))
        S.append(Speech(f'format-server-nodb-{level}', 'format', T, dict(bundlesize=2, bundlewait=1, in_memory=True), one, {'c': 1}, loud=loud, db=False, again=False, **F))
        S.append(Speech(f'format-client-{level}', 'format', T, dict(bundlesize=1, bundlewait=1, evict_after=10), two, {'c': 1}, who='client1', loud=loud, again=False, **F))
        for n, more in (('local', []), ('remote', ['--launcher', 'srun']), ('scaling', ['--autoscaling', 'fixed', '-X', '1', '-P', '3', '--launcher', 'launch'])):
            S.append(SpeakingCluster(f'format-{n}-{level}', 'format', ['FILE', '-N1', '-b2', '-w1', *more], env={'HYPERSHELL_CLIENT_HEARTRATE': str(HEART)}, plan={'c': 1}, offers=(),
                                     policies=('fifo', 'rr', 'lifo'), loud=loud, horizon=120))
    return Check('P33', S, cases(tier), run_case)
