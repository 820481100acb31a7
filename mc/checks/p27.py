"""P27: server, client and submit do what their command line and configuration ask for."""
import itertools
import json
import os
import sys

import inst
import program
from clusters import Cluster, died
from explore import Check, get_inst
from fleet import runs
from spy import Enough, standard, watch

WILD = "it's {} \"$HOME\" `x` $(y) \\ ;|&<>* #!~ %\t(end)"
PROGRAMS = ('server', 'client', 'submit')
CONFIG = {'SERVER_BIND': '10.1.2.3', 'SERVER_PORT': '50009', 'SERVER_AUTH': 'secret two', 'SERVER_BUNDLESIZE': '3', 'SERVER_ATTEMPTS': '4', 'SERVER_EAGER': 'true', 'SERVER_EVICT': '77',
          'SUBMIT_BUNDLEWAIT': '8', 'SUBMIT_BUNDLESIZE': '6', 'CLIENT_BUNDLESIZE': '7', 'CLIENT_BUNDLEWAIT': '9', 'CLIENT_TIMEOUT': '66', 'CLIENT_HEARTRATE': '4', 'TASK_TIMEOUT': '55', 'TASK_SIGNALWAIT': '3'}
DEFAULTS = {
    'plain': {'server': {'host': 'localhost', 'port': 50001, 'auth': None, 'bundlesize': 1, 'bundlewait': 5, 'retries': 0, 'eager': False, 'evict': 600},
              'client': {'host': 'localhost', 'port': 50001, 'auth': None, 'bundlesize': 1, 'bundlewait': 5, 'timeout': None, 'walltime': None, 'signalwait': 10, 'heartrate': 10},
              'submit': {'bundlesize': 1, 'bundlewait': 5}},
    'set': {'server': {'host': '10.1.2.3', 'port': 50009, 'auth': 'secret two', 'bundlesize': 3, 'bundlewait': 8, 'retries': 3, 'eager': True, 'evict': 77},
            'client': {'host': '10.1.2.3', 'port': 50009, 'auth': 'secret two', 'bundlesize': 7, 'bundlewait': 9, 'timeout': 66, 'walltime': 55, 'signalwait': 3, 'heartrate': 4},
            'submit': {'bundlesize': 6, 'bundlewait': 8}},
}
COMMON = {'server': {'source': '<stdin>', 'no_db': False, 'initdb': False, 'forever': False, 'restart': False, 'confirm': True, 'failures': None},
          'client': {'tasks': 1, 'template': '{}', 'delay': 0, 'confirm': True, 'output': '<stdout>', 'errors': '<stderr>', 'capture': False},
          'submit': {'source': '<stdin>', 'template': '{}', 'tags': {}, 'initdb': False}}
# program: option: [(arguments, settings)]; the first is "not given"
OPTIONS = {
    'server': {
        'source': [((), {}), (('FILE',), {'source': 'FILE'}), (('-',), {'source': '<stdin>'})],
        'mode': [((), {}), (('--forever',), {'forever': True}), (('--restart',), {'restart': True})],
        'bundlesize': [((), {}), (('-b', '4'), {'bundlesize': 4}), (('--bundlesize=100',), {'bundlesize': 100})],
        'bundlewait': [((), {}), (('-w', '2'), {'bundlewait': 2}), (('--bundlewait', '20'), {'bundlewait': 20})],
        'retries': [((), {}), (('-r', '2'), {'retries': 2}), (('--max-retries', '0'), {'retries': 0})],
        'eager': [((), {}), (('--eager',), {'eager': True})],
        'host': [((), {}), (('-H', '0.0.0.0'), {'host': '0.0.0.0'}), (('--bind', '::1'), {'host': '::1'})],
        'port': [((), {}), (('-p', '50004'), {'port': 50004}), (('--port=1024',), {'port': 1024})],
        'auth': [((), {}), (('-k', 'k e y'), {'auth': 'k e y'}), (('--auth', '%$"\''), {'auth': '%$"\''})],
        'nodb': [((), {}), (('--no-db',), {'no_db': True})],
        'initdb': [((), {}), (('--initdb',), {'initdb': True})],
        'confirm': [((), {}), (('--no-confirm',), {'confirm': False})],
        'print': [((), {}), (('--print',), {'failures': '<stdout>'})],
        'failures': [((), {}), (('-f', 'FAILED'), {'failures': 'FAILED'}), (('--failures', '-'), {'failures': '<stdout>'})],
    },
    'client': {
        'tasks': [((), {}), (('-N', '3'), {'tasks': 3}), (('--num-tasks=12',), {'tasks': 12})],
        'host': [((), {}), (('-H', 'head.node'), {'host': 'head.node'}), (('--host', '::1'), {'host': '::1'})],
        'port': [((), {}), (('-p', '50004'), {'port': 50004}), (('--port=1024',), {'port': 1024})],
        'auth': [((), {}), (('-k', 'k e y'), {'auth': 'k e y'}), (('--auth', '%$"\''), {'auth': '%$"\''})],
        'template': [((), {}), (('-t', WILD), {'template': WILD}), (('--template', '{/-} x'), {'template': '{/-} x'})],
        'bundlesize': [((), {}), (('-b', '4'), {'bundlesize': 4}), (('--bundlesize', '100'), {'bundlesize': 100})],
        'bundlewait': [((), {}), (('-w', '2'), {'bundlewait': 2}), (('--bundlewait', '20'), {'bundlewait': 20})],
        'delay': [((), {}), (('-d', '2.5'), {'delay': 2.5}), (('--delay-start=-30',), {'delay': -30})],
        'confirm': [((), {}), (('--no-confirm',), {'confirm': False})],
        'output': [((), {}), (('-o', 'OUT'), {'output': 'OUT'}), (('--output=OUT',), {'output': 'OUT'})],
        'errors': [((), {}), (('-e', 'ERR'), {'errors': 'ERR'}), (('--errors=ERR',), {'errors': 'ERR'})],
        'capture': [((), {}), (('-c',), {'capture': True}), (('--capture',), {'capture': True})],
        'timeout': [((), {}), (('-T', '30'), {'timeout': 30}), (('--timeout=1',), {'timeout': 1}), (('-T', '0'), {'timeout': 0}), (('-T=-5',), {'timeout': -5})],
        'walltime': [((), {}), (('-W', '40'), {'walltime': 40}), (('--task-timeout=1',), {'walltime': 1}), (('-W', '0'), {'walltime': 0}), (('-W=-5',), {'walltime': -5})],
        'signalwait': [((), {}), (('-S', '6'), {'signalwait': 6}), (('--signalwait=7',), {'signalwait': 7})],
    },
    'submit': {
        'source': [((), {}), (('FILE',), {'source': 'FILE'}), (('-',), {'source': '<stdin>'})],
        'bundlesize': [((), {}), (('-b', '2'), {'bundlesize': 2}), (('--bundlesize', '100'), {'bundlesize': 100})],
        'bundlewait': [((), {}), (('-w', '2'), {'bundlewait': 2}), (('--bundlewait=20',), {'bundlewait': 20})],
        'template': [((), {}), (('-t', WILD), {'template': WILD}), (('--template', 'x {}'), {'template': 'x {}'})],
        'tags': [((), {}), (('--tag', 'one', 'two:x'), {'tags': {'one': '', 'two': 'x'}}), (('--tag', 'k:v'), {'tags': {'k': 'v'}})],
        'initdb': [((), {}), (('--initdb',), {'initdb': True})],
    },
}
PATHS = ('FILE', 'FAILED', 'OUT', 'ERR')
LINES = {'FILE': ['a', 'b c'], '<stdin>': ['d', 'e', 'f']}
DATABASES = ('ready', 'absent', 'none')


def refused(prog, want, names):
    if prog == 'server':
        return (want['forever'] and want['source'] == 'FILE' or want['forever'] and 'source' in names or want['no_db'] and (want['forever'] or want['restart'] or want['initdb'])
                or {'print', 'failures'} <= set(names))
    if prog == 'client':
        return want['capture'] and (want['output'] != '<stdout>' or want['errors'] != '<stderr>') or any(want[k] is not None and want[k] <= 0 for k in ('timeout', 'walltime'))
    return False


def copy_of(conf, database):
    kw = {'db': None, 'site': 'site-none'} if database == 'none' else {}
    return get_inst(f'options-{conf}-{database}', env={f'HYPERSHELL_{k}': v for k, v in CONFIG.items()} if conf == 'set' else {}, **kw)


OLD = {'id': 'old-task', 'args': 'old', 'submit_id': 'x', 'submit_time': '2020-01-01 00:00:00.000000', 'tag': '{}', 'attempt': 1, 'retried': 0}


def database_state(S, database):
    """Prepare it; returns its path or None."""
    if database == 'none':
        return None
    inst.fresh_db(S)
    if database == 'absent':
        os.unlink(S.dbpath)
    return S.dbpath


def content(path):
    if path is None or not os.path.exists(path):
        return None
    with open(path, 'rb') as f:
        return f.read()


def options_case(case):
    conf, prog, database, chosen = case
    d = inst.scratch()
    S = copy_of(conf, database)
    S.reset()
    path = database_state(S, database)
    before = content(path)
    for n in PATHS:
        with open(os.path.join(d, n), 'w') as f:
            f.write(''.join(x + '\n' for x in LINES['FILE']) if n == 'FILE' else 'before')
    want = {**COMMON[prog], **DEFAULTS[conf][prog]}
    argv, tail = [], []
    place = lambda x: os.path.join(d, x) if x in PATHS else x.replace('=OUT', f'={d}/OUT').replace('=ERR', f'={d}/ERR')     # noqa
    for name, k in chosen:
        a, s = OPTIONS[prog][name][k]
        (argv if name == 'source' else tail).extend(place(x) for x in a)
        want.update(s)
    argv = [x.replace('-T=', '--timeout=').replace('-W=', '--task-timeout=') for x in argv + tail]
    if not argv:
        argv = ['-b', str(want['bundlesize'])]      # a command without arguments shows its usage
    seen = []
    cls, Thread = {'server': (S.server, 'ServerThread'), 'client': (S.client, 'ClientThread'), 'submit': (S.submit, 'SubmitThread')}[prog]

    def note(args):
        a = dict(args)
        for k in ('redirect_failures', 'redirect_output', 'redirect_errors'):
            if k in a:
                a[k] = standard(a[k])
        if prog == 'server':
            a['source'] = None if a['source'] is None else [x.rstrip('\n') for x in a['source']]
        return a
    undo = watch(getattr(cls, Thread), seen, None if prog == 'submit' else Enough(), note)
    try:
        r = program.run(S, lambda: S.mods['hypershell'].HyperShellApp.main([prog, *argv]), horizon=60, stdin=''.join(x + '\n' for x in LINES['<stdin>']))
    finally:
        undo()
    text = f"{prog} {' '.join(argv)} (configuration {conf}, database {database})"
    names = [n for n, k in chosen if k]
    needs = prog == 'submit' or prog == 'server' and not want['no_db']
    if refused(prog, want, names) or needs and database == 'none':
        status = 2 if refused(prog, want, names) else 3
        out = []
        if r.status != status or r.error is not None or r.stuck:
            out.append(f'{text}: ended with {r.status} {r.error!r} instead of {status}')
        if seen:
            out.append(f'{text}: it was started')
        if content(path) != before:
            out.append(f'{text}: the database was changed')
        if status == 2 and any(content(os.path.join(d, n)) != b'before' for n in PATHS if n != 'FILE'):
            out.append(f'{text}: refused, but a file was written')
        return out, f'{prog} {status}', 1
    out = []

    def same(what, got, exp):
        if got != exp or isinstance(exp, bool) and type(got) is not bool:
            out.append(f'{what} is {got!r} instead of {exp!r}')
    if len(seen) != 1:
        return [f'{text}: {len(seen)} were started; {r.status} {r.error!r} {r.err[-300:]}'], 'x', 1
    s = seen[0]
    if prog != 'submit' and not isinstance(r.error, Enough):
        out.append(f'ended with {r.status} {r.error!r}')
    if prog in ('server', 'client'):
        same('address', tuple(s['address']), (want['host'], want['port']))
        if want['auth'] is not None:
            same('secret', s['auth'], want['auth'])
        same('bundle size', s['bundlesize'], want['bundlesize'])
        same('confirmation', bool(s['no_confirm']), not want['confirm'])
    if prog == 'server':
        if not want['forever']:
            same('bundle wait', s['bundlewait'], want['bundlewait'])
        same('retries', s['max_retries'], want['retries'])
        same('eager', bool(s['eager']), want['eager'])
        same('in memory', bool(s['in_memory']), want['no_db'])
        same('forever', bool(s['forever_mode']), want['forever'])
        same('restart', bool(s['restart_mode']), want['restart'])
        same('evict', s['evict_after'], want['evict'])
        fail = want['failures']
        same('failures', s['redirect_failures'], os.path.join(d, fail) if fail == 'FAILED' else fail)
        same('tasks', s['source'] or None, None if want['forever'] or want['restart'] else LINES[want['source']])
        if want['no_db']:
            same('database', content(path), before)
        elif content(path) is None:
            out.append('the database was not made')
    elif prog == 'client':
        for k, n in (('num_tasks', 'tasks'), ('template', 'template'), ('bundlewait', 'bundlewait'), ('delay_start', 'delay'), ('heartrate', 'heartrate'), ('client_timeout', 'timeout'),
                     ('task_timeout', 'walltime'), ('task_signalwait', 'signalwait')):
            same(n, s[k], want[n])
        same('capture', bool(s['capture']), want['capture'])
        if not want['capture']:
            for k, n, f in (('redirect_output', 'output', 'OUT'), ('redirect_errors', 'errors', 'ERR')):
                same(n, s[k], os.path.join(d, f) if want[n] == f else want[n])
        same('database', content(path), before)
    else:
        if r.status != 0:
            out.append(f'ended with {r.status} {r.error!r}')
        same('bundle size', s['bundlesize'], want['bundlesize'])
        same('bundle wait', s['bundlewait'], want['bundlewait'])
        rows = inst.rows(S.dbpath)
        same('tasks', [x['args'] for x in rows], [want['template'].replace('{}', x) for x in LINES[want['source']]])
        for x in rows:
            tag = json.loads(x['tag'])
            same('tags', {k: v for k, v in tag.items() if k not in ('part',)}, want['tags'])
    return [f'{text}: {x}' for x in out[:4]], f'{prog} {sorted(want.items(), key=str)}', 1


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for conf in ('plain', 'set'):
        for prog in PROGRAMS:
            opts = OPTIONS[prog]
            names = list(opts)
            for database in DATABASES if prog != 'client' else ('ready', 'none'):
                if conf == 'set' and database != 'ready':
                    continue
                seen = set()
                for n in (1, 2, 3) if deep or database == 'ready' and conf == 'plain' else (1, 2):
                    for group in itertools.combinations(names, n):
                        for ks in itertools.product(*[range(1 if n == 3 else 0, len(opts[g]) if n < 3 else min(len(opts[g]), 3 if deep else 2)) for g in group]):
                            c = tuple((g, k) for g, k in zip(group, ks) if k)
                            if c not in seen:
                                seen.add(c)
                                L.append(('options', conf, prog, database, c))
                full = tuple((n, 1) for n in names if n not in ('mode', 'initdb', 'failures', 'capture'))
                L.append(('options', conf, prog, database, full))
    return L


def run_case(case):
    return {'options': options_case}[case[0]](case[1:])


# ------------------------------------------------------------------------------------------ without the database
def remember(scn):
    import sqlite3
    c = sqlite3.connect(scn.S.dbpath)
    cols = [r[1] for r in c.execute('pragma table_info(task)')]
    row = {k: v for k, v in OLD.items() if k in cols}
    c.execute(f"insert into task ({', '.join(row)}) values ({', '.join('?' * len(row))})", list(row.values()))
    c.commit()
    c.close()
    scn.before = content(scn.S.dbpath)


def oracle(scn, w, reason):
    if reason != 'until':
        return [f'it does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    out = []
    if w.cluster.exit != ('ok', 0):
        out.append(f'it ended with {w.cluster.exit}: {died(w)}')
    if content(scn.S.dbpath) != scn.before:
        out.append(f'the database was changed: {inst.rows(scn.S.dbpath)}')
    got = sorted(r.command if isinstance(r.command, str) else ' '.join(r.command) for r in runs(w))
    if got != sorted(scn.tasks):
        out.append(f'ran {got} instead of {scn.tasks}')
    return out


def scenarios(tier):
    deep = tier == 'thorough'
    kw = dict(policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo'), starve=deep, oracle=oracle, prepare=remember)
    plan = {'b': 1}
    return [Cluster('no-db', ['FILE', '--no-db', '-N', '2'], tasks='abc', plan=plan, **kw),
            Cluster('no-db-launcher', ['FILE', '--no-db', '--launcher', 'launch', '-b', '2', '-r', '2'], tasks='abc', plan=plan, **kw),
            Cluster('no-db-no-confirm', ['FILE', '--no-db', '--no-confirm', '-f', '/dev/null'], tasks='ab', plan=plan, **kw)]


def make(tier):
    return Check('P27', scenarios(tier), cases=cases(tier), run_case=run_case, rule='')
