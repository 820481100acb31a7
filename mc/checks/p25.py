"""P25: every cluster mode starts its clients with the requested settings; host patterns denote exactly their hosts."""
import itertools
import os
import re
import shlex
import signal
import sqlite3
import subprocess
import sys
import time

import fakes
import inst
import program
import sched
from explore import Check, get_inst
from clusters import Cluster, died
from fleet import runs
from spy import Enough, watch
from sched import EPOCH

# ------------------------------------------------------------------------------------------ what is asked for
MODES = ('local', 'launcher', 'mpi', 'ssh', 'hosts', 'auto')
REMOTE = MODES[1:]
WILD = "it's {} \"$HOME\" `x` $(y) \\ ;|&<>* #!~ %\t(end)"
CONFIG = {'SERVER_BUNDLESIZE': '3', 'SERVER_ATTEMPTS': '4', 'SERVER_EAGER': 'true', 'SERVER_PORT': '50009', 'SERVER_EVICT': '77', 'SUBMIT_BUNDLEWAIT': '8',
          'SUBMIT_BUNDLESIZE': '6', 'CLIENT_BUNDLESIZE': '7', 'CLIENT_BUNDLEWAIT': '9', 'CLIENT_TIMEOUT': '66', 'CLIENT_HEARTRATE': '4', 'TASK_TIMEOUT': '55', 'TASK_SIGNALWAIT': '3',
          'AUTOSCALE_POLICY': 'dynamic', 'AUTOSCALE_FACTOR': '2.5', 'AUTOSCALE_PERIOD': '7', 'AUTOSCALE_SIZE_INIT': '3', 'AUTOSCALE_SIZE_MIN': '2', 'AUTOSCALE_SIZE_MAX': '5',
          'SSH_ARGS': "-i 'a key' -v"}
DEFAULTS = {
    'plain': {'bundlesize': 1, 'bundlewait': 5, 'retries': 0, 'eager': False, 'port': 50001, 'evict': 600, 'timeout': None, 'walltime': None, 'signalwait': 10, 'heartrate': 10,
              'policy': 'fixed', 'factor': 1, 'period': 60, 'init': 1, 'min': 0, 'max': 2, 'ssh_args': []},
    'set': {'bundlesize': 3, 'bundlewait': 8, 'retries': 3, 'eager': True, 'port': 50009, 'evict': 77, 'timeout': 66, 'walltime': 55, 'signalwait': 3, 'heartrate': 4,
            'policy': 'dynamic', 'factor': 2.5, 'period': 7, 'init': 3, 'min': 2, 'max': 5, 'ssh_args': ['-i', 'a key', '-v']},
}
COMMON = {'tasks': 1, 'template': '{}', 'delay': 0, 'no_db': False, 'no_confirm': False, 'forever': False, 'restart': False, 'capture': False, 'failures': None, 'output': None,
          'errors': None, 'exe': None, 'env': False}

# option name: [(arguments, settings)]; the first is "not given"
OPTIONS = {
    'tasks': [((), {}), (('-N', '3'), {'tasks': 3}), (('--num-tasks=12',), {'tasks': 12})],
    'template': [((), {}), (('-t', WILD), {'template': WILD}), (('--template', '{/-} x'), {'template': '{/-} x'})],
    'bundlesize': [((), {}), (('-b', '4'), {'bundlesize': 4}), (('--bundlesize', '100'), {'bundlesize': 100})],
    'bundlewait': [((), {}), (('-w', '2'), {'bundlewait': 2}), (('--bundlewait', '20'), {'bundlewait': 20})],
    'delay': [((), {}), (('-d', '2.5'), {'delay': 2.5}), (('--delay-start=-30',), {'delay': -30})],
    'retries': [((), {}), (('-r', '2'), {'retries': 2}), (('--max-retries', '0'), {'retries': 0})],
    'eager': [((), {}), (('--eager',), {'eager': True})],
    'source': [((), {}), (('--no-db',), {'no_db': True}), (('--forever',), {'forever': True}), (('--restart',), {'restart': True}), (('--initdb',), {})],
    'confirm': [((), {}), (('--no-confirm',), {'no_confirm': True})],
    'port': [((), {}), (('-p', '50004'), {'port': 50004})],
    'capture': [((), {}), (('-c',), {'capture': True}), (('--capture',), {'capture': True})],
    'failures': [((), {}), (('-f', 'FAILED'), {'failures': 'FAILED'})],
    'timeout': [((), {}), (('-T', '30'), {'timeout': 30})],
    'walltime': [((), {}), (('-W', '40'), {'walltime': 40})],
    'signalwait': [((), {}), (('-S', '6'), {'signalwait': 6})],
}
LOCAL = {'output': [((), {}), (('-o', 'OUT'), {'output': 'OUT'})], 'errors': [((), {}), (('-e', 'ERR'), {'errors': 'ERR'})]}
FAR = {'exe': [((), {}), (('--remote-exe', '/opt/x/hs'), {'exe': '/opt/x/hs'})]}
SSH = {'args': [((), {}), (("--ssh-args=-o 'A B' -4",), {'ssh_args': ['-o', 'A B', '-4']}), (('--ssh-args', '-i ~/.ssh/key'), {'ssh_args': ['-i', '~/.ssh/key']})], 'env': [((), {}), (('-E',), {'env': True}), (('--env',), {'env': True})]}
AUTO = {'policy': [(('-A',), {}), (('-A', 'dynamic'), {'policy': 'dynamic'}), (('--autoscaling=fixed',), {'policy': 'fixed'})],
        'factor': [((), {}), (('-F', '0.5'), {'factor': 0.5})], 'period': [((), {}), (('-P', '9'), {'period': 9})],
        'init': [((), {}), (('-I', '2'), {'init': 2})], 'min': [((), {}), (('-X', '1'), {'min': 1})], 'max': [((), {}), (('-Y', '6'), {'max': 6})]}
LAUNCHER = "srun -n 2 --tag='x y'"
HOSTS = {'ssh': ['node1'], 'hosts': ['n1.a', 'n2.a', 'n10.a', 'm']}
START = {'local': (), 'launcher': ('--launcher', LAUNCHER), 'mpi': ('--mpi',), 'ssh': ('--ssh', 'node1'), 'hosts': ('--ssh', 'n[1-2,10].a,m'), 'auto': ('--launcher', LAUNCHER)}
ODD = {'HYPERSHELL_EXPORT_ODD': "it's $HOME `x` \"q\" \\ ;&|*  two\nlines", 'HYPERSHELL_EXPORT_EMPTY': '', 'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL'}


def options_of(mode):
    return {**OPTIONS, **(LOCAL if mode == 'local' else FAR), **(SSH if mode in HOSTS else {}), **(AUTO if mode == 'auto' else {})}


def refused(mode, want):
    if mode == 'auto' and want['no_db']:
        return True
    return want['capture'] and (want['output'] or want['errors'])


# ------------------------------------------------------------------------------------------ what it does
DUMP = """#!/bin/sh
for x in "$@"; do printf '%s\\0' "$x"; done
printf '\\1'
exec env -0
"""


def remote_shell(words, exe):
    """What a login shell on the other side makes of the words of the command: (arguments of the program, its environment)."""
    d = os.path.join(inst.scratch(), 'far')
    p = os.path.join(d, exe.lstrip('/'))
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p):
        with open(p, 'w') as f:
            f.write(DUMP)
        os.chmod(p, 0o755)
    i = [k for k, x in enumerate(words) if x == exe]
    if not i:
        return None, None
    words = words[:i[0]] + [p] + words[i[0] + 1:]
    for attempt in range(3):        # NOTE: a machine at its limits cannot start programs for a while
        r = subprocess.run(['sh', '-c', ' '.join(words)], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={'PATH': '/usr/bin:/bin', 'HOME': d, 'PWD': d}, cwd=d)
        if r.returncode == 0:
            break
        time.sleep(attempt)
    args, _, env = r.stdout.partition(b'\1')
    if r.returncode:
        return None, None
    return [x.decode() for x in args.split(b'\0')[:-1]], dict(x.decode().split('=', 1) for x in env.split(b'\0') if x)


def name_of(stream):
    return None if stream is None else getattr(stream, 'name', '?')


def start_case(case):
    """conf ('plain' or 'set'), mode, {option: choice}."""
    conf, mode, chosen = case
    d = inst.scratch()
    S = get_inst(f'cluster-{conf}', env={f'HYPERSHELL_{k}': v for k, v in CONFIG.items()} if conf == 'set' else {})
    S.reset()
    inst.fresh_db(S)
    want = {**COMMON, **DEFAULTS[conf]}
    argv = list(START[mode])
    opts = options_of(mode)
    for name, k in chosen:
        a, w = opts[name][k]
        argv += [os.path.join(d, x) if x in ('FAILED', 'OUT', 'ERR') else x for x in a]
        want.update({n: os.path.join(d, v) if v in ('FAILED', 'OUT', 'ERR') else v for n, v in w.items()})
    if mode == 'auto' and 'policy' not in dict(chosen):
        argv += ['-A']
    if not (want['restart'] or want['forever']):
        path = os.path.join(d, 'none.in')
        open(path, 'w').close()
        argv = [path] + argv
    elif want['forever']:
        argv = [os.devnull] + argv
    servers, clients, scalers, launched = [], [], [], []
    undo = [watch(S.server.ServerThread, servers), watch(S.client.ClientThread, clients), watch(S.cluster_remote.AutoScalerThread, scalers)]

    def behaviour(args, env, proc):
        launched.append((list(args), env))
        return fakes.Script(None)
    keep = dict(os.environ)
    for k in list(os.environ):
        if k.startswith('HYPERSHELL'):
            del os.environ[k]
    os.environ.update(ODD)
    try:
        r = program.run(S, lambda: S.cluster.ClusterApp.main(list(argv)), horizon=6.5, behaviour=behaviour, signals=True, real_std=True)
        hostname = S.core_logging.HOSTNAME
    finally:
        for u in undo:
            u()
        os.environ.clear()
        os.environ.update(keep)
    text = ' '.join(argv)
    if refused(mode, want):
        if r.status != 2 or servers or launched:
            return [f'{text}: contradictory options were accepted ({r.status})'], 'refused', 1
        return [], 'refused', 1
    out = []
    if r.error is not None or not r.stuck and r.status != 0:
        out.append(f'it ended with {r.status} {r.error}')
    if len(servers) != 1:
        return [f'{text}: {len(servers)} servers were started, {out}'], 'x', 1
    s = servers[0]

    def same(what, got, exp):
        if got != exp or type(got) is bool and type(exp) is not bool:
            out.append(f'{what} is {got!r} instead of {exp!r}')
    same('server: bundle size', s['bundlesize'], want['bundlesize'])
    same('server: bundle wait', s['bundlewait'], want['bundlewait'])
    same('server: retries', s['max_retries'], want['retries'])
    same('server: eager', bool(s['eager']), want['eager'])
    same('server: in memory', bool(s['in_memory']), want['no_db'])
    same('server: forever', bool(s['forever_mode']), want['forever'] or mode == 'auto')
    if mode != 'auto':
        same('server: no confirmation', bool(s['no_confirm']), want['no_confirm'])
        same('server: restart', bool(s['restart_mode']), want['restart'])
    same('server: failures', name_of(s['redirect_failures']), want['failures'])
    same('server: evict', s['evict_after'], want['evict'])
    same('server: port', s['address'][1], want['port'])
    auth = s['auth']
    if not isinstance(auth, str) or len(auth) < 32 or auth == S.core_queue.QueueConfig.auth:
        out.append(f'the secret is {auth!r}')
    if mode == 'local':
        if launched:
            out.append(f'launched {launched}')
        far = clients
        same('clients', len(far), 1)
        host = s['address'][0]
        for c in far:
            same('client: heart rate', c['heartrate'], want['heartrate'])
            same('client: output', name_of(c['redirect_output']) if want['output'] else None, want['output'])
            same('client: errors', name_of(c['redirect_errors']) if want['errors'] else None, want['errors'])
    else:
        if clients:
            out.append('a client is run within the cluster')
        if s['address'][0] not in ('0.0.0.0', ''):
            out.append(f"the server listens on {s['address'][0]}")
        far = []
        host = hostname
        exe = want['exe'] or sys.argv[0]
        n = {'auto': want['init']}.get(mode, len(HOSTS.get(mode, 'x')))
        same('launched', len(launched), n)
        hosts = []
        for args, env in launched:
            args = list(map(str, args))
            head = {'launcher': shlex.split(LAUNCHER), 'auto': shlex.split(LAUNCHER), 'mpi': ['mpirun']}.get(mode, ['ssh', *want['ssh_args']])
            same('launcher', args[:len(head)], head)
            args = args[len(head):]
            if mode in HOSTS:
                hosts.append(args[0])
                args, renv = remote_shell(args[1:], exe)
                if args is None:
                    out.append('the remote command does not start the program')
                    continue
                sent = {k: v for k, v in renv.items() if k.startswith('HYPERSHELL')}
                same('environment', sent, ODD if want['env'] else {})
            else:
                same('program', args[0], exe)
                args = args[1:]
            same('command', args[:1], ['client'])
            got = []
            C = get_inst('far', db=None, site='site-far')
            C.reset()
            stop = watch(C.client.ClientThread, got, Enough())
            try:
                e = program.run(C, lambda: C.client.ClientApp.main(args[1:]), horizon=5)
            finally:
                stop()
            if len(got) != 1:
                out.append(f'the client did not accept {args}: {e.status} {e.error} {e.err}')
            far += got
        if mode in HOSTS:
            same('hosts', hosts, HOSTS[mode])
        if mode == 'auto':
            same('scalers', len(scalers), 1)
            for a in scalers:
                same('policy', a['policy'].lower(), want['policy'])
                for k, n in (('factor', 'factor'), ('period', 'period'), ('init_size', 'init'), ('min_size', 'min'), ('max_size', 'max')):
                    same(k, a[k], want[n])
    for c in far:
        same('client: executors', c['num_tasks'], want['tasks'])
        same('client: template', c['template'], want['template'])
        same('client: bundle size', c['bundlesize'], want['bundlesize'])
        same('client: bundle wait', c['bundlewait'], want['bundlewait'])
        same('client: delay', c['delay_start'], want['delay'])
        same('client: timeout', c['client_timeout'], want['timeout'])
        same('client: task timeout', c['task_timeout'], want['walltime'])
        same('client: signal wait', c['task_signalwait'], want['signalwait'])
        same('client: capture', bool(c['capture']), want['capture'])
        if mode != 'auto':
            same('client: no confirmation', bool(c['no_confirm']), want['no_confirm'])
        same('client: secret', c['auth'], auth)
        same('client: address', tuple(c['address']), (host, want['port']))
    return [f'{text}: {x}' for x in out[:4]], f'{len(far)} {sorted(want.items(), key=str)}', 1


def database_case(case):
    """mode, arguments, state of the database ('ready', 'absent', 'none'): whether it starts, and what becomes of the database."""
    mode, extra, database = case
    d = inst.scratch()
    S = get_inst('cluster-plain' if database != 'none' else 'cluster-without', env={}, **({'db': None, 'site': 'site-without'} if database == 'none' else {}))
    S.reset()
    path = S.dbpath
    if path:
        inst.fresh_db(S)
        if database == 'absent':
            os.unlink(path)
        else:
            with sqlite3.connect(path) as c:
                c.execute('create table mine (x)')
                c.execute("insert into mine values ('kept')")
            c.close()

    def content():
        if path is None or not os.path.exists(path):
            return None
        with open(path, 'rb') as f:
            return f.read()
    before = content()
    for n in ('FAILED', 'OUT'):
        with open(os.path.join(d, n), 'w') as f:
            f.write('before')
    argv = [os.path.join(d, x) if x in ('FAILED', 'OUT') else x for x in (*START[mode], *extra)]
    if mode == 'auto':
        argv += ['-A']
    if '--restart' not in argv:
        argv = [os.devnull] + argv
    servers, launched = [], []
    undo = watch(S.server.ServerThread, servers)

    def behaviour(args, env, proc):
        launched.append(list(args))
        return fakes.Script(None)
    try:
        r = program.run(S, lambda: S.cluster.ClusterApp.main(list(argv)), horizon=6.5, behaviour=behaviour, signals=True, real_std=True)
    finally:
        undo()
    no_db = '--no-db' in argv
    status = None
    if no_db and ('--restart' in argv or '--forever' in argv or mode == 'auto') or '-o' in argv and (mode != 'local' or '-c' in argv) or no_db and '--initdb' in argv or '--forever' in argv and '--restart' in argv:
        status = 2
    elif database == 'none' and not no_db and ('--restart' in argv or '--forever' in argv or mode == 'auto'):
        status = 3
    text = f"{' '.join(argv)} (database {database})"
    out = []
    if status is not None:
        if r.status != status or r.error is not None:
            out.append(f'{text}: ended with {r.status} {r.error!r} instead of {status}')
        if servers or launched:
            out.append(f'{text}: it was started')
        for n in ('FAILED', 'OUT'):
            with open(os.path.join(d, n)) as f:
                if f.read() != 'before':
                    out.append(f'{text}: refused, but {n} was written')
        if status == 2 and content() != before:
            out.append(f'{text}: refused, but the database was changed')
    else:
        if len(servers) != 1:
            out.append(f'{text}: not started: {r.status} {r.error!r}')
        elif r.error is not None or not r.stuck and r.status != 0:
            out.append(f'{text}: ended with {r.status} {r.error!r}')
        if no_db and content() != before:
            out.append(f'{text}: the database was changed')
        if not no_db and path:
            names = {x['name'] for x in inst.rows(path, 'sqlite_master', 'name')}
            if 'task' not in names or database == 'ready' and inst.rows(path, 'mine') != [{'x': 'kept'}]:
                out.append(f'{text}: the database has {sorted(names)}')
    return out, f'{status} {database} {no_db}', 1


# ------------------------------------------------------------------------------------------ host patterns
def numbers(spec):
    """[4,06-8] without brackets."""
    out = []
    for g in spec.split(','):
        a, dash, b = g.partition('-')
        if not dash:
            out.append(g)
            continue
        lo, hi = sorted((int(a), int(b)))
        for i in range(lo, hi + 1):
            x = str(i)
            while a[0] == '0' and len(x) < len(a):
                x = '0' + x
            out.append(x)
    return out


def hosts_of(groups):
    """groups: tuple of (tuple of (text or ('r', spec)))."""
    out = []
    for g in groups:
        parts = [numbers(p[1]) if isinstance(p, tuple) else [p] for p in g]
        out += [''.join(x) for x in itertools.product(*parts)]
    return out


def pattern_of(groups):
    return ','.join(''.join(f'[{p[1]}]' if isinstance(p, tuple) else p for p in g) for g in groups)


CONFIG_FORMS = {
    'text': ('[ssh]\nnodelist = "a[1-2],b"\n', None, ['a1', 'a2', 'b']),
    'text-one': ('[ssh]\nnodelist = "a"\n', None, ['a']),
    'list': ('[ssh]\nnodelist = ["a", "b-1", "c"]\n', None, ['a', 'b-1', 'c']),
    'group-list': ('[ssh.nodelist]\none = ["a", "b"]\ntwo = "c[08-10]"\n', 'one', ['a', 'b']),
    'group-text': ('[ssh.nodelist]\none = ["a", "b"]\ntwo = "c[08-10]"\n', 'two', ['c08', 'c09', 'c10']),
    'group-missing': ('[ssh.nodelist]\none = ["a", "b"]\n', 'two', None),
    'group-not-named': ('[ssh.nodelist]\none = ["a", "b"]\n', None, None),
    'group-of-text': ('[ssh]\nnodelist = "a[1-2],b"\n', 'one', None),
    'group-number': ('[ssh.nodelist]\none = 5\n', 'one', None),
    'number': ('[ssh]\nnodelist = 5\n', None, None),
    'empty': ('', 'one', None),
}


def nodes_case(case):
    L = []
    S = get_inst('cluster-plain', env={})
    S.reset()
    out = []
    for groups in case[0]:
        text = pattern_of(groups)
        want = hosts_of(groups)
        for fn in ('from_pattern', 'from_cmdline'):
            try:
                got = list(getattr(S.cluster_ssh.NodeList, fn)(text))
            except Exception as e:      # noqa
                got = f'{type(e).__name__}: {e}'
            if got != want:
                out.append(f'{fn}({text!r}) is {got} instead of {want}')
            L.append(text)
    return out[:3], set(L), len(L)


def nodelist_case(case):
    text, group, want = CONFIG_FORMS[case[0]]
    path = os.path.join(inst.scratch(), f'nodes-{case[0]}.toml')
    with open(path, 'w') as f:
        f.write(text)
    S = get_inst(f'nodes-{case[0]}', env={'HYPERSHELL_CONFIG_FILE': path})
    S.reset()
    inst.fresh_db(S)
    launched = []

    def behaviour(args, env, proc):
        launched.append(args[1])
        return fakes.Script(None)
    r = program.run(S, lambda: S.cluster.ClusterApp.main([os.devnull, '--ssh', *(() if group is None else ('--ssh-group', group))]), horizon=6.5, behaviour=behaviour, signals=True, real_std=True)
    if want is None:
        bad = launched or r.stuck or r.status == 0
    else:
        bad = launched != want
    return [f'configuration {text!r}, group {group}: started {launched}, ended with {r.status} instead of {want}'] if bad else [], f'{case} {launched}', 1


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for conf in ('plain', 'set'):
        for mode in MODES:
            opts = options_of(mode)
            names = list(opts)
            seen = set()
            for a, b in itertools.combinations(names, 2):
                for i in range(len(opts[a])):
                    for j in range(len(opts[b])):
                        c = tuple((n, k) for n, k in ((a, i), (b, j)) if k or n == 'policy')
                        if c not in seen:
                            seen.add(c)
                            L.append(('start', conf, mode, c))
            full = tuple((n, 1) for n in names if n not in ('source', 'output', 'errors'))
            L.append(('start', conf, mode, full))
            if deep or conf == 'plain' and mode in ('local', 'launcher', 'ssh'):
                for abc in itertools.combinations(names, 3):
                    for k in itertools.product(*[range(1, len(opts[n])) for n in abc]):
                        L.append(('start', conf, mode, tuple(zip(abc, k))))
    extras = [x + y for x in ((), ('--no-db',), ('--forever',), ('--restart',), ('--initdb',), ('--no-db', '--initdb'), ('--forever', '--restart'), ('--no-db', '--forever'), ('--no-db', '--restart'))
              for y in ((), ('-f', 'FAILED'), ('-o', 'OUT'), ('-o', 'OUT', '-c', '-f', 'FAILED'))]
    L += [('database', mode, x, db) for mode in MODES for x in extras for db in ('ready', 'absent', 'none')]
    words = ['a', 'n-', '.x', '']
    ranges = [('r', s) for s in ('1-3', '08-11', '3-1', '4,6-8', '5', '09,1-2', '000-2', '0-2', '99-101', '7-7', '1-2,1-2')]
    groups = [(w,) for w in words if w]
    groups += [(w, r, v) for w in words for r in ranges for v in words]
    groups += [(w, r, v, q, u) for w in words for r in ranges for v in words for q in ranges for u in (words if deep else words[2:])]
    L += [('nodes', tuple((g,) for g in groups[i:i + 40])) for i in range(0, len(groups), 40)]
    few = [('a',), ('b', ranges[0]), ('n-', ranges[1], '.x'), ('c', ranges[3], 'd', ranges[0], 'e'), (ranges[7], 'z')]
    combos = list(itertools.product(few, repeat=2)) + list(itertools.product(few, repeat=3))
    L += [('nodes', tuple(combos[i:i + 40])) for i in range(0, len(combos), 40)]
    L += [('nodelist', k) for k in CONFIG_FORMS]
    return L


def run_case(case):
    return {'start': start_case, 'database': database_case, 'nodes': nodes_case, 'nodelist': nodelist_case}[case[0]](case[1:])


# ------------------------------------------------------------------------------------------ whole clusters
def oracle(scn, w, reason):
    if reason != 'until':
        return [f'the cluster does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    out = []
    if w.cluster.exit != ('ok', 0):
        out.append(f'the cluster ended with {w.cluster.exit}: {died(w)}')
    if scn.db:
        for r in scn.rows():
            if r['exit_status'] != 0:
                out.append(f"{r['args']} has {r['exit_status']}")
    want = sorted(f'do {x}' for x in scn.tasks)
    got = sorted(r.command if isinstance(r.command, str) else ' '.join(r.command) for r in runs(w))
    if got != want:
        out.append(f'ran {got} instead of {want}')
    if len(runs(w)) != len(scn.tasks):
        out.append(f'{len(runs(w))} tasks were run instead of {len(scn.tasks)}')
    if len(w.launched) != scn.launches:
        out.append(f'{len(w.launched)} clients were launched instead of {scn.launches}')
    for p in scn.clients(w):
        if p.exit != ('ok', 0):
            out.append(f'{p.name} ended with {p.exit}')
    return out[:4]


class Whole(Cluster):
    """The cluster program with everything it launches, to its end."""

    def __init__(self, name, argv, launches, **kw):
        self.launches = launches
        super().__init__(name, [*argv, '-t', 'do {}', 'FILE'], oracle=oracle, **kw)

    def client_args(self, args):
        if args[0] == 'ssh':
            args = shlex.split(' '.join(args[2:]))
        return args[args.index('client') + 1:]


def scenarios(tier):
    deep = tier == 'thorough'
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')
    kw = dict(policies=pol, starve=deep)
    return [
        Whole('local', ['-N', '2'], 0, tasks='abc', **kw),
        Whole('local-nodb', ['-N', '1', '--no-db', '-b', '2'], 0, tasks='abc', db=False, **kw),
        Whole('launcher', ['--launcher', 'launch', '-N', '2'], 1, tasks='abc', **kw),
        Whole('mpi', ['--mpi', '-b', '2'], 1, tasks='abc', **kw),
        Whole('ssh', ['--ssh', 'h[1-2]', '-N', '1'], 2, tasks='abc', **kw),
        Whole('ssh-no-confirm', ['--ssh', 'h', '--no-confirm', '--no-db'], 1, tasks='ab', db=False, **kw),
    ]


def make(tier):
    return Check('P25', scenarios(tier), cases=cases(tier), run_case=run_case, rule='')
