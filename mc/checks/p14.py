"""P14: each task sees its own environment and its output goes to its own files."""
import itertools
import os
import shutil
import uuid

import inst
from bench import ClientBench, client_ended, client_ids, returned_once
from explore import Check, get_inst
from fleet import CLIENT_LINES, runs
from sched import EPOCH

#: exported through HYPERSHELL_EXPORT_<name>
EXPORT = {'FOO': 'value', 'EMPTY': '', 'NUMBER': '12', 'VERSION': '1.10', 'PADDED': '007', 'EXP': '1e3', 'BOOL': 'true', 'BIGBOOL': 'TRUE',
          'NULL': 'null', 'TWO_PARTS': 'x y', 'TWO_PARTS_MORE': 'deep', 'FOO_SUB': 'under', 'QUOTE': '"\'$HOME`', 'UNICODE': 'é—☃', 'MINUS': '-0',
          'HEX': '0x10', 'UNDER': '1_000', 'PATHLIKE': '/a:/b', 'INF': 'inf', 'SPACES': '  pad  ', 'NL': 'a\nb'}
#: the same from a configuration file: {name in the file: value}
FILE = '[export]\nlisted = ["/some/bin", "/some/other/bin"]\nplain = "text"\nfoo = "overridden by the environment"\n'
FROM_FILE = {'LISTED': '/some/bin:/some/other/bin', 'PLAIN': 'text'}
TAGS = [{}, {'site': 'us-west-1'}, {'n': 3}, {'f': 1.5}, {'on': True, 'off': False}, {'none': None}, {'empty': ''}, {'u_v': 'a+b', 'W': '-x.y_'},
        {'id': 'not-the-id'}, {'a': 1, 'b': 'two', 'c': 2.5}]
FIELDS = {'id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host',
          'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried', 'waited', 'duration',
          'previous_id', 'next_id'}
ALWAYS = ('id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host',
          'command', 'start_time', 'attempt', 'previous_id', 'waited')


def shown(v):
    """A typed value as text in an environment variable (None: no particular text)."""
    return 'true' if v is True else 'false' if v is False else str(v)


class Envs(ClientBench):
    """mode: '' (standard streams), 'capture' or 'redirect'."""

    def __init__(self, name, count=4, n=2, b=1, mode='', tags=(), export=False, template=None, lines=None, **k):
        self.mode, self.export, self.template = mode, export, template
        lines = list(lines or [f'task {i}' for i in range(count)])
        plan = {x: {'status': i % 2, 'duration': 0.4 + 0.7 * (i % 3), 'out': f'out of {i}\n'.encode() * (i + 1), 'err': f'err of {i}\n'.encode()}
                for i, x in enumerate(lines)}
        client = dict(num_tasks=n, bundlesize=b, bundlewait=1)
        if mode == 'capture':
            client['capture'] = True
        if template:
            client['template'] = template
        self.output = {x: (p['out'].decode(), p['err'].decode()) for x, p in plan.items()}
        k.setdefault('horizon', 200.0)
        super().__init__(name, [(0, lines[i:i + b]) for i in range(0, len(lines), b)], client, plan, oracle=oracle,
                         tags={x: tags[i % len(tags)] for i, x in enumerate(lines)} if tags else None,
                         attempts={x: i + 1 for i, x in enumerate(lines)}, **k)

    def describe(self):
        return f'output {self.mode or "standard"} tags {self.tags} clients {self.clients[0].get("num_tasks")}/{self.clients[0].get("bundlesize")}'

    def C(self, i):
        if self.export:
            site = os.path.join(inst.scratch(), 'site-export')
            os.makedirs(site, exist_ok=True)
            with open(os.path.join(site, 'config.toml'), 'w') as f:
                f.write(FILE)
            return get_inst('client1-export', env={'HYPERSHELL_EXPORT_' + k: v for k, v in EXPORT.items()}, db=None, site='site-export')
        return super().C(i)

    def giving(self, tasks):
        for t in tasks:
            t.server_id, t.server_host = self.S.instance, 'the-server'
            if t.attempt > 1:
                t.previous_id = str(uuid.UUID(int=self.count))
                self.count += 1

    def execute(self, *a, **k):
        keep = dict(os.environ)
        self.count = 1
        os.environ.update({'SURROUNDING': 'kept', 'TASK_ID': 'outer', 'TASK_ARGS': 'outer', 'FOO': 'outer'})
        if self.export:
            os.environ.update({'HYPERSHELL_EXPORT_' + x: v for x, v in EXPORT.items()})
        self.environ = dict(os.environ)
        self.dir = os.path.join(self.C(0).core_platform.default_path.lib, 'task')
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        try:
            return super().execute(*a, **k)
        finally:
            os.environ.clear()
            os.environ.update(keep)

    def setup(self):
        super().setup()
        if self.mode == 'redirect':
            self.paths = [os.path.join(inst.scratch(), 'redirect.' + x) for x in ('out', 'err')]
            self.clients[0].update(redirect_output=open(self.paths[0], 'w'), redirect_errors=open(self.paths[1], 'w'))


def read(path):
    with open(path, 'rb') as f:
        return f.read().decode()


def oracle(scn, w, reason):
    out = []
    if not client_ended(w, reason, out):
        return out
    ret = {t['id']: t for _, _, t, _ in returned_once(w, out)}
    rs = runs(w)
    given = {t['id']: t for _, b in w.given for t in b}
    if sorted(r.id or '?' for r in rs) != sorted(given):
        out.append(f'processes have the ids {[r.id for r in rs]}, given {list(given)}')
        return out
    files = set()
    for r in rs:
        t, g, env = ret.get(r.id), given[r.id], dict(r.env)
        if t is None:
            continue
        who = f"task {g['args']!r}"
        # -- environment
        want = {'TASK_' + f.upper(): shown(t[f]) for f in ALWAYS if t[f] is not None}
        want.update({'TASK_TAG_' + k.upper(): shown(v) for k, v in g['tag'].items() if v is not None})
        want['TASK_CWD'] = str(scn.C(0).core_config.config.task.cwd)
        lib = scn.C(0).core_platform.default_path.lib
        want['TASK_OUTPATH'], want['TASK_ERRPATH'] = (os.path.join(lib, 'task', f'{r.id}.{x}') for x in ('out', 'err'))
        if scn.export:
            want.update(FROM_FILE)
            want.update(EXPORT)
        for k, v in scn.environ.items():
            want.setdefault(k, v)
        for k, v in want.items():
            if k not in env:
                out.append(f'{who}: {k} is not in its environment')
            elif env[k] != v:
                out.append(f'{who}: {k} is {env[k]!r}, expected {v!r}')
        known = set(scn.environ) | set(want) | {'TASK_' + f.upper() for f in FIELDS} | {'TASK_TAG_' + k.upper() for k in g['tag']}
        if set(env) - known:
            out.append(f'{who}: unexpected variables {sorted(set(env) - known)}')
        if r.args != g['args'] or r.attempt != g['attempt'] or g['args'] != t['args'] or t['tag'] != g['tag']:
            out.append(f"{who}: ran as {r.args!r} attempt {r.attempt} and was returned as {t['args']!r} with tags {t['tag']}")
        if r.popen.cwd is not None and os.path.realpath(r.popen.cwd) != os.path.realpath(want['TASK_CWD']):
            out.append(f'{who}: runs in {r.popen.cwd}')
        # -- output
        if scn.mode == 'capture':
            for f, v, x in (('outpath', 'TASK_OUTPATH', 0), ('errpath', 'TASK_ERRPATH', 1)):
                p = t[f]
                if not p or p != env.get(v):
                    out.append(f'{who}: {f} is {p!r} and {v} is {env.get(v)!r}')
                    continue
                if p in files:
                    out.append(f'{who}: {f} is shared with another task')
                files.add(p)
                if not os.path.isfile(p) or read(p) != scn.output[r.args][x]:
                    out.append(f"{who}: {f} has {read(p) if os.path.isfile(p) else 'no file'!r}")
        elif t['outpath'] or t['errpath']:
            out.append(f"{who}: recorded {t['outpath']} {t['errpath']} without capture")
    have = {os.path.join(scn.dir, f) for f in os.listdir(scn.dir)}
    if have != files:
        out.append(f'files {sorted(have ^ files)} unexpected or missing')
    for x, (std, pre) in enumerate(zip(scn.std, ('out', 'err'))):
        if scn.mode == 'redirect':
            expect(read(scn.paths[x]), [scn.output[r.args][x] for r in rs], 'redirected ' + pre, out)
        expect(read(std), [scn.output[r.args][x] for r in rs] if not scn.mode else [], 'standard ' + pre, out)
    return out


def expect(text, parts, name, out):
    if sorted(text.splitlines()) != sorted(''.join(parts).splitlines()):
        out.append(f'{name} has {text!r}, expected {parts}')


LINES = ['echo a', "x='1 2'", '{', '$HOME', 'é ☃', '20240101', '7', 'true', 'null', 'a=b', '-n', 'x\ty', '"q"']


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for x in LINES:
        for tag in (TAGS if deep else TAGS[:6:5]):
            L.append((x, tag, False, 'echo {}'))
    for tag in TAGS:
        for t2 in TAGS:
            L.append(('two', tag, t2, None))
    for mode in ('', 'capture', 'redirect'):
        L.append(('export', {'k': 1}, mode, None))
    return L


def run_case(case):
    x, tag, other, template = case
    if x == 'export':
        scn = Envs('case', 2, 2, 1, other, [tag], True)
    elif template is None:
        scn = Envs('case', 2, 1, 2, '', [tag, other])
    else:
        scn = Envs('case', n=1, tags=[tag], lines=[x], template=template)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    for mode in ('', 'capture', 'redirect'):
        for n, b, c in ((2, 1, 4), (2, 2, 4), (3, 3, 6)) if not deep else ((1, 1, 3), (2, 1, 4), (2, 2, 4), (3, 1, 5), (3, 3, 6), (4, 2, 6)):
            S.append(Envs(f'{mode or "std"}-x{n}b{b}', c, n, b, mode, TAGS[1:4], offers=('delay', 'stall:1.5') if deep else ('delay',), depth=1))
        S.append(Envs(f'{mode or "std"}-pairs', 3, 2, 1, mode, TAGS[1:3], offers=('delay',), depth=2, window=30 if deep else 6,
                      policies=('fifo', 'lifo')))
        S.append(Envs(f'{mode or "std"}-late', 3, 2, 1, mode, TAGS[4:7], offers=('stall:3',), depth=1, policies=('fifo', 'lifo')))
    # every statement of the client is a point
    for mode in ('', 'capture'):
        S.append(Envs(f'lines-{mode or "std"}', 3, 3 if deep else 2, 1, mode, TAGS[1:4], offers=('delay', 'stall:1.5') if deep else ('delay',), fine=CLIENT_LINES,
                      policies=('fifo', 'rr', 'lifo') if deep or mode else ('fifo',)))
    for mode in ('', 'capture'):
        for sec in (0.6, 1.5, 4) if deep else (1.5,):
            S.append(Envs(f'held-up-{mode or "std"}-{sec}', 3, 2, 1, mode, TAGS[1:4], offers=(f'stall:{sec}@executor-1',), fine=CLIENT_LINES if deep else ('client', 'core.template'),
                          policies=('fifo', 'rr') if deep else ('fifo',)))
    return Check('P14', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: task lines, pairs of tag sets of every type, exported variables with every kind of value and output modes, each run '
                 'through the real client. Scenarios: complete executions of several executors under the controlled scheduler with every single '
                 'alternative at every point (pairs within a window).')
