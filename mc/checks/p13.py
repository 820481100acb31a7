"""P13: a task that cannot be started is reported as failed and harms no other task."""
import errno
import itertools
import os
import shutil
import sys

import inst
from bench import ClientBench, client_ended, client_ids, returned_once
from explore import Check, get_inst
from fleet import Fleet, chains, ends, runs
from sched import EPOCH

BIG = 'x' * 140000
#: kind: (text of the task, what starting it raises, capture file in the way, client environment, template)
KINDS = {
    'template': ('zzz', None, None, None, '{=int(x)=}'),
    'null': ('no\0good', None, None, None, None),
    'long': (BIG, None, None, None, None),
    'surrogate': ('a\ud800b', None, None, None, None),
    'fork': ('b', BlockingIOError(errno.EAGAIN, 'Resource temporarily unavailable'), None, None, None),
    'nomem': ('b', MemoryError(), None, None, None),
    'denied': ('b', PermissionError(errno.EACCES, 'Permission denied', '/bin/sh'), None, None, None),
    'nocwd': ('b', FileNotFoundError(errno.ENOENT, 'No such file or directory', '/gone'), None, None, None),
    'outfile': ('b', None, 'out', None, None),
    'errfile': ('b', None, 'err', None, None),
    'taskdir': ('b', None, 'dir', None, None),
    'cwd': ('b', None, None, {'HYPERSHELL_TASK_CWD': '/nonexistent/place'}, None),
}
ALL_FAIL = ('taskdir', 'cwd')        # no task can start


class Failing(ClientBench):
    """Tasks at the positions `bad` of `count` cannot be started."""

    def __init__(self, name, kind, bad, count=4, n=1, b=1, capture=False, redirect=False, stat=None, **k):
        text, exc, self.block, self.env, template = KINDS[kind]
        self.kind, self.bad, self.capture, self.redirect = kind, set(bad), capture or self.block is not None, redirect
        lines, plan, self.want = [], {}, {}
        for i in range(count):
            if i in self.bad:
                x = text + (str(i) if exc is None and kind not in ('template',) else '-' + str(i))
                if exc is not None:
                    plan[x] = exc
            else:
                x = str(i)
                st = (stat or {}).get(i, i % 2 * 3)
                plan[x] = {'status': st, 'out': f'out {i}\n'.encode(), 'err': f'err {i}\n'.encode(), 'duration': 0.6 + 0.5 * (i % 3)}
                self.want[x] = st
            lines.append(x)
        self.bads = [x for i, x in enumerate(lines) if i in self.bad]
        if kind in ALL_FAIL:
            self.bads, self.want = list(lines), {}
        client = dict(num_tasks=n, bundlesize=b, bundlewait=1)
        if self.capture:
            client['capture'] = True
        if template:
            client['template'] = template
        bundles = [(0, lines[i:i + b]) for i in range(0, count, b)]
        k.setdefault('horizon', 200.0)
        super().__init__(name, bundles, client, plan, oracle=oracle, **k)

    def describe(self):
        return f'start failure {self.kind} at {sorted(self.bad)} capture {self.capture} clients {self.clients}'[:400]

    def C(self, i):
        if self.env:
            return get_inst('client1-cwd', env=self.env, db=None, site='site-client1')
        return super().C(i)

    def setup(self):
        super().setup()
        self.dir = os.path.join(self.C(0).core_platform.default_path.lib, 'task')
        self.clean()
        if self.block == 'dir':
            with open(self.dir, 'w'):
                pass
        else:
            os.makedirs(self.dir, exist_ok=True)
        if self.redirect:
            self.paths = [os.path.join(inst.scratch(), 'redirect.' + x) for x in ('out', 'err')]
            self.clients[0].update(redirect_output=open(self.paths[0], 'w'), redirect_errors=open(self.paths[1], 'w'))

    def clean(self):
        if os.path.isfile(self.dir):
            os.remove(self.dir)
        shutil.rmtree(self.dir, ignore_errors=True)

    def execute(self, *a, **k):
        try:
            return super().execute(*a, **k)
        finally:
            self.clean()
            os.makedirs(self.dir)

    def giving(self, tasks):
        if self.block in ('out', 'err'):
            for t in tasks:
                if t.args in self.bads:
                    os.makedirs(os.path.join(self.dir, f'{t.id}.{self.block}'), exist_ok=True)

    def read(self, path):
        with open(path, 'rb') as f:
            return f.read().decode()


def recorded(t, who, out):
    """The record of a task that could not be started."""
    if t['exit_status'] is None or t['exit_status'] == 0:
        out.append(f"{who} could not be started and has the exit status {t['exit_status']}")
    for f in ('start_time', 'completion_time'):
        if t[f] is None:
            out.append(f'{who} could not be started and has no {f}')
    if t['start_time'] and t['completion_time'] and str(t['start_time']) > str(t['completion_time']):
        out.append(f'{who} completed before it started')


def oracle(scn, w, reason):
    out = []
    if not client_ended(w, reason, out):
        return out
    given = [t['id'] for _, b in w.given for t in b]
    if sorted(client_ids(w)) != sorted(given) or len(given) != len(scn.bads) + len(scn.want):
        out.append(f'given {given}, taken {client_ids(w)}')
    ret = {t['id']: t for _, _, t, _ in returned_once(w, out)}
    rs = {r.args: r for r in runs(w)}
    if sorted(r.args for r in runs(w)) != sorted(scn.want):
        out.append(f'processes: {[r.args[:20] for r in runs(w)]}, expected {sorted(scn.want)}')
        return out
    for _, b in w.given:
        for g in b:
            t, x = ret.get(g['id']), g['args']
            if t is None:
                continue
            who = f'task {x[:20]!r}'
            if t['args'] != x:
                out.append(f"{who} was returned as {t['args'][:40]!r}")
            if x in scn.want:
                if t['exit_status'] != scn.want[x]:
                    out.append(f"{who} ended with {scn.want[x]} and was returned with {t['exit_status']}")
                if t['completion_time'] is None or t['start_time'] is None:
                    out.append(f'{who} has no times')
                if scn.capture:
                    i = x
                    for f, pre in (('outpath', 'out'), ('errpath', 'err')):
                        if not t[f]:
                            out.append(f'{who} has no {f}')
                        elif scn.read(t[f]) != f'{pre} {i}\n':
                            out.append(f'{who}: captured {scn.read(t[f])!r} in {f}')
            else:
                recorded(t, who, out)
    for p, s, pre in zip(scn.paths if scn.redirect else scn.std, scn.std, ('out', 'err')):
        want = [f'{pre} {x}' for x in sorted(scn.want)] if not scn.capture else []
        got = sorted(scn.read(p).splitlines())
        if got != want:
            out.append(f'{pre}: has {got}, expected {want}')
    out += [f'standard {pre} was closed' for f, pre in zip((sys.stdout, sys.stderr), ('output', 'errors')) if f.closed]
    return out


class Run(Fleet):
    """The same through a whole run with a database and retries."""

    def __init__(self, name, kind, retries, **k):
        text, exc, _, _, template = KINDS[kind]
        self.badline = text
        tasks = ['0', text, '2']
        plan = {text: exc} if exc is not None else {}
        plan['2'] = {'status': 4}
        c = dict(num_tasks=2, bundlesize=2, bundlewait=1)
        if template:
            c['template'] = template
        super().__init__(name, tasks, dict(bundlesize=2, bundlewait=1, max_retries=retries), [c], plan, oracle=run_oracle, **k)
        self.retries = retries

    def describe(self):
        return f'run {self.name} retries {self.retries}'


def run_oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    rows = scn.rows()
    for x, n in (('0', 1), (scn.badline, scn.retries + 1), ('2', scn.retries + 1)):
        mine = [r for r in rows if r['args'] == x]
        if len(mine) != n:
            out.append(f'task {x[:20]!r} has {len(mine)} records, expected {n}')
        for r in mine:
            if x == scn.badline:
                recorded(r, f'task {x[:20]!r} attempt {r["attempt"]}', out)
            elif r['exit_status'] != (0 if x == '0' else 4):
                out.append(f"task {x!r} has the exit status {r['exit_status']}")
    if len(rows) != 1 + 2 * (scn.retries + 1):
        out.append(f'{len(rows)} records')
    out += chains(rows)
    return out


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for kind in KINDS:
        for bad in ([0], [1], [3], [0, 1], [1, 2], [2, 3], [0, 1, 2, 3]) + (([0, 2], [1, 3], [0, 3], [1, 2, 3], [0, 1, 2]) if deep else ()) \
                if kind not in ALL_FAIL else ([],):
            for n, b in ((1, 1), (1, 2), (2, 1), (2, 4)) + (((3, 1), (3, 2), (2, 3)) if deep else ()):
                for mode in ('plain', 'capture', 'redirect'):
                    if KINDS[kind][2] and mode != 'capture':
                        continue
                    for pol in ('fifo', 'lifo') if not deep else ('fifo', 'rr', 'lifo'):
                        L.append((kind, tuple(bad), n, b, mode, pol))
    return L


def run_case(case):
    kind, bad, n, b, mode, pol = case
    scn = Failing('case', kind, bad, n=n, b=b, capture=mode == 'capture', redirect=mode == 'redirect')
    r = scn.execute(pol, {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    for kind in KINDS:
        for n, b, bad, cap in ((1, 1, [1], False), (2, 2, [1, 2], True)):
            S.append(Failing(f'{kind}-x{n}', kind, bad if kind not in ALL_FAIL else [], n=n, b=b, capture=cap, offers=('delay', 'stall:1.5') if deep else ('delay',), depth=1))
    S.append(Failing('redirected', 'fork', [1], n=2, b=2, redirect=True, offers=('delay', 'stall:1.5'), depth=1))
    S.append(Failing('redirected-template', 'template', [0, 3], n=2, b=2, redirect=True, offers=('delay',), depth=1))
    for kind in ('template', 'null', 'long', 'fork'):
        S.append(Run(f'run-{kind}', kind, 1, offers=('delay',), depth=1 if deep else 0))
    return Check('P13', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every kind of start failure x positions x executors and bundle sizes x output mode through the real client. '
                 'Scenarios: complete executions under the controlled scheduler with every single alternative at every scheduling point.')
