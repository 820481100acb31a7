"""P18: the failure stream receives exactly the failed attempts."""
import io
import itertools
import os
import sys

import inst
from explore import Check
from fleet import ALL_LINES, Fleet, ends, runs
from checks.p17 import failures, returned


class Failures(Fleet):
    """app: '' = serve_from with a stream; else the options given to the server command."""

    def __init__(self, name, tasks, plan, server=None, clients=({},), memory=False, app='', **k):
        kw = dict(bundlesize=1, bundlewait=1)
        kw.update(server or {})
        if memory:
            kw['in_memory'] = True
        self.memory, self.app = memory, app
        super().__init__(name, tasks, kw, [dict(dict(bundlesize=1, bundlewait=1), **c) for c in clients], plan, db=not memory or memory == 'configured',
                         oracle=oracle, main=Failures.run_app if app else None, **k)

    def describe(self):
        return (f'lines {self.tasks} plan {self.plan} server { {k: v for k, v in self.server.items() if k != "redirect_failures"} } clients {self.clients} '
                f'options {self.app}')

    def setup(self):
        super().setup()
        d = inst.scratch()
        self.path = os.path.join(d, 'failures.txt')
        self.input = os.path.join(d, 'input.txt')
        if os.path.exists(self.path):
            os.remove(self.path)
        with open(self.input, 'w') as f:
            f.writelines(x + '\n' for x in self.tasks)
        if not self.app:
            self.server['redirect_failures'] = self.stream = io.StringIO()

    def execute(self, *a, **k):
        old = sys.stdout
        self.stdout = os.path.join(inst.scratch(), 'stdout.txt')
        sys.stdout = open(self.stdout, 'w')
        try:
            return super().execute(*a, **k)
        finally:
            sys.stdout.close()
            sys.stdout = old

    def run_app(self, w):
        s = self.server
        argv = [self.input, '-b', str(s['bundlesize']), '-w', str(s['bundlewait'])]
        if s.get('max_retries'):
            argv += ['-r', str(s['max_retries'])]
        argv += [self.path if x == 'PATH' else x for x in self.app.split()]
        if self.memory:
            argv.append('--no-db')
        w.status = self.S.server.ServerApp.main(argv)

    def outcome(self, w, reason):
        return f'{reason} ' + ','.join(f"{t['args']}:{t['attempt']}:{t['exit_status']}" for t in returned(w))

    def text(self):
        if not self.app:
            return self.stream.getvalue()
        to_file = 'PATH' in self.app
        if not to_file and not sys.stdout.closed:
            sys.stdout.flush()
        with open(self.path if to_file else self.stdout) as f:
            return f.read()


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    if scn.app:
        if getattr(w, 'status', None) != 0:
            out.append(f'the server command ended with {getattr(w, "status", None)}')
        if sys.stdout.closed:
            out.append('standard output was closed')
        if 'PATH' in scn.app and not os.path.exists(scn.path):
            out.append('the file of failures was not created')
            return out
    failures(scn, w, scn.text(), out)
    limit = 1 if scn.memory else scn.server.get('max_retries', 0) + 1
    n = sum(1 for r in runs(w))
    if n > limit * len(scn.tasks):
        out.append(f'{n} executions')
    return out


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for n in (1, 2, 3, 4) if deep else (1, 3):
        for pat in itertools.product((0, 1), repeat=n):
            for sb, cb, nt in ((1, 1, 1), (2, 3, 2), (3, 2, 1)):
                for retries in (0, 1, 2) if deep else (0, 1):
                    for memory in (False, True):
                        if memory and retries and not deep:
                            continue
                        for app in ('', '--print', '-f PATH', '-f -'):
                            if memory and app:
                                L.append((pat, sb, cb, nt, retries, 'configured', app))
                            else:
                                L.append((pat, sb, cb, nt, retries, memory, app))
    for status in (-15, 255, 1, 127):
        L.append(((status, 0, status), 2, 2, 2, 1, False, ''))
    return L


def run_case(case):
    pat, sb, cb, nt, retries, memory, app = case
    lines = [f'cmd {i} "x"' if i % 2 else f'l{i}' for i in range(len(pat))]
    scn = Failures('case', lines, {x: {'status': s, 'duration': 0.3 + i % 2} for i, (x, s) in enumerate(zip(lines, pat))},
                   dict(bundlesize=sb, max_retries=retries), [dict(num_tasks=nt, bundlesize=cb)], memory, app)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    off = ('delay', 'stall:3') if deep else ('delay',)
    plan = {'a': 1, 'b': {'duration': 2.0, 'status': 2}, 'c': 0, ('d', 1): 5, ('d', 2): 0}
    for name, server, cl in (('one', dict(bundlesize=1, max_retries=1), [dict(num_tasks=1)]),
                             ('two', dict(bundlesize=2, max_retries=1), [dict(num_tasks=2, bundlesize=2)]),
                             ('clients', dict(bundlesize=1), [dict(num_tasks=1), dict(num_tasks=1, at=3)])):
        for memory in (False, True):
            S.append(Failures(f'{name}{"-memory" if memory else ""}', ('a', 'b', 'c', 'd'), plan, server, cl, memory, offers=off, depth=1,
                              policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    S.append(Failures('command', ('a', 'b', 'd'), plan, dict(bundlesize=2, max_retries=1), [dict(num_tasks=2, bundlesize=2)], False, '-f PATH', offers=off, depth=1,
                      policies=('fifo', 'lifo')))
    S.append(Failures('lines', ('a', 'b', 'd'), plan, dict(bundlesize=1, max_retries=1), [dict(num_tasks=2)], False, offers=('delay',), depth=1 if deep else 0, fine=ALL_LINES,
                      policies=('fifo', 'rr') if deep else ('fifo', 'rr', 'lifo')))
    for who in ('server/hypershell-server', 'receiver', 'scheduler'):
        for sec in (1.5, 5, 12) if deep else (5,):
            S.append(Failures(f'held-up-{who.split("-")[-1]}-{sec}', ('a', 'b', 'd'), plan, dict(bundlesize=1, max_retries=1), [dict(num_tasks=2)], False, offers=(f'stall:{sec}@{who}',), depth=1,
                              fine=('server',), policies=('fifo', 'rr') if deep else ('fifo',)))
    S.append(Failures('template', ('a', 'b', 'd'), plan, dict(bundlesize=2, max_retries=1), [dict(num_tasks=2, bundlesize=2, template='run {} now')], False, offers=(), depth=0))
    S.append(Failures('template-memory', ('a', 'b', 'd'), plan, dict(bundlesize=2), [dict(num_tasks=2, bundlesize=2, template='run {} now')], True, offers=(), depth=0))
    return Check('P18', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every success/failure pattern of up to the stated number of lines x bundle sizes x retries x database or not x every way of asking '
                 'for the failures. Scenarios: complete executions under the controlled scheduler with every single alternative at every point.')
