"""P09: submission stores every input line once, in order, promptly and in whole bundles."""
import itertools
import json
import os
import sqlalchemy
from explore import Check, Scenario, get_inst
import fakes
import inst
import sched
from sched import EPOCH


class Broken(Exception):
    """The source fails."""


class Submit(Scenario):
    """One submitting program; lines are produced after the given pauses; a pause of None: the source fails there."""
    no_slow = ()
    slow = (1.5,)

    def __init__(self, name, lines, feed=None, size=2, wait=3, template='{}', tags=None, app=False, offers=('delay',), depth=1,
                 policies=('fifo', 'rr', 'lifo'), starve=True, window=None, previous=0, horizon=200.0):
        self.name, self.lines, self.feed, self.size, self.wait = name, list(lines), feed or [0] * len(lines), size, wait
        self.template, self.tags, self.app, self.offers = template, tags, app, list(offers)
        self.depth, self.policies, self.starve, self.window, self.previous, self.horizon = depth, policies, starve, window, previous, horizon

    def describe(self):
        return (f'lines {self.lines!r} after pauses {self.feed} bundles of {self.size} wait {self.wait} template {self.template!r} tags {self.tags} '
                f'application {self.app} alternatives {self.offers} depth {self.depth} policies {self.policies}')

    @property
    def S(self):
        return get_inst('submit', db='submit.db')

    def setup(self):
        S = self.S
        if not getattr(S, 'watched', False):
            S.watched = True
            for e in S.engines:
                sqlalchemy.event.listen(e, 'commit', lambda conn: self.commit(S, conn))
        inst.fresh_db(S)
        S.reset()
        if self.previous:
            S.install()
            T = S.data_model.Task
            T.add_all([T.new(args=f'old{i}') for i in range(self.previous)])
            S.drop_sessions()

    @staticmethod
    def commit(S, conn):
        w = sched.WORLD
        if w is None or w.cur is None:
            return
        c = conn.connection.dbapi_connection.cursor()
        n = c.execute('select count(*) from task').fetchone()[0]
        c.close()
        w.commits.append((w.now, n))

    def build(self, w):
        S = self.S
        w.commits = []
        w.read = []

        def gen():
            for x, d in itertools.zip_longest(self.lines, self.feed):
                if d is None:
                    raise Broken('the source is broken')
                if d:
                    fakes.v_sleep(d)
                if x is None:
                    return
                w.read.append(w.now)
                yield x

        def main():
            if self.app:
                path = os.path.join(inst.scratch(), 'tasks.in')
                with open(path, 'w') as f:
                    f.write(''.join(x + '\n' for x in self.lines))
                argv = [path, '-b', str(self.size), '-w', str(self.wait), '-t', self.template]
                if self.tags:
                    argv += ['--tag'] + [f'{k}:{v}' for k, v in self.tags.items()]
                rc = S.submit.SubmitApp.main(argv)
                if rc != 0:
                    raise RuntimeError(f'exit status {rc}')
                return len(self.lines)
            return S.submit.submit_from(gen(), bundlesize=self.size, bundlewait=self.wait, template=self.template, tags=self.tags)
        w.program = w.add_proc('submit', S, main)

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None:
            return ()
        L = []
        for o in self.offers:
            if o == 'delay':
                if w.others_ready():
                    L.append(o)
            elif o == 'fault:db':
                if kind == 'sql':
                    L.append(o)
            else:
                L.append(o)
        return L

    def until(self, w):
        return w.program.exit is not None

    def check(self, w, reason):
        out = []
        rows = inst.rows(self.S.dbpath)[self.previous:]
        exp = [self.template.replace('{}', x.strip()).strip() for x in self.lines]
        if reason != 'until':
            return [f'the submission does not end ({reason} after {w.now - EPOCH:.0f} s; waiting: {[(t.name, t.what) for t in w.blocked]}; '
                    f'{len(rows)} of {len(exp)} stored)']
        kind, val = w.program.exit
        broken = None in self.feed
        got = [r['args'] for r in rows]
        if got != exp[:len(got)]:
            out.append(f'stored {got}, which is not a prefix of the input {exp}')
        if kind == 'ok':
            if broken:
                out.append('the source failed and the submission reports success')
            elif w.hit:
                out.append('storing failed and the submission reports success')
            if got != exp and not broken:
                out.append(f'the submission reports success, stored {got} of {exp}')
            if val != len(exp) and not broken:
                out.append(f'reported {val} tasks of {len(exp)}')
        elif kind == 'exc' and not broken and not w.hit:
            out.append(f'failed with {type(val).__name__}: {val}')
        for r in rows:
            if json.loads(r['tag']) != (self.tags or {}):
                out.append(f"{r['args']}: tags {r['tag']}")
            if r['attempt'] != 1 or r['previous_id'] or r['next_id'] or r['retried'] or r['schedule_time'] or r['exit_status'] is not None:
                out.append(f"{r['args']}: not a new task")
            if r['submit_id'] != self.S.instance:
                out.append(f"{r['args']}: submit_id")
        if len({r['id'] for r in rows}) != len(rows):
            out.append('ids are not unique')
        ts = [r['submit_time'] for r in rows]
        if sorted(ts) != ts or len(set(ts)) != len(ts):
            out.append(f'submission times do not follow the input order: {ts}')
        # bundles and promptness
        n = self.previous
        for t, c in w.commits:
            if c - n > self.size:
                out.append(f'stored {c - n} tasks at once')
            n = max(n, c)
        if w.slow is None and kind == 'ok' and not w.hit:
            late = 2.5 + (6 if w.chooser.devs and any(o.startswith('stall') for o in self.offers) else 0)
            for i, t in enumerate(w.read):
                when = [tc for tc, c in w.commits if c > self.previous + i]
                if not when or when[0] - t > self.wait + late:
                    out.append(f'line {i} was read at {t - EPOCH:.1f} s and stored at {when[0] - EPOCH if when else 0:.1f} s (wait {self.wait} s)')
        return out

    def outcome(self, w, reason):
        return f'{reason} {w.program.exit and w.program.exit[0]} {len(inst.rows(self.S.dbpath))} rows'


def cases(tier):
    """Paces of the input: every sequence of short and long pauses, and long steady ones."""
    deep = tier == 'thorough'
    L = []
    for wait in (1, 3):
        gaps = (0, 0.7 * wait, 1.4 * wait, wait + 4)
        for n in (4,) if not deep else (1, 2, 3, 4, 5):
            for g in itertools.product(gaps, repeat=n):
                for size in (2, 10) if not deep else (1, 2, 3, 10):
                    for end in (0, wait + 6):
                        L.append((g + (end,), size, wait))
        for d in (0.2, 0.5, 0.9, 1.0, 1.1, 2.5):
            for n in (12, 25) if not deep else (12, 25, 60):
                for size in (3, 10, 100):
                    L.append(((d,) * n, size, wait))
    L += [((0, 5, 5), 2, 86402), ((1,) * 6, 4, 86400)]
    return L


def run_case(case):
    feed, size, wait = case
    n = len(feed) - (1 if feed[-1] == 0 or feed[-1] > wait else 0)
    scn = Submit('case', [f't{i}' for i in range(n)], list(feed), size, wait, offers=(), horizon=90000.0 if wait > 1000 else 400.0)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    L = ('echo a', '  b  ', 'c "d"', '', 'e')
    for size, wait in ((1, 3), (2, 3), (3, 1), (10, 2), (2, 0)) if not deep else itertools.product((1, 2, 3, 4, 10), (0, 1, 3, 5)):
        S.append(Submit(f'all-b{size}-w{wait}', L, None, size, wait, 'run {}', {'k': 'v', 'n': 3}, offers=('delay', 'crash', 'fault:db'), depth=2, window=None if deep else 12))
        S.append(Submit(f'slow-b{size}-w{wait}', L, [0, 0.5, 4, 0, 0, 9], size, wait, offers=('delay', 'crash', 'fault:db', 'stall:5') if deep else ('delay', 'crash', 'fault:db'), depth=2, window=None if deep else 12))
    S.append(Submit('idle', ('a', 'b', 'c'), [0, 0, 20, 30], 3, 4, offers=('delay', 'stall:3')))
    S.append(Submit('idle-1', ('a', 'b', 'c'), [0.7, 12, 0, 12], 2, 2, offers=('delay', 'stall:3')))
    S.append(Submit('broken', ('a', 'b', 'c'), [0, 0, 2, None], 2, 4, offers=('delay', 'crash')))
    S.append(Submit('broken-full', ('a', 'b', 'c', 'd', 'e', 'f'), [0, 0, 0, 0, 0, 0, None], 1, 4, offers=('delay', 'fault:db')))
    S.append(Submit('long', [f't{i}' for i in range(9)], None, 2, 3, offers=('delay', 'fault:db', 'crash'), previous=2, depth=2, window=None if deep else 15))
    S.append(Submit('pairs', ('a', 'b', 'c'), None, 1, 2, offers=('delay', 'fault:db', 'stall:3', 'crash'), depth=2, window=None if deep else 25, policies=('fifo',)))
    S.append(Submit('app', ('a', 'b', 'c'), None, 2, 2, 'x {}', {'site': 'b'}, app=True, offers=('delay', 'fault:db', 'crash')))
    S.append(Submit('empty', (), None, 2, 2, offers=('delay',)))
    return Check('P09', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every sequence of pauses (none, shorter, longer, much longer than the wait) and steady paces x bundle sizes and waits. '
                 'Scenarios: complete executions under the controlled scheduler with the stated alternatives (reordering, death, database failure, stalls) at every point.')
