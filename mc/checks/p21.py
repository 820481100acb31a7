"""P21: update, cancel, revert and delete change exactly the selected tasks."""
import copy
import datetime as dt
import itertools

import tasktable as tt
from checks.p20 import key
from explore import Check
from sched import EPOCH

NOW = dt.datetime.fromtimestamp(EPOCH)
RESET = ('schedule_time', 'server_host', 'server_id', 'client_host', 'client_id', 'command', 'start_time', 'completion_time', 'exit_status', 'outpath',
         'errpath', 'waited', 'duration')


def field(name, value, text=None):
    def do(r):
        r[name] = value
    return ('arg', text or f'{name}={ {None: "null", True: "true", False: "false"}.get(value, value) if not isinstance(value, int) or isinstance(value, bool) else value}', do)


def tag(name, value, text=None):
    def do(r):
        r['tag'][name] = value
    shown = 'null' if value is None else 'true' if value is True else 'false' if value is False else value
    return ('arg', text or f'{name}:{shown}', do)


def drop(*names):
    def do(r):
        for n in names:
            r['tag'].pop(n, None)
    return ('drop', names, do)


def cancel(r):
    r['schedule_time'], r['exit_status'] = 'now', -1


def revert(r):
    for f in RESET:
        r[f] = None


CHANGES = [field('exit_status', 3), field('exit_status', None), field('args', 'new text=1'), field('client_host', None), field('client_host', 'h9'),
           field('retried', True), field('attempt', 7), field('outpath', 'null', 'outpath=NULL'), field('duration', 0),
           tag('a', 1), tag('a', 'z'), tag('new', True), tag('off', False), tag('a.b', None), tag('x-y', 1.5), tag('b', ''), tag('n', 5, ' n : 5 '), tag('0', 'zero'),
           drop('a'), drop('a.b'), drop('b', 'zz'), drop('a', 'b')]
CHANGES[7] = ('arg', 'outpath=NULL', lambda r: r.__setitem__('outpath', None))
MODES = [('mode', '--cancel', cancel), ('mode', '--revert', revert), ('mode', '--delete', None)]
CONDS = ([c for c in tt.CONDITIONS if c[1] in ('exit_status == 0', 'exit_status >= 1', 'exit_status == null', 'args == fail', 'client_host == h1', 'client_host == null',
                                              'retried == false', 'attempt >= 2', 'schedule_time == null', 'duration >= 600', 'args ~ ^new', 'outpath == null')]
         + [c for c in tt.TAGS if c[1] in ('a', 'a:1', 'a:true', 'b', 'b:x', 'b:y', 'a.b', 'a.b:2', 'a:null')] + tt.ALIASES)


def conflicting(a, b):
    """Two changes for which no order is documented."""
    return a[0] == b[0] == 'drop' or a[0] == b[0] == 'mode'


def apply(changes, row):
    """The row after all changes (None: deleted): assignments in the order given, then the mode, then removed tags."""
    r = copy.deepcopy(row)
    for kind in ('arg', 'mode', 'drop'):
        for c in changes:
            if c[0] == kind:
                if c[1] == '--delete':
                    return None
                c[2](r)
    return r


def argv_of(changes, conds, order, desc, limit):
    out = [c[1] for c in changes if c[0] == 'arg'] + [c[1] for c in changes if c[0] == 'mode'] + tt.options(conds)
    for c in changes:
        if c[0] == 'drop':
            out += ['--remove-tag', *c[1]]
    if order:
        out += ['-s', order] + (['--desc'] if desc else [])
    if limit is not None:
        out += ['-l', str(limit)]
    return out


def same(want, got):
    if want is None or got is None:
        return want is got
    for f in tt.FIELDS:
        w, g = want[f], got[f]
        if w == 'now' and f == 'schedule_time':
            if not isinstance(g, dt.datetime) or abs((g - NOW).total_seconds()) > 5:
                return False
        elif f == 'tag':
            if type(g) is not dict or {k: (type(v), v) for k, v in w.items()} != {k: (type(v), v) for k, v in g.items()}:
                return False
        elif type(w) is not type(g) or w != g:
            return False
    return True


def difference(want, got):
    if want is None or got is None:
        return f'is {"gone" if got is None else "still there"}'
    return ', '.join(f'{f} is {got[f]!r}, expected {want[f]!r}' for f in tt.FIELDS if not same({**want, **{x: None for x in tt.FIELDS if x not in (f, 'tag')}, 'tag': want['tag'] if f == 'tag' else {}},
                                                                                              {**got, **{x: None for x in tt.FIELDS if x not in (f, 'tag')}, 'tag': got['tag'] if f == 'tag' else {}}))


def verify(S, changes, conds, order=None, desc=False, limit=None, answer=None):
    """answer: None = --no-confirm, else the reply to the question."""
    before = tt.load(S.dbpath)
    matched = tt.select(before, conds)
    argv = argv_of(changes, conds, order, desc, limit) + (['-f'] if answer is None else [])
    r = tt.command(S, 'TaskUpdateApp', argv, stdin='' if answer is None else answer + '\n')
    who = f'update {argv}' + ('' if answer is None else f' answered {answer!r}')
    if r.stuck or r.error:
        return [f'{who} ended with {r.error or "no end"}']
    after = {x['id']: x for x in tt.load(S.dbpath)}
    if answer is not None and answer.strip().lower() not in ('y', 'yes'):
        bad = [x['id'] for x in before if not same(x, after.get(x['id']))]
        return [f'{who} changed {bad}'] if bad or len(after) != len(before) else []
    if r.status != 0:
        return [f'{who} ended with {r.status} {r.err[-300:]}']
    n = len(matched) if limit is None else min(limit, len(matched))
    changed = {x['id']: apply(changes, x) for x in matched}
    applied, kept = [], []
    for x in before:
        got = after.pop(x['id'], None)
        done = x['id'] in changed and same(changed[x['id']], got)
        if done:
            applied.append(x)
        if same(x, got):
            kept.append(x)
        elif not done:
            want = changed.get(x['id'], x)
            if want is None:
                return [f"{who}: task {x['args']!r} was changed: {difference(x, got)}"]
            return [f"{who}: task {x['args']!r} {'(matching)' if x['id'] in changed else '(not matching)'}: {difference(want, got)}"]
    if after:
        return [f'{who}: new tasks {list(after)}']
    sure = [x for x in applied if x not in kept]
    if len(sure) > n or len(applied) < n:
        return [f"{who}: applied to {len(sure)} of {len(matched)} matching tasks, expected {n}; not to {[x['args'] for x in matched if x not in applied]}"]
    if limit is not None and order and len(sure) == n:
        seq = sorted(key(x[order]) for x in sure)
        best = sorted(sorted((key(x[order]) for x in matched), reverse=desc)[:n])
        if seq != best:
            return [f'{who}: applied to the tasks with {order} {seq}, expected {best}']
    return []


TASKS = [t['id'] for t in tt.TABLE]
BAD = [['id=x'], ['nosuch=1'], ['exit_status=abc'], ['exit_status=1.5'], ['exit_status=true'], ['tag=abc'], ['tag=null'], ['a:b!c'], ['a:', 'b:!!'], ['a:ok', 'c: ', 'b:x y'],
       ['word'], ['exit_status == 0'], ['args ~ x', 'a:1'], ['attempt=null'], ['args=null'], ['submit_id=none'], ['retried=5'], ['retried=yes'], ['attempt=two'],
       ['previous_id=dup'], ['submit_time=yesterday'], ['completion_time=1'], ['a:1', '-s', 'attempt'], ['a:1', '--desc'], ['--cancel', '--delete'], ['a:1', '-w', 'nosuch == 1'],
       ['a:1', '-w', 'exit_status'], ['a:1', '-t', 'b:!!'], ['a:1', '-F', '-S'], ['a:1', '-l', 'two'], ['duration=long'], ['waited=false'],
       [TASKS[0], 'nosuch', '1'], [TASKS[0], 'id', TASKS[1]], [TASKS[0], 'attempt', 'abc'], [TASKS[0], 'tag', 'a:!!'], [TASKS[0], 'args', 'null'],
       [tt.uid(99), 'args', 'x'], [tt.uid(99), 'tag', 'a:1'], [TASKS[0], 'retried', 'maybe'], [TASKS[0], 'next_id', tt.uid(9)], ['x' * 8, 'args', 'y']]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    C = CHANGES + MODES
    conds0 = [()] + [(c,) for c in CONDS]
    conds2 = [cs for cs in itertools.combinations(CONDS, 2) if not all(c[0] == 'a' for c in cs)]
    few = [c for c in CONDS if c[1] in ('exit_status == 0', 'exit_status >= 1', 'client_host == h1', 'outpath == null', 'args == fail', 'schedule_time == null', 'retried == false',
                                        'a', 'a:1', 'b', 'a.b:2', '-F', '-R')]
    for c in C:
        for cs in conds0 + (conds2 if deep else conds2[len(out) % 5::5]):
            out.append(((c,), cs, None, False, None, None))
    for cs in conds0:
        out.append(((), cs, None, False, None, None))
    pairs = [p for p in itertools.permutations(C, 2) if not conflicting(*p) and (p[0][0] == 'arg' or p[1][0] != 'arg')]
    for p in pairs:
        for cs in [(x,) for x in (CONDS if deep else few)]:
            out.append((p, cs, None, False, None, None))
    limits = [(None, False, 1), (None, False, 3), ('submit_time', True, 1), ('submit_time', False, 2), ('id', True, 3), ('id', False, 1), ('exit_status', True, 2), ('attempt', False, 4), ('duration', True, 100)]
    for p in [(c,) for c in C] + pairs[::1 if deep else 6]:
        for cs in [()] + [(x,) for x in (few if deep or len(p) == 1 else few[len(out) % 3::3])]:
            for lim in limits if deep and len(p) == 1 else [limits[(len(out) * 5 + j) % len(limits)] for j in range(3 if len(p) == 1 else 1)]:
                out.append((p, cs) + lim + (None,))
    if deep:
        triples = [t for t in itertools.combinations(C, 3) if not any(conflicting(*p) for p in itertools.combinations(t, 2))]
        for i, t in enumerate(triples):
            t = tuple(sorted(t, key=lambda c: c[0]))
            for cs in [(x,) for x in few[i % 4::4]]:
                out.append((t, cs) + (limits[i % len(limits)] if i % 2 else (None, False, None)) + (None,))
    for c in C:
        for a in ('y', 'yes', 'YES ', 'n', 'no', '', 'maybe', 'yesno'):
            out.append(((c,), (few[0],), None, False, None, a))
    k = max(1, len(out) // 40)
    S = [('update', out[i::k]) for i in range(k)]
    S += [('refuse', extra, i) for i in range(len(BAD)) for extra in ((), ('new:1',), ('args=changed', '-l', '2'))]
    S += [('legacy', None), ('sequence', None), ('many', None)]
    return S


LEGACY = [('args', 'a b', 'a b'), ('args', '12', '12'), ('exit_status', '4', 4), ('exit_status', 'null', None), ('client_host', 'None', None), ('retried', 'true', True), ('attempt', '3', 3),
          ('command', 'null', None), ('tag', 'k:5', ('k', 5)), ('tag', 'a:true', ('a', True)), ('tag', 'a.b:x', ('a.b', 'x')), ('tag', 'bare', ('bare', '')), ('start_time', 'null', None)]


def run_case(case):
    S = tt.copy()
    msgs, seen, n = [], [], 0
    if case[0] == 'update':
        for changes, conds, order, desc, limit, answer in case[1]:
            tt.fill(S)
            n += 1
            msgs += verify(S, changes, conds, order, desc, limit, answer)
            seen.append(repr((argv_of(changes, conds, order, desc, limit), answer)))
            if len(msgs) > 2:
                break
    elif case[0] == 'refuse':
        tt.fill(S)
        before = tt.load(S.dbpath)
        argv = BAD[case[2]]
        i = next((i for i, x in enumerate(argv) if x.startswith('-')), len(argv))
        if case[1] and len(argv) == 3 and argv[0] in TASKS + [tt.uid(99)]:
            return [], [], 0
        if '-s' in argv and '-l' in case[1]:
            return [], [], 0
        argv = [x for x in case[1] if x != '-l' and x != '2'] + argv[:i] + ['-f'] + argv[i:]
        if '-l' in case[1]:
            argv += ['-l', '2']
        n += 1
        r = tt.command(S, 'TaskUpdateApp', argv)
        seen.append(repr(argv))
        after = tt.load(S.dbpath)
        if after != before:
            msgs.append(f'update {argv} was to be refused, and changed ' + '; '.join(f"{x['args']}: {difference(x, y)}" for x, y in zip(before, after) if x != y)[:500])
        if r.status == 0:
            msgs.append(f'update {argv} reports success, expected to be refused')
    elif case[0] == 'legacy':
        for (f, text, want), t in itertools.product(LEGACY, (0, 3, 8)):
            tt.fill(S)
            n += 1
            before = tt.load(S.dbpath)
            r = tt.command(S, 'TaskUpdateApp', [TASKS[t], f, text])
            after = tt.load(S.dbpath)
            before[t] = copy.deepcopy(before[t])
            if f == 'tag':
                before[t]['tag'][want[0]] = want[1]
            else:
                before[t][f] = want
            bad = [difference(x, y) for x, y in zip(before, after) if not same(x, y)]
            if r.status != 0 or bad or len(after) != len(before):
                msgs.append(f'update {TASKS[t]} {f} {text} ended with {r.status}: {bad}')
            seen.append(repr((t, f, text)))
    elif case[0] == 'sequence':       # several updates by one program
        some = [((CHANGES[0],), (tt.ALIASES[3],)), ((MODES[1],), (tt.ALIASES[0],)), ((CHANGES[9],), (CONDS[-5],)), ((MODES[0],), (tt.ALIASES[3],)), ((CHANGES[18],), ())]
        for seq in itertools.permutations(some, 3):
            tt.fill(S)
            for ch, cs in seq:
                n += 1
                m = verify(S, ch, cs)
                if m:
                    msgs.append(f'in a sequence: {m[0]}')
                    break
            seen.append(repr([argv_of(a, b, None, False, None) for a, b in seq]))
    else:       # more tasks than are changed at a time
        table = [tt.task(i, f'line {i}', 'done' if i % 2 else 'new', i % 4 if i % 2 else None, tag={'a': i % 3}, sub=i) for i in range(1, 351)]
        for changes, conds, order, desc, limit in [((CHANGES[0],), (tt.ALIASES[3],), None, False, None), ((CHANGES[0], CHANGES[9]), (tt.ALIASES[3],), 'submit_time', False, 150),
                                                   ((CHANGES[9], CHANGES[18]), (CONDS[12],), 'id', True, 101), ((MODES[2],), (tt.ALIASES[3],), 'submit_time', True, 150),
                                                   ((MODES[2],), (), None, False, 300), ((MODES[0],), (tt.ALIASES[3],), None, False, 120), ((MODES[1], CHANGES[10]), (tt.ALIASES[0],), None, False, 60),
                                                   ((MODES[1], CHANGES[10]), (tt.ALIASES[0],), None, False, None)]:
            tt.fill(S, table)
            n += 1
            msgs += [m[:1500] for m in verify(S, changes, conds, order, desc, limit)]
            seen.append(repr(argv_of(changes, conds, order, desc, limit)) + ' of 350')
    return msgs, seen, n


def make(tier):
    return Check('P21', cases=cases(tier), run_case=run_case,
                 rule='One case is one update command run on a table with every task state: every change and every pair of changes (fields of every type, added and removed tags, '
                 'cancel, revert, delete) x conditions and pairs of conditions, including conditions on what is changed, with limits and orders, with and without '
                 'confirmation; refused commands alone and next to valid changes; the single-task form; sequences of three updates in one program; tables of 350 tasks. '
                 'The whole table is compared with the expected one.',
                 assumptions=['SQLite only: no PostgreSQL server exists here.',
                              'With a limit and no order, any selection of the right size counts as right.'])
