"""P20: task search returns exactly the matching tasks, in order, in every format."""
import csv
import datetime as dt
import io
import itertools
import json

import tasktable as tt
from explore import Check

SOME = [c for c in tt.CONDITIONS if c[1] in ('exit_status == 0', 'exit_status >= 1', 'args ~ e$', 'duration >= 600', 'duration < 600', 'retried == false',
                                             'client_host != h1', 'schedule_time == null', 'attempt >= 2')]
SOME_TAGS = [c for c in tt.TAGS if c[1] in ('a', 'b', 'a.b', 'a:1', 'a:true', 'a:null', 'b:y', 'a.b:2')]


def shown(r):
    """The stored values as JSON types."""
    return {f: v.isoformat(sep=' ') if isinstance(v, dt.datetime) else v for f, v in r.items()}


def text(v):
    return v if isinstance(v, str) else json.dumps(v)


def parse(fmt, out, fields, delim):
    """Rows shown: list of lists of texts (or of values for json)."""
    if fmt == 'json':
        return [[r[f] for f in fields] if list(r) == list(fields) else r for r in json.loads(out)]
    if fmt == 'csv':
        rs = list(csv.reader(io.StringIO(out), delimiter=delim or ','))
        if rs[:1] != [list(fields)]:
            raise ValueError(f'header {rs[:1]}')
        return rs[1:]
    if fmt == 'plain':
        return [x.split(delim or '\t') for x in out.split('\n')[:-1]]
    if fmt == 'table':
        rs = []
        head = None
        for line in out.split('\n'):
            if line[:1] in '┃' and line:
                head = [x.strip() for x in line.strip('┃').split('┃')]
            elif line[:1] == '│':
                rs.append([x.strip() for x in line.strip('│').split('│')])
        if head != list(fields):
            raise ValueError(f'header {head}')
        return rs
    raise AssertionError(fmt)


NORMAL = (('id', 'id'), ('args', 'args'), ('command', 'command'), ('exit_status', 'exit_status'), ('submitted', 'submit_time'), ('scheduled', 'schedule_time'),
          ('attempt', 'attempt'), ('retried', 'retried'), ('outpath', 'outpath'), ('errpath', 'errpath'), ('previous_id', 'previous_id'), ('next_id', 'next_id'))


def seconds(v):
    return 'null' if v is None else str(dt.timedelta(seconds=v))


def tags(t):
    return ', '.join(k if v == '' and isinstance(v, str) else f'{k}:{v}' for k, v in t.items())


def normal(r):
    """Lines of the normal format."""
    r = shown(r)
    t = {k: text(v) for k, v in r.items()}
    want = {label: t[f] for label, f in NORMAL}
    want['started'] = f"{t['start_time']} (waited: {seconds(r['waited'])})"
    want['completed'] = f"{t['completion_time']} (duration: {seconds(r['duration'])})"
    for x in ('submit', 'server', 'client'):
        want[f'{x}_host'] = f"{t[x + '_host']} ({t[x + '_id']})"
    want['tags'] = tags(r['tag'])
    return want


def parse_normal(out):
    blocks = out.split('---\n')[1:]
    return [dict((lambda k, v: (k.strip(), v.strip(' ')))(*line.split(': ', 1)) for line in b.split('\n') if line.strip()) for b in blocks]


def key(v):
    return (v is not None, v if v is not None else 0)


def verify(what, S, fmt, fields, delim, conds, order, desc, limit):
    full = tt.load(S.dbpath)
    want = tt.select(full, conds)
    argv = list(fields) + tt.options(conds)
    fields = list(fields) or tt.FIELDS
    if fmt == 'count':
        argv.append('-c')
    elif fmt == 'json' or fmt == 'csv':
        argv.append('--' + fmt)
    elif fmt:
        argv += ['-f', fmt]
    if delim:
        argv += ['-d', delim]
    if order:
        argv += ['-s', order] + (['--desc'] if desc else [])
    if limit is not None:
        argv += ['-l', str(limit)]
    argv = argv or ['-f', 'normal']         # no arguments at all: usage
    r = tt.command(S, 'TaskSearchApp', argv)
    who = f'search {argv}'
    if r.stuck or r.error or r.status != 0:
        return [f'{who} ended with {r.status} {r.error or ""} {r.err[-300:]}']
    if tt.load(S.dbpath) != full:
        return [f'{who} changed the tasks']
    n = len(want) if limit is None else min(limit, len(want))
    if fmt == 'count':
        return [] if r.out.strip() == str(n) else [f'{who} counts {r.out.strip()}, expected {n}']
    try:
        if fmt in ('', 'normal') and fields == tt.FIELDS:
            got = [tuple(sorted(x.items())) for x in parse_normal(r.out)]
            have = [tuple(sorted(normal(x).items())) for x in want]
        else:
            f = fmt or 'plain'
            got = [tuple(map(repr, x)) for x in parse(f, r.out, fields, delim)]
            have = [tuple(repr(v if f == 'json' else text(v).strip() if f == 'table' else text(v)) for v in (shown(x)[k] for k in fields)) for x in want]
    except Exception as e:     # noqa
        return [f'{who}: the output is not understood ({type(e).__name__}: {e})\n{r.out[:600]}']
    if len(got) != n:
        return [f'{who} shows {len(got)} tasks, expected {n}: {got} of {have}'[:900]]
    rest = list(have)
    for x in got:
        if x not in rest:
            return [f'{who} shows {x}, which is not one of (or more often than) {rest}'[:1200]]
        rest.remove(x)
    if order:
        keys = {}
        for x, row in zip(have, want):
            keys.setdefault(x, []).append(key(row[order]))
        if order in fields or fields == tt.FIELDS or all(len(set(v)) == 1 for v in keys.values()):
            seq = [keys[x][0] for x in got]
            best = sorted((key(row[order]) for row in want), reverse=desc)[:n]
            if seq != best:
                return [f'{who} is ordered {seq}, expected {best}']
    return []


def cases(tier):
    deep = tier == 'thorough'
    A = tt.CONDITIONS + tt.TAGS + tt.ALIASES
    out = []
    # conditions: ids and the count
    for k in (0, 1):
        for cs in itertools.combinations(range(len(A)), k):
            for fmt in ('plain', 'count'):
                out.append((fmt, ('id',), None, cs, None, False, None))
    pairs = list(itertools.combinations(range(len(A)), 2))
    for cs in pairs:
        if sum(A[i][0] == 'a' for i in cs) > 1:
            continue
        out.append(('plain', ('id',), None, cs, None, False, None))
    some = [i for i, c in enumerate(A) if deep or c in SOME or c in SOME_TAGS or c[0] == 'a']
    for cs in itertools.combinations(some, 3):
        if sum(A[i][0] == 'a' for i in cs) > 1:
            continue
        out.append(('count' if sum(cs) % 2 else 'plain', ('id',), None, cs, None, False, None))
    # formats, fields, order, limit
    few = [(), (A.index(SOME[0]),), (A.index(SOME_TAGS[0]), A.index(tt.ALIASES[2])), (A.index(tt.TAGS[3]),)]
    sets = [(), ('id',), ('args',), ('tag', 'id'), ('exit_status', 'args', 'retried', 'completion_time'), tuple(reversed(tt.FIELDS)), tuple(tt.FIELDS)]
    orders = [(None, False)] + [(f, d) for f in tt.FIELDS if f != 'tag' for d in (False, True)]
    for fmt in ('', 'normal', 'plain', 'json', 'csv', 'table', 'count'):
        for fs in sets:
            if fmt == 'normal' and fs and fs != tuple(tt.FIELDS):
                continue
            for cs in few if fs in sets[:3] or deep else few[:2]:
                for limit in (None, 0, 1, 2, 5, 50) if deep else (None, 1, 5):
                    for order in [orders[0]] + [orders[1 + (len(out) * 7 + j) % (len(orders) - 1)] for j in range(4 if deep else 1)]:
                        out.append((fmt, fs, None, cs, order[0], order[1], limit))
    for o, d in orders[1:]:
        for limit in (None, 1, 3, 7) if deep else (None, 3):
            for cs in few if deep else few[:2]:
                out.append(('json', ('id', o) if o != 'id' else ('id',), None, cs, o, d, limit))
                out.append(('plain', ('id',), None, cs, o, d, limit))
    for delim in (';', ':', ' ', '|'):
        out.append(('csv', ('args', 'id', 'tag'), delim, (), None, False, None))
        out.append(('plain', ('id', 'attempt'), delim, (), None, False, None))
    out.append(('plain', ('id', 'attempt'), '<>', (), 'id', True, 2))
    size = 40
    S = [('search', out[i::max(1, len(out) // size)]) for i in range(max(1, len(out) // size))]
    S += [('refuse', None), ('listing', None)] + [('sequence', i) for i in range(6)]
    return S


BAD = [['nosuchfield'], ['id', 'Args'], ['-w', 'nosuchfield == 1'], ['-w', 'exit_status'], ['-w', 'exit_status = 0'], ['-w', 'query == 1'], ['-s', 'nosuchfield'],
       ['id', '-f', 'normal'], ['-f', 'xml'], ['-d', ';', '--json'], ['id', '--csv', '-d', ';;'], ['-F', '-S'], ['-t', 'a:!!'], ['-w', 'metadata != null'], ['-l', 'x']]


def run_case(case):
    S = tt.copy()
    tt.fill(S)
    A = tt.CONDITIONS + tt.TAGS + tt.ALIASES
    msgs, seen, n = [], [], 0
    if case[0] == 'search':
        for fmt, fs, delim, cs, o, d, limit in case[1]:
            tt.fill(S)
            n += 1
            msgs += verify('', S, fmt, fs, delim, [A[i] for i in cs], o, d, limit)
            seen.append(repr((fmt, fs, delim, cs, o, d, limit)))
            if len(msgs) > 2:
                break
    elif case[0] == 'refuse':
        for argv in BAD:
            n += 1
            r = tt.command(S, 'TaskSearchApp', argv)
            seen.append(repr(argv))
            if r.status == 0 or r.out.strip():
                msgs.append(f'search {argv} ended with {r.status} and shows {r.out[:200]!r}, expected to be refused')
    elif case[0] == 'listing':
        n += 2
        r = tt.command(S, 'TaskSearchApp', ['--tag-keys'])
        keys = {k for t in tt.TABLE for k in t['tag']}
        if r.status != 0 or sorted(r.out.split('\n')[:-1]) != sorted(keys):
            msgs.append(f'tag keys listed as {r.out!r}, expected {sorted(keys)}')
        for k in ('b', 'a.b', 'c', 'zz'):
            r = tt.command(S, 'TaskSearchApp', [k, '--tag-values'])
            vs = {str(t['tag'][k]) for t in tt.TABLE if k in t['tag'] and t['tag'][k] is not None}
            if r.status != 0 or sorted(r.out.split('\n')[:-1]) != sorted(vs):
                msgs.append(f'values of tag {k} listed as {r.out!r}, expected {sorted(vs)}')
        seen.append('listing')
    else:       # several searches by one program: none influences another
        some = [tt.ALIASES[0], tt.ALIASES[3], SOME[0], SOME_TAGS[0], tt.TAGS[3], SOME[3]]
        for seq in itertools.permutations(some, 3):
            if seq[0] is not some[case[1]]:
                continue
            tt.fill(S)
            for c in seq:
                n += 1
                m = verify('', S, 'plain', ('id',), None, [c], None, False, None)
                if m:
                    msgs.append(f'in the sequence {[x[1] for x in seq]}: {m[0]}')
                    break
            seen.append(repr([x[1] for x in seq]))
            if len(msgs) > 2:
                break
    return msgs, seen, n


def make(tier):
    return Check('P20', cases=cases(tier), run_case=run_case,
                 rule='One case is one search command run on a table with every task state and every type of tag value: every condition (field, operator, value; '
                 'bare and valued tags; state filters), pairs and (from a smaller set) triples of them, every format x fields x order x limit, refused options, '
                 'and sequences of three searches in one program; the output is parsed and compared with a reference evaluation of the same conditions.',
                 assumptions=['SQLite only: no PostgreSQL server exists here.',
                              'A comparison with an unset field is false, as in SQL.'])
