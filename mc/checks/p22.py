"""P22: tags are validated, stored and matched the same way everywhere."""
import itertools
import json

import inst
import program
import tasktable as tt
from explore import Check

REFUSED = object()
#: text on the command line -> (key, value)
TEXTS = {
    'prod': ('prod', ''), 'batch:12': ('batch', 12), 'site:us-west-1': ('site', 'us-west-1'), 'f:1.5': ('f', 1.5), 'on:true': ('on', True), 'on:False': ('on', False),
    'none:null': ('none', None), 'e:': ('e', ''), ' pad : x ': ('pad', 'x'), 'a.b:x': ('a.b', 'x'), 'a-b_c:+1x': ('a-b_c', '+1x'), 'neg:-3': ('neg', -3), 'n0:0': ('n0', 0),
    'n1:1': ('n1', 1), '7:seven': ('7', 'seven'), 'date:20240101': ('date', 20240101), 'd2:2024-01-01': ('d2', '2024-01-01'), 'v:1.10.2': ('v', '1.10.2'), 'U:Case': ('U', 'Case'),
    'l:' + 'x' * 120: ('l', 'x' * 120), 'prod:x': ('prod', 'x'), 'batch:true': ('batch', True),
    'bad:a b': REFUSED, 'bad:a!': REFUSED, 'bad:a/b': REFUSED, 'bad:a:b': REFUSED, 'bad:é': REFUSED, 'bad:"x"': REFUSED, 'bad:' + 'x' * 121: REFUSED, 'bad:a=b': REFUSED, "bad:it's": REFUSED,
    'bad:$HOME': REFUSED, 'bad:a,b': REFUSED,
}
SMALL = ['prod', 'batch:12', 'on:true', 'e:', 'a.b:x', ' pad : x ', 'none:null', 'prod:x', 'bad:a b', 'bad:a!', 'bad:a:b']
#: what a program passes for tags
VALUES = {'empty': ('', True), 'int': (3, True), 'float': (2.5, True), 'true': (True, True), 'false': (False, True), 'none': (None, True), 'text': ('a-b', True), 'list': ([1], False),
          'dict': ({'x': 1}, False), 'blank': ('a b', False), 'long': ('x' * 121, False), 'bytes': (b'x', False), 'symbol': ('a/b', False)}


def expected(texts):
    out = {}
    for t in texts:
        if TEXTS[t] is REFUSED:
            return REFUSED
        k, v = TEXTS[t]
        out[k] = v
    return out


def typed(d):
    return {k: (type(v).__name__, v) for k, v in d.items()} if isinstance(d, dict) else d


def stored(S):
    return [r['tag'] for r in tt.load(S.dbpath)]


def submit_file(S, texts):
    def fn():
        with S.submit.SubmitApp.from_cmdline(['-', '-b', '1', '--tag', *texts]) as app:
            app.run()
        return 0
    return program.run(S, lambda: S.submit.SubmitApp.main(['-', '-b', '1', '--tag', *texts]), stdin='one\ntwo\n')


def submit_task(S, texts):
    return program.run(S, lambda: S.task.TaskSubmitApp.main(['echo', 'x', '-t', *texts]))


def update(S, texts):
    texts = [t if ':' in t else t + ':' for t in texts]
    return tt.command(S, 'TaskUpdateApp', [*texts, '-f', '-w', 'args ~ .'])


def one_by_one(S, texts):
    """The single-task form, one tag after another."""
    for t in texts:
        r = tt.command(S, 'TaskUpdateApp', [tt.uid(1), 'tag', t])
        if r.status != 0:
            return r
    return r


PLACES = {'submit': (submit_file, False, 2), 'task submit': (submit_task, False, 1), 'update': (update, True, 1), 'legacy': (one_by_one, True, 1)}
ONE = [tt.task(1, 'subject', 'new', tag={'was': 'there', 'prod': 5})]


def run_case(case):
    S = tt.copy()
    kind = case[0]
    msgs, seen, n = [], [], 0
    if kind == 'give':
        for place, texts in case[1]:
            fn, there, count = PLACES[place]
            tt.fill(S, ONE if there else [])
            want = expected(texts)
            r = fn(S, texts)
            S.drop_sessions()
            got = stored(S)
            n += 1
            seen.append(repr((place, texts)))
            who = f'{place} with tags {texts}'
            if r.stuck or r.error:
                msgs.append(f'{who} ended with {r.error or "no end"}')
            elif want is REFUSED:
                if r.status == 0:
                    msgs.append(f'{who} reports success, expected to be refused')
                if place != 'legacy' and (got != [ONE[0]['tag']] if there else got):
                    msgs.append(f'{who} was to be refused and stored {got}')
            else:
                full = {**(ONE[0]['tag'] if there else {}), **want}
                if r.status != 0 or [typed(x) for x in got] != [typed(full)] * count:
                    msgs.append(f'{who} ended with {r.status} and stored {got}, expected {full}')
            if len(msgs) > 2:
                break
    elif kind == 'library':
        names, where = case[1], case[2]
        tags = {x: VALUES[x][0] for x in names}
        good = all(VALUES[x][1] for x in names)
        tt.fill(S, [])
        n += 1

        def fn():
            if where == 'new':
                S.data_model.Task.add(S.data_model.Task.new(args='x', tag=dict(tags)))
            else:
                S.submit.submit_from(['x'], tags=dict(tags), bundlesize=1, bundlewait=1)
        r = program.run(S, fn)
        S.drop_sessions()
        got = stored(S)
        seen.append(repr(case))
        if good and (r.error or r.stuck or [typed(x) for x in got] != [typed(tags)]):
            msgs.append(f'{where} with tags {tags} ended with {r.error} and stored {got}')
        if not good and (got or (where == 'new' and not r.error)):
            msgs.append(f'{where} with tags {tags} was accepted: {r.error} {got}')
    elif kind == 'find':
        tags = case[1]
        table = [tt.task(i + 1, f't{i}', 'new', tag=t) for i, t in enumerate(tags)]
        tt.fill(S, table)
        keys = sorted({k for t in tags for k in t} | {'nokey'})
        values = ['', 0, 1, 12, True, False, None, 'x', '12x', 1.5, -3, 'true-x']
        asks = [(k,) for k in keys] + [(k, v) for k in keys for v in values if v != '' or v is False]
        for combo in [(a,) for a in asks] + (list(itertools.combinations(asks[:len(keys)], 2)) if len(tags) < 12 else []) + [(a, b) for a in asks[:2] for b in asks[len(keys)::7]]:
            conds = [tt.tagged(*a) for a in combo]
            want = sorted(r['id'] for r in tt.select(table, conds))
            argv = ['id'] + tt.options(conds)
            r = tt.command(S, 'TaskSearchApp', argv)
            n += 1
            got = sorted(r.out.split())
            seen.append(repr((tags, argv)))
            if r.status != 0 or r.error or got != want:
                msgs.append(f'search {argv} in tags {tags} finds {got} ({r.status}), expected {want}')
                if len(msgs) > 2:
                    break
    return msgs, seen, n


def cases(tier):
    deep = tier == 'thorough'
    out = []
    give = []
    for place in PLACES:
        for t in TEXTS:
            give.append((place, (t,)))
        for ts in itertools.permutations(TEXTS if deep else SMALL, 2):
            give.append((place, ts))
        for ts in itertools.permutations(SMALL if deep else SMALL[:1] + SMALL[3:4] + SMALL[5:6] + SMALL[7:10], 3):
            give.append((place, ts))
    k = max(1, len(give) // 40)
    out += [('give', give[i::k]) for i in range(k)]
    for where in ('new', 'submit'):
        for r in (1, 2, 3) if deep else (1, 2):
            for names in itertools.permutations(VALUES, r):
                out.append(('library', names, where))
    vals = ['', 0, 1, 12, True, False, None, 'x', '12x', 1.5, -3]
    out.append(('find', [{}] + [{'k': v} for v in vals]))
    out.append(('find', [{}] + [{'a.b': v} for v in vals] + [{'a': 1}]))
    for a, b in itertools.product(vals, repeat=2):
        out.append(('find', [{'k': a, 'j': b}, {'k': b}, {'j': a}, {'K': a}, {}]))
    return out


def make(tier):
    return Check('P22', cases=cases(tier), run_case=run_case,
                 rule='One case is one list of one to three tags, valid and invalid in every position, given to one of the four ways of setting tags on the command line or to the '
                 'library, or one search by keys and values in tables whose tasks carry every type of value under every combination; the stored and found tags are compared '
                 'with the documented ones, in value and type.',
                 assumptions=['SQLite only: no PostgreSQL server exists here.'])
