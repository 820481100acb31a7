"""P08: task text and data survive every hop unchanged."""
import collections
import csv
import hashlib
import io
import itertools
import json
import os

import inst
import program
from explore import Check, get_inst
from fleet import Fleet, chains, ends, runs
from sched import EPOCH

WORDS = ('a', '1', '0', '-1', '+1', '1.0', '1e5', '1_000', '0x10', '007', '.5', '5.', 'nan', 'inf', '-inf', 'Infinity', 'true', 'false', 'True', 'False',
         'null', 'None', 'none', 'yes', 'no', 'on', 'off', '{}', '[]', '[1, 2]', '{"a": 1}', '{"id": "x"}', '"a"', "'a'", '""', "''", '"', "'", '\\', '\\n',
         '20240101', '2024-01-01', '2024-01-01 10:00', '2024-01-01T10:00:00', '2024-01-01 10:00:00+00:00', '2024-01-01 10:00:00.123456+02:00', '10:00',
         '10:00:00', '20240101T101010', '2024-W01-1', '2024-001', '0001-01-01', '9999-12-31', '2024-02-30', '1970-01-01', 'é', 'ß', 'ü', '漢字', '😀', 'e\u0301',
         '\u200b', '\ufeff', '\u2028', 'a\tb', 'a  b', 'a b', 'a\xa0b', '%', '%s', '%(x)s', '{0}', '{x}', '{{}}', '${HOME}', '$HOME', '$(id)', '`id`', '#', '# a', 'a # b',
         '//', '/*', '--', '-- a', ';', ';;', '&&', '|', '>', '<', '*', '?', '~', '!', '^', '=', ':', 'a:b', 'a=b', 'a,b', ',', '\x01', '\x1b[0m', '\x7f',
         "'; drop table task; --", '"; drop table task; --', 'a\'b"c', '\\"', "\\'", 'a\\', '\\u00e9', '\\x41', '[red]a[/red]', '[/]', ':smile:', 'x' * 5000, 'é' * 3000,
         '00000000-0000-0000-0000-000000000000', '1' * 30, '9223372036854775808', '1e400', '-0', '0.1', '1/3')
LETTERS = ('a', '1', ' ', '"', "'", '\\', '{', '}', '-', ':', '%', '$', 'é', '0', '.', ',')
INNER = ('a\nb', 'a\rb', 'a\r\nb', 'a\x0bb', 'a\x0cb', 'a\x85b', 'a\x1cb', 'a\u2029b')      # only from sources other than a file
BLANKS = (' a', 'a ', '  a  ', '\ta\t', '\xa0a\xa0', '\u3000a', ' ', '', '\t')
TAGS = ({}, {'k': 'v'}, {'k': ''}, {'k': None}, {'k': True}, {'k': False}, {'k': 0}, {'k': 1}, {'k': -3}, {'k': 2.5}, {'k': 1e-9}, {'k': 2 ** 60}, {'k': '1'}, {'k': 'true'},
        {'k': 'null'}, {'k': '2024-01-01'}, {'k': '20240101'}, {'k': '1e5'}, {'k': 'None'}, {'a.b': 1, 'c-d': 'x', 'é': 'y', 'a b': 'z', '"': 'q'}, {'id': 'x', 'args': 'y', 'tag': 'z'},
        {'a': 1, 'b': 2.0, 'c': 'x', 'd': None, 'e': True, 'f': ''}, {'k': '2024-01-01T10'}, {'k': '-'}, {'k': '.'}, {'k': '+1'})
FIXED = ('id', 'args', 'submit_id', 'submit_host', 'submit_time', 'attempt', 'previous_id', 'tag')


def rename(S, host):
    for m in S.mods.values():
        if hasattr(m, 'HOSTNAME'):
            m.HOSTNAME = host


class Finish(Fleet):
    """A server finishes what is in the database."""
    named = ()

    def setup(self):
        self.S.reset()
        self.C(0).reset()
        for x, h in self.named:
            rename(x, h)

    def lines(self, w):
        return []

    def build(self, w):
        w.uid = 1_000_000        # other ids than those of the submission
        super().build(w)


def command(T, app, argv):
    o = program.run(T, lambda: getattr(T.task, app).main(list(argv)))
    T.drop_sessions()
    if o.error or o.stuck or o.status != 0:
        return None, f'{app} {argv} failed: {o.status} {o.error}'
    return o.out, None


def stored(T, dbpath, want, tags, when, out):
    """The tasks in the database read in every way."""
    rows = inst.rows(dbpath)
    first = [r for r in rows if r['previous_id'] is None]
    if [r['args'] for r in first] != want:
        bad = [(a, b) for a, b in itertools.zip_longest([r['args'] for r in first], want) if a != b]
        out.append(f'{when}: stored {bad[0][0]!r} for {bad[0][1]!r} ({len(bad)} differ)')
        return None
    for r in rows:
        if json.loads(r['tag']) != tags or repr(json.loads(r['tag'])) != repr(dict(sorted(tags.items(), key=lambda x: list(json.loads(r['tag'])).index(x[0])))):
            out.append(f"{when}: {r['args']!r} has the tags {r['tag']}, given {tags!r}")
            break
    byid = {r['id']: r for r in rows}
    text, err = command(T, 'TaskSearchApp', ['id', 'args', 'tag', 'submit_id', 'attempt', 'exit_status', 'command', '--json'])
    if err:
        out.append(f'{when}: {err}')
        return rows
    for x in json.loads(text):
        r = byid[x['id']]
        if x['args'] != r['args'] or x['command'] != r['command'] or x['tag'] != json.loads(r['tag']) or repr(x['attempt']) != repr(r['attempt']) or repr(x['exit_status']) != repr(r['exit_status']):
            out.append(f'{when}: search shows {x} for {dict(r)}')
            break
    text, err = command(T, 'TaskSearchApp', ['id', 'args', 'command', '--csv'])
    if err:
        out.append(f'{when}: {err}')
    else:
        got = {x[0]: (x[1], x[2]) for x in list(csv.reader(io.StringIO(text, newline='')))[1:]}
        for r in rows:
            if got[r['id']] != (r['args'], 'null' if r['command'] is None else r['command']):
                out.append(f"{when}: csv shows {got[r['id']]} for {r['args']!r} {r['command']!r}")
                break
    for r in rows[:6]:
        text, err = command(T, 'TaskInfoApp', [r['id'], '-x', 'args'])
        if err or text != r['args'] + '\n':
            out.append(f"{when}: info -x args shows {text!r} for {r['args']!r} {err or ''}")
            break
    M = T.data_model.Task
    T.install()
    try:
        for r in rows:
            t = M.from_id(r['id'])
            back = M.unpack(t.pack())
            if (t.args, t.tag, t.attempt, t.exit_status) != (r['args'], json.loads(r['tag']), r['attempt'], r['exit_status']):
                out.append(f"{when}: loaded as {t} for {dict(r)}")
                break
            diff = [(k, getattr(t, k), getattr(back, k)) for k in M.columns if getattr(t, k) != getattr(back, k) or not (isinstance(getattr(back, k), type(getattr(t, k))) or isinstance(getattr(t, k), type(getattr(back, k))))]
            if diff:
                out.append(f'{when}: packing and unpacking changes {diff}')
                break
    finally:
        T.drop_sessions()
    return rows


def run_case(case):
    way, texts, tags, pre, template, hosts = case
    out = []
    F = Finish('case', (), dict(restart_mode=True, bundlesize=7, bundlewait=1, max_retries=1, evict_after=60),
               [dict(num_tasks=4, bundlesize=5, bundlewait=1, template=template)], horizon=900.0, offers=(), oracle=lambda *a: [])
    T = get_inst('submitter', db='world.db', site='site-submitter')
    C = F.C(0)
    S = F.S
    inst.fresh_db(S)
    T.reset()
    names = [(x, h) for x, h in zip((T, S, C), hosts or ())]
    keep = [(m, m.HOSTNAME) for x, _ in names for m in x.mods.values() if hasattr(m, 'HOSTNAME')]
    for x, h in names:
        rename(x, h)
    F.named = names
    try:
        want = [pre.replace('{}', x.strip()).strip() for x in texts]
        path = os.path.join(inst.scratch(), 'lines.txt')
        if way in ('file', 'app', 'stdin'):
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(''.join(x + '\n' for x in texts))
        if way == 'iter':
            o = program.run(T, lambda: T.submit.submit_from(list(texts), bundlesize=8, bundlewait=1, template=pre, tags=dict(tags)))
        elif way == 'file':
            o = program.run(T, lambda: T.submit.submit_file(path, bundlesize=8, bundlewait=1, template=pre, tags=dict(tags)))
        elif way == 'app':
            o = program.run(T, lambda: T.submit.SubmitApp.main([path, '-b', '8', '-t', pre]))
        elif way == 'stdin':
            with open(path, encoding='utf-8') as f:
                text = f.read()
            o = program.run(T, lambda: T.submit.SubmitApp.main(['-', '-b', '8', '-t', pre]), stdin=text)
        elif way == 'task':
            def main():
                for x in texts:
                    if T.task.TaskSubmitApp.main(['--', x]) != 0:
                        raise RuntimeError(f'not submitted: {x!r}')
            o = program.run(T, main)
        T.drop_sessions()
        if o.error or o.stuck or way in ('app', 'stdin') and o.status != 0:
            return [f'submission failed: {o.status} {o.error!r}'], hashlib.md5(repr(case).encode("utf-8", "replace")).hexdigest(), len(texts)
        rows = stored(T, S.dbpath, want, tags, 'before the run', out)
        if out or rows is None:
            return out, hashlib.md5(repr(case).encode("utf-8", "replace")).hexdigest(), len(texts)
        F.behaviour = lambda args, env, proc: __import__('fakes').Script(duration=0.2, status=int(len((env or {}).get('TASK_ARGS', '')) % 3 == 1 and (env or {}).get('TASK_ATTEMPT') == '1') * 5)
        seen = []
        F.oracle = lambda scn, w, reason: seen.append(runs(w)) or ends(scn, w, reason)
        r = F.execute('fifo', {})
        out += r.violations
        if out:
            return out, hashlib.md5(repr(case).encode("utf-8", "replace")).hexdigest(), len(texts)
        after = stored(T, S.dbpath, want, tags, 'after the run', out)
        if out:
            return out, hashlib.md5(repr(case).encode("utf-8", "replace")).hexdigest(), len(texts)
        byid = {x['id']: x for x in after}
        for x in rows:
            diff = [(k, x[k], byid[x['id']][k]) for k in FIXED if x[k] != byid[x['id']][k] or type(x[k]) is not type(byid[x['id']][k])]
            if diff:
                out.append(f"{x['args']!r} was changed by running it: {diff}")
        out += chains(after, 2)
        ran = {}
        for x in seen[0]:
            ran.setdefault(x.id, []).append(x)
        for x in after:
            me = ran.get(x['id'], [])
            if len(me) != 1:
                out.append(f"{x['args']!r}/{x['attempt']} was run {len(me)} times")
                continue
            cmd = template.replace('{}', x['args'])
            if me[0].command != cmd or x['command'] != cmd:
                out.append(f"{x['args']!r} was run as {me[0].command!r}, recorded as {x['command']!r}, expected {cmd!r}")
            if me[0].args != x['args']:
                out.append(f"{x['args']!r} sees TASK_ARGS={me[0].args!r}")
            if x['exit_status'] != me[0].status:
                out.append(f"{x['args']!r} ended with {me[0].status}, recorded {x['exit_status']!r}")
            if hosts and (x['submit_host'] != (hosts[0] if x['previous_id'] is None else hosts[1]) or x['server_host'] != hosts[1] or x['client_host'] != hosts[2]):
                out.append(f"hosts {hosts} were recorded as {x['submit_host']!r} {x['server_host']!r} {x['client_host']!r}")
        if hosts:
            H = [c['host'] for c in inst.rows(S.dbpath, 'client')]
            if H != [hosts[2]]:
                out.append(f'client registered as {H}, its host is {hosts[2]}')
        return out[:5], hashlib.md5(repr(case).encode("utf-8", "replace")).hexdigest(), len(texts)
    finally:
        for m, h in keep:
            m.HOSTNAME = h


def chunks(L, n):
    L = list(L)
    return [L[i:i + n] for i in range(0, len(L), n)]


def cases(tier):
    deep = tier == 'thorough'
    words = [x for x in WORDS]
    short = [''.join(p) for n in (1, 2) + ((3,) if deep else ()) for p in itertools.product(LETTERS, repeat=n)]
    out = []

    def add(way, texts, tags={}, pre='{}', template='{}', hosts=None, n=48):
        for c in chunks(texts, n):
            out.append((way, tuple(c), tags, pre, template, hosts))
    for way in ('iter', 'file', 'app', 'stdin', 'task'):
        L = words + list(BLANKS)
        if way in ('iter', 'task'):
            L = L + list(INNER)
        if way == 'task':
            L = [x for x in L if x]
        if way != 'iter':
            L = [x for x in L if not set(x) & set('\r')]
        add(way, L)
        add(way, short if way == 'iter' or deep else short[:len(LETTERS) + 64])
    for pre, template in (('run {} --end', '{}'), ('{}', "sh -c '{}'"), ('"{}"', '{}; {}'), ('{}{}', 'x{}')):
        add('iter', words + list(BLANKS), {}, pre, template)
        if deep:
            add('file', short, {}, pre, template)
    for i, t in enumerate(TAGS):
        for way in ('iter', 'file') if deep else ('iter',):
            for L in chunks(words, 8)[:None if deep else 2]:
                add(way, L + ['b', 'c'], t)
    for h in (('20240101', 'true', '1e5'), ('null', '2024-01-01', '123456789'), ('é', '10:00:00', '20240101T101010')):
        add('iter', words[:10], {'k': 1}, hosts=h)
    return out


def make(tier):
    return Check('P08', [], cases=cases(tier), run_case=run_case,
                 rule='Every text of the listed kinds (look-alikes of numbers, dates, booleans, JSON, quotes, blanks, non-ASCII, control characters, long text) and every text '
                 'up to length 2 (3) over 16 characters is submitted in every way (library, file, command, standard input, single task), read back in every way, run by a real '
                 'server and client with retries, and read back again; tags of every type; host names that look like other types.')
