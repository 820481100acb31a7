"""P19: template patterns expand exactly as documented."""
import datetime
import itertools
import math
import os

from bench import ClientBench, client_ended, returned_once
from explore import Check, get_inst
from fleet import runs
import inst
import program

ARGS = ['/some/path/to/file.h5', 'file.tar.gz', 'a/b', 'a', '', '.hidden', 'dir.d/name', '/', '/x.y/.z.w', 'a.', 'one two three four five', 'x/1.txt y/2.txt',
        '2', '4.5', '-3', 'null', 'TRUE', 'nOne', 'false', "it's", 'é/ü.ß', '{} {[0]} {=x=}', '}{', 'tab\there  two', '@ $HOME %', '1.10', 'a\\b']
#: arguments that a shell takes as they are
PLAIN = ['/some/path/to/file.h5', 'file.tar.gz', 'a/b', 'a', 'one two three', '2', '4.5']


class Refuse(Exception):
    pass


# ------------------------------------------------------------------------------------- what the documentation says
def base(p):
    return p.split('/')[-1]


def parent(p):
    if '/' not in p:
        return ''
    head = p[:p.rindex('/') + 1]
    return head.rstrip('/') or head


def ext(p):
    b = base(p)
    stem = b.lstrip('.')
    i = stem.rfind('.')
    return stem[i:] if i >= 0 else ''


def cut(p, e):
    return p[:len(p) - len(e)]


def coerced(a):
    low = a.lower()
    if low in ('null', 'none'):
        return None
    if low in ('true', 'false'):
        return low == 'true'
    for kind in (int, float):
        try:
            return kind(a)
        except ValueError:
            pass
    return a


def lam(fn):
    def run(a):
        try:
            return str(fn(coerced(a)))
        except Exception as e:     # noqa
            raise Refuse(str(e)) from None
    return run


def refused(a):
    raise Refuse()


def sliced(parts):
    """parts: list of text, as in start:stop:step."""
    def run(a):
        ws = a.split()
        ns = [int(x) if x else None for x in parts]
        if len(ns) == 1:
            i = ns[0]
            if i >= len(ws) or i < -len(ws):
                raise Refuse()
            return ws[i]
        step = ns[2] if len(ns) > 2 and ns[2] is not None else 1
        if step == 0:
            raise Refuse()
        n = len(ws)
        lo, hi = (0, n) if step > 0 else (-1, n - 1)
        def bound(v, default):
            if v is None:
                return default
            return min(max(v + n if v < 0 else v, lo), hi)
        i, j = bound(ns[0], 0 if step > 0 else n - 1), bound(ns[1], n if step > 0 else -1)
        out = []
        while (i < j) if step > 0 else (i > j):
            out.append(ws[i])
            i += step
        return ' '.join(out)
    return run


PATH = {
    '{}': lambda a: a,
    '{.}': parent,
    '{..}': lambda a: parent(parent(a)),
    '{/}': base,
    '{/-}': lambda a: cut(base(a), ext(a)),
    '{-}': lambda a: cut(a, ext(a)),
    '{+}': ext,
    '{++}': lambda a: ext(a)[1:],
    '{ / }': base,
}
LAMBDA = {
    '{= x =}': lam(lambda x: x),
    '{=x=}': lam(lambda x: x),
    '{= x + 1 =}': lam(lambda x: x + 1),
    '{= x * 3 =}': lam(lambda x: x * 3),
    '{= x == 2 =}': lam(lambda x: x == 2),
    '{= [x, x==2, x<=3] =}': lam(lambda x: [x, x == 2, x <= 3]),
    '{= type(x).__name__ =}': lam(lambda x: type(x).__name__),
    '{= x * math.pi =}': lam(lambda x: x * math.pi),
    '{= path.basename(x) =}': lam(lambda x: os.path.basename(x)),
    '{= os.path.join(x, "=") =}': lam(lambda x: os.path.join(x, '=')),
    '{= dt.datetime.fromtimestamp(x, dt.timezone.utc) =}': lam(lambda x: datetime.datetime.fromtimestamp(x, datetime.timezone.utc)),
    '{= x.split("=") =}': lam(lambda x: x.split('=')),
    '{= undefined =}': refused,
    '{= x[99] =}': refused,
    '{= x + =}': refused,
    '{==}': refused,
}
SHELL = {
    '{% printf %s-%s @ %}': lambda a: None,       # filled in below: depends on the number of words
    '{% basename @ %}': lambda a: base(a),
    '{%dirname @%}': lambda a: parent(a) or '.',
    '{% echo 50% of @ %}': lambda a: f'50% of {a}',
    '{% echo constant %}': lambda a: 'constant',
    '{% echo; echo two; echo %}': lambda a: 'two',
    '{% echo "@" "@" %}': lambda a: f'{a} {a}',
    '{% echo 5%@ %}': lambda a: f'5%{a}',
    '{% exit 2 %}': refused,
    '{% false %}': refused,
    '{% echo @; exit 3 %}': refused,
    '{% /nowhere/program @ %}': refused,
    '{% kill -9 $$ %}': refused,
}


def printf(a):
    ws = a.split()
    return ''.join('-'.join((ws[i:i + 2] + [''])[:2]) for i in range(0, len(ws), 2))


SHELL['{% printf %s-%s @ %}'] = printf
ONE_WORD = {'{% basename @ %}', '{%dirname @%}'}
UNKNOWN = ['{x}', '{[0]x}', '{x[0]}', '{[0}', '{0]}', '{[0] [1]}', '{...}', '{//}', '{+-}', '{-/}', '{---}', '{=x}', '{x=}', '{%x}', '{x%}',
           '{[]}', '{[a]}', '{[0,1]}', '{[0:1:1:1]}', '{[1.5]}', '{[-]}', '{[--1]}', '{[0]]}', '{[x for x in chunks]}', '{/.}', '{./}', '{+.}', '{$(id)}']
LITERAL = ['', 'run ', ' ', 'a.b/', '}', '[0]', '@', '%', '=x=', "'q' ", '$X\\n', 'é', '\n']


def slices(deep):
    ns = ['', '0', '1', '2', '-1', '-2', '-7', '12'] if deep else ['', '0', '1', '-1', '-2', '12']
    out = [[x] for x in ns if x] + [list(x) for x in itertools.product(ns, repeat=2)]
    out += [list(x) for x in itertools.product(ns if deep else ['', '1', '-2'], ns if deep else ['', '3', '-1'], ['', '1', '2', '-1', '-2', '0'])]
    return {'{[' + ':'.join(x) + ']}': sliced(x) for x in out}


def expected(pieces, table, a):
    """None: refused."""
    out = ''
    try:
        for p in pieces:
            f = table.get(p)
            out += p if f is None else f(a)
        return out
    except Refuse:
        return None


def expand(T, template, a):
    try:
        return T(template).expand(a)
    except Exception as e:     # noqa
        return None if isinstance(e, T.Error) else f'raised {type(e).__name__}: {e}'


def cases(tier):
    deep = tier == 'thorough'
    table = tables(deep)
    pats = [p for p in table if p not in SHELL]
    short = list(PATH) + ['{= x + 1 =}', '{= x == 2 =}', '{[0]}', '{[1:3]}' if '{[1:3]}' in table else '{[1:]}', '{[-1]}', '{x}', '{[0]x}']
    out = []
    for p in pats:
        out.append(('one', (p,), None))
        out.append(('around', (p,), None))
    for p in (pats if deep else short):
        out.append(('two', (p,), tuple(pats if deep else short)))
    if deep:
        for p, q in itertools.product(short, repeat=2):
            out.append(('three', (p, q), tuple(short)))
    else:
        some = ['{}', '{/-}', '{= x + 1 =}', '{[-1]}', '{x}']
        for p, q in itertools.product(some, repeat=2):
            out.append(('three', (p, q), tuple(some)))
    for p in SHELL:
        out.append(('shell', (p,), None))
        out.append(('shell', ('{}', ' ', p), None))
        out.append(('shell', (p, '/', '{/}'), None))
        if deep:
            for q in SHELL:
                out.append(('shell', (p, ' ', q), None))
    for t in ['{}', '{= x + 1 =}', '{= [x, x==2, x<=3] =}', '{[0]}', '{[-1]} {/-}', 'run {.}/{+}', '{= undefined =}']:
        out.append(('sequence', (t,), None))
    for t in ['run {}', '{/-}.out', '{[-1]} {[0]}', '{= x == 2 =}', '{= x * 3 =}', '{[0]x}', '{[1]}', '{% echo 5%@ %}', 'no pattern', '{% exit 2 %}']:
        for n in (1, 2):
            out.append(('client', (t,), n))
        out.append(('submit', (t,), None))
    return out


_TABLES = {}


def tables(deep):
    if deep not in _TABLES:
        t = {}
        t.update(PATH)
        if deep:
            t.update(slices(False))
        t.update(slices(deep))
        t.update(LAMBDA)
        t.update({u: refused for u in UNKNOWN})
        t.update(SHELL)
        _TABLES[deep] = t
    return _TABLES[deep]


def split(template):
    """The pieces of one of our own templates."""
    out, i = [], 0
    t = tables(True)
    while i < len(template):
        for p in sorted(t, key=len, reverse=True):
            if template.startswith(p, i):
                out.append(p)
                i += len(p)
                break
        else:
            out.append(template[i])
            i += 1
    return out


def run_case(case):
    kind, pieces, more = case
    table = tables(True)
    if kind in ('client', 'submit'):
        return through(kind, pieces[0], more)
    T = get_inst('template', db=None).core_template.Template
    msgs, seen, n = [], set(), 0

    def check(ps, args=ARGS):
        nonlocal n
        t = ''.join(ps)
        for a in args:
            n += 1
            want, got = expected(ps, table, a), expand(T, t, a)
            seen.add((t, a))
            if want != got:
                msgs.append(f'template {t!r} for {a!r} gives {got!r}, expected ' + ('an error' if want is None else repr(want)))
                if len(msgs) > 3:
                    return
    if kind == 'one':
        check(pieces)
    elif kind == 'around':
        for a, b in itertools.product(LITERAL, repeat=2):
            check((a,) + pieces + (b,), ARGS[:4] + ARGS[10:13])
        check(pieces + ('{',))
    elif kind in ('two', 'three'):
        few = ARGS[:1] + ARGS[10:13] + ARGS[20:22]
        for q in more:
            for sep in (('', ' ') if kind == 'two' else ('/',)):
                ps = []
                for x in pieces + (q,):
                    ps += [x, sep]
                check(tuple(ps), few)
    elif kind == 'shell':
        args = PLAIN
        if any(p in ONE_WORD for p in pieces):
            args = [a for a in PLAIN if ' ' not in a]
        check(pieces, args)
    elif kind == 'sequence':
        t = pieces[0]
        one = T(t)
        for seq in itertools.product(ARGS[:1] + ARGS[10:16], repeat=3):
            for a in seq:
                n += 1
                try:
                    got = one.expand(a)
                except T.Error:
                    got = None
                want = expected(split(t), table, a)
                if got != want:
                    msgs.append(f'template {t!r} used for {seq}: {a!r} gives {got!r}, expected {want!r}')
                    break
            seen.add((t, seq))
            if len(msgs) > 3:
                break
    return msgs, [repr(x) for x in seen], n


LINES = ['/some/path/to/file.h5 b', '2', 'x.y']


class Through(ClientBench):
    real_shell = True           # of the commands in patterns

    def __init__(self, template, n):
        self.template = template
        super().__init__('template', [(0, LINES)], dict(num_tasks=n, bundlesize=1, bundlewait=1, template=template),
                         {'default': {'duration': 1, 'status': 0}}, oracle=Through.oracle, horizon=200.0)

    def oracle(self, w, reason):
        out = []
        if not client_ended(w, reason, out):
            return out
        ret = {t['args']: t for _, _, t, _ in returned_once(w, out)}
        ran = {}
        for r in runs(w):
            ran.setdefault(r.args, []).append(r.command)
        for a in LINES:
            want = expected(split(self.template), tables(True), a)
            if want is None and a in ran:
                out.append(f'template {self.template!r} for {a!r}: refused, and yet {ran[a]} was run')
            if want is not None and ran.get(a) != [want]:
                out.append(f'template {self.template!r} for {a!r}: ran {ran.get(a)}, expected {want!r}')
            if a not in ret:
                out.append(f'{a!r} did not come back')
            elif want is None and not ret[a]['exit_status']:
                out.append(f"template {self.template!r} for {a!r}: refused, and yet returned with exit status {ret[a]['exit_status']}")
        return out


def through(kind, template, n):
    if kind == 'client':
        scn = Through(template, n)
        # the shell of a pattern is the real one
        r = scn.execute('fifo', {})
        return r.violations, f'{template} {n}', 1
    S = get_inst('submitter')
    S.reset()
    inst.fresh_db(S)
    want = [expected(split(template), tables(True), a) for a in LINES]
    r = program.run(S, lambda: S.submit.submit_from(list(LINES), template=template, bundlesize=2, bundlewait=1), scenario=Through)
    failed = 'no end' if r.stuck else r.error
    got = [r['args'] for r in inst.rows(S.dbpath, 'task')]
    msgs = []
    ok = list(itertools.takewhile(lambda x: x is not None, want))
    if None in want:
        if failed is None:
            msgs.append(f'submission with {template!r} reports success although {LINES[len(ok)]!r} cannot be expanded')
        if got != ok[:len(got)]:
            msgs.append(f'submission with {template!r} stored {got}')
    elif failed or got != want:
        msgs.append(f'submission with {template!r} stored {got} ({failed}), expected {want}')
    return msgs, f'submit {template}', 1


def make(tier):
    return Check('P19', cases=cases(tier), run_case=run_case,
                 rule='Cases: every template of one pattern between every pair of literal texts, of two and (from a smaller set) three patterns, x arguments over '
                 'path, extension, word, number, keyword and brace pieces; patterns are every path pattern, every slice with up to three bounds over a set '
                 'including negative, missing, out-of-range and zero, expressions, shell commands, and unknown ones; every sequence of three expansions; '
                 'and the same through the real client and the real submission.',
                 assumptions=['The expected value is computed by a separate implementation of the documented rules (mc/checks/p19.py).',
                              'Expressions containing a closing brace are outside the documented patterns.'])
