"""A task table containing every state a task can be in, a reference for the conditions of search and update, and a runner for
the task commands."""
import collections
import datetime as dt
import json
import os
import re
import sqlite3

import inst
import program
from explore import get_inst

FIELDS = ['id', 'args', 'submit_id', 'submit_time', 'submit_host', 'server_id', 'server_host', 'schedule_time', 'client_id', 'client_host',
          'command', 'start_time', 'completion_time', 'exit_status', 'outpath', 'errpath', 'attempt', 'retried', 'waited', 'duration',
          'previous_id', 'next_id', 'tag']
TIMES = ('submit_time', 'schedule_time', 'start_time', 'completion_time')
TEXTS = ('id', 'args', 'submit_id', 'submit_host', 'server_id', 'server_host', 'client_id', 'client_host', 'command', 'outpath', 'errpath',
         'previous_id', 'next_id')
INTS = ('exit_status', 'attempt', 'waited', 'duration')
BASE = dt.datetime(2030, 1, 1, 12, 0, 0)


def uid(n, kind=0):
    return f'{kind:08x}-0000-4000-8000-{n:012x}'


def at(sec):
    return BASE + dt.timedelta(seconds=sec)


def task(n, args, state, status=None, attempt=1, retried=False, prev=None, nxt=None, tag=None, host='h1', dur=60, sub=None):
    """state: new, queued (scheduled), assigned, done, cancelled."""
    r = dict.fromkeys(FIELDS)
    r.update(id=uid(n), args=args, submit_id=uid(1, 1), submit_time=at(n if sub is None else sub), submit_host='sh', attempt=attempt, retried=retried,
             previous_id=prev and uid(prev), next_id=nxt and uid(nxt), tag=tag or {})
    if state == 'cancelled':
        r.update(schedule_time=at(100 + n), exit_status=-1)
    elif state != 'new':
        r.update(schedule_time=at(50 + n), server_id=uid(2, 2), server_host='srv')
        if state != 'queued':
            r.update(client_id=uid(3 if host == 'h1' else 4, 3), client_host=host)
        if state == 'done':
            r.update(command=f'run {args}', start_time=at(60 + n), completion_time=at(60 + n + dur), exit_status=status, waited=50, duration=dur,
                     outpath=f'/out/{n}.out' if n % 2 else None, errpath=f'/out/{n}.err' if n % 2 else None)
            if dur == 0:
                r.update(waited=0)
    return r


TABLE = [
    task(1, 'new one', 'new'),
    task(2, 'new two', 'new', tag={'a': ''}, sub=1),
    task(3, 'queued', 'queued', tag={'a': 1, 'b': 'x'}),
    task(4, 'echo "hi there"', 'assigned', tag={'a': True}),
    task(5, "é ß '5' [red]x[/red] :smile:", 'assigned', host='h2', tag={'a': None, 'b': ''}),
    task(6, '20240101', 'done', 0, tag={'a': '1x', 'c': 1.5}, dur=600),
    task(7, 'null', 'done', 0, host='h2', tag={'a': 0}, dur=599),
    task(8, 'fail', 'done', 1, retried=True, nxt=9, tag={'a': False, 'b': 'y'}),
    task(9, 'fail', 'done', 2, attempt=2, prev=8, tag={'a.b': 2, 'b': 'y'}, dur=1200),
    task(10, 'killed', 'done', -15, tag={'a.b': 'x+y', 'a': 1}, dur=0),
    task(11, 'cancelled', 'cancelled', tag={'b': 'x'}),
    task(12, 'x == 1, "y"', 'new', tag={'a': 2, 'a.b': ''}),
]


def raw_time(v):
    return None if v is None else v.strftime('%Y-%m-%d %H:%M:%S.%f')


def load(path):
    """The table as dicts of Python values, read without the code under test."""
    out = []
    for r in inst.rows(path):
        for f in TIMES:
            if r[f] is not None:
                r[f] = dt.datetime.fromisoformat(r[f])
        r['retried'] = {0: False, 1: True}.get(r['retried'], r['retried'])
        try:
            r['tag'] = json.loads(r['tag'])
        except ValueError:
            r['tag'] = ('unreadable', r['tag'])
        out.append({f: r[f] for f in FIELDS})
    return out


_BYTES = {}


def fill(S, table=None):
    """Put the table in the database of this copy."""
    key = (os.getpid(), S.dbpath, None if table is None else repr(table))
    S.reset()
    if key not in _BYTES:
        inst.fresh_db(S)
        c = sqlite3.connect(S.dbpath)
        for r in TABLE if table is None else table:
            v = [raw_time(r[f]) if f in TIMES else json.dumps(r[f]) if f == 'tag' else r[f] for f in FIELDS]
            c.execute(f"insert into task ({','.join(FIELDS)}) values ({','.join('?' * len(FIELDS))})", v)
        c.commit()
        c.close()
        with open(S.dbpath, 'rb') as f:
            _BYTES[key] = f.read()
    for suffix in ('-journal', '-wal', '-shm'):
        if os.path.exists(S.dbpath + suffix):
            os.unlink(S.dbpath + suffix)
    with open(S.dbpath, 'wb') as f:
        f.write(_BYTES[key])


def copy():
    return get_inst('tasks', db='tasks.db', site='site-tasks', env={'COLUMNS': '4000'})


def command(S, app, argv, stdin='', **k):
    """Run one task command in its own program."""
    keep = os.environ.get('COLUMNS')
    os.environ['COLUMNS'] = '4000'
    try:
        return program.run(S, lambda: getattr(S.task, app).main(list(argv)), stdin=stdin, **k)
    finally:
        if keep is None:
            del os.environ['COLUMNS']
        else:
            os.environ['COLUMNS'] = keep
        S.drop_sessions()


# --------------------------------------------------------------------------------------- reference conditions
def known(v):
    return v is not None


OPS = {'==': lambda a, b: a == b, '!=': lambda a, b: a != b, '>=': lambda a, b: a >= b, '<=': lambda a, b: a <= b,
       '>': lambda a, b: a > b, '<': lambda a, b: a < b, '~': lambda a, b: re.search(b, a) is not None}


def where(field, op, value, text=None):
    """(text of the condition, predicate): an unset field satisfies only == null."""
    def pred(r):
        if value is None:
            return (r[field] is None) == (op == '==')
        return r[field] is not None and OPS[op](r[field], value)
    return ('w', text or f'{field} {op} {"null" if value is None else str(value).lower() if isinstance(value, bool) else value}', pred)


NAKED = object()


def tagged(key, value=NAKED, text=None):
    def pred(r):
        if value is NAKED:
            return key in r['tag']
        if key not in r['tag']:
            return False
        v = r['tag'][key]
        return type(v) is type(value) and v == value
    shown = {None: 'null', True: 'true', False: 'false'}.get(value if value is None or isinstance(value, bool) else 'other', value)
    return ('t', text or (key if value is NAKED else f'{key}:{shown}'), pred)


ALIAS = {'-F': lambda r: known(r['exit_status']) and r['exit_status'] != 0, '-S': lambda r: r['exit_status'] == 0,
         '-C': lambda r: known(r['exit_status']), '-R': lambda r: r['exit_status'] is None}
CONDITIONS = (
    [where('exit_status', o, v) for o, v in (('==', 0), ('==', 1), ('!=', 0), ('>=', 1), ('<=', 0), ('>', 0), ('<', 0), ('==', None), ('!=', None),
                                             ('==', -1), ('>=', -15), ('<=', -1))]
    + [where('exit_status', '>=', 0, 'exit_status>=0'), where('exit_status', '!=', 0, 'exit_status   !=0')]
    + [where('args', o, v) for o, v in (('==', 'fail'), ('!=', 'fail'), ('~', '^new'), ('~', 'e$'), ('~', '[0-9]'), ('==', '20240101'), ('>', 'k'), ('<=', 'fail'),
                                        ('==', 'echo "hi there"'), ('~', 'é'), ('==', 'x == 1, "y"'))]
    + [where('duration', o, v) for o, v in (('>=', 600), ('<', 600), ('>', 599), ('<=', 0), ('==', 0), ('==', None))]
    + [where('attempt', '>=', 2), where('attempt', '<', 2), where('attempt', '!=', 1), where('waited', '==', None), where('waited', '>', 0)]
    + [where('retried', '==', True), where('retried', '==', False), where('retried', '!=', True)]
    + [where('client_host', '==', 'h1'), where('client_host', '!=', 'h1'), where('client_host', '==', None), where('client_id', '==', uid(4, 3))]
    + [where('previous_id', '!=', None), where('next_id', '==', uid(9)), where('id', '==', uid(4)), where('schedule_time', '==', None),
       where('completion_time', '!=', None), where('command', '~', 'run'), where('outpath', '==', None), where('server_host', '==', 'srv')])
TAGS = ([tagged('a'), tagged('a.b'), tagged('b'), tagged('zz'), tagged('a', '', 'a:')][:4]
        + [tagged('a', 1), tagged('a', 0), tagged('a', True), tagged('a', False), tagged('a', None), tagged('a', '1x'), tagged('a', 2),
           tagged('b', 'x'), tagged('b', 'y'), tagged('b', None), tagged('a.b', 2), tagged('a.b', 'x+y'), tagged('c', 1.5), tagged('zz', 1), tagged('zz', None),
           tagged('a', 'X')])
ALIASES = [('a', k, v) for k, v in ALIAS.items()]


def options(conds):
    """Command-line options for these conditions."""
    out = [t for k, t, _ in conds if k == 'a']
    for kind, opt in (('w', '-w'), ('t', '-t')):
        xs = [t for k, t, _ in conds if k == kind]
        if xs:
            out += [opt] + xs
    return out


def select(table, conds):
    return [r for r in table if all(p(r) for _, _, p in conds)]
