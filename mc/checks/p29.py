"""P29: initialising never alters what is stored; truncating removes the tasks only when confirmed; nothing is created unless asked for."""
import itertools
import os
import sqlite3
import sys

import sqlalchemy.orm.session

import inst
import program
from explore import Check, get_inst
from spy import Enough, watch

ANSWERS = ('', 'y', 'Y', 'yes', 'YES', 'Yes', '  yes ', 'n', 'N', 'no', 'NO', 'No ', 'x', 'yess', 'nope', 'ye', '1', 'true', 'y n', None)
YES = ('', 'y', 'yes')
STATES = ('absent', 'empty', 'ready', 'used', 'no-client', 'no-task', 'none')
OPS = [('plain',), ('truncate-yes',), ('truncate-piped',), ('yes-only',)] + [('ask', a) for a in ANSWERS]
ARGS = {'plain': [], 'truncate-yes': ['--truncate', '--yes'], 'truncate-piped': ['-t'], 'yes-only': ['-y'], 'ask': ['--truncate']}
PROGRAMS = {'server': ['server', '/dev/null'], 'submit': ['submit', 'FILE'], 'cluster': ['cluster', '/dev/null'], 'launch': ['cluster', '/dev/null', '--launcher', 'x'],
            'restart': ['server', '--restart'], 'forever': ['server', '--forever'], 'search': ['task', 'search', 'id'], 'info': ['task', 'info', '00000000-0000-0000-0000-000000000000'],
            'wait': ['task', 'wait', '00000000-0000-0000-0000-000000000000'], 'update': ['task', 'update', 'tag:x', '--no-confirm', '-w', 'args == zzz'],
            'cancel': ['task', 'update', '--cancel', '--no-confirm', '-w', 'args == zzz'],
            'task-submit': ['task', 'submit', 'echo'], 'run': ['task', 'run', 'echo']}


def copy_of(state, provider='sqlite'):
    kw = {'db': None, 'site': 'site-none'} if state == 'none' else {}
    S = get_inst(f'initdb-{state == "none"}-{provider}', **kw)
    if provider != 'sqlite':
        S.core_config.config.extend(verif={'database': {'provider': provider}})
        assert S.core_config.config.database.provider == provider
    return S


def connect(path):
    return sqlite3.connect(path)


def snapshot(path):
    """{table: rows} or None."""
    if path is None or not os.path.exists(path):
        return None
    c = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
    try:
        names = [r[0] for r in c.execute("select name from sqlite_master where type = 'table'")]
        return {n: sorted(map(repr, c.execute(f'select * from "{n}"').fetchall())) for n in names}
    finally:
        c.close()


def schema(path):
    c = sqlite3.connect(f'file:{path}?mode=ro', uri=True)
    try:
        return dict(c.execute("select name, sql from sqlite_master where type = 'table' or type = 'index'"))
    finally:
        c.close()


def arrange(S, state):
    """Prepare the database; returns the schema of a complete one."""
    if state == 'none':
        return None
    inst.fresh_db(S)
    full = schema(S.dbpath)
    c = connect(S.dbpath)
    if state in ('used', 'no-client', 'no-task'):
        for table in ('task', 'client'):
            cols = [(r[1], r[2], r[3]) for r in c.execute(f'pragma table_info({table})')]
            for i in range(3):
                row = [f'{name}-{i}' if name == 'id' else '2020-01-01 00:00:00.000000' if 'TIME' in typ else i if 'INT' in typ else '{}' if 'JSON' in typ else False if 'BOOL' in typ else f'{name} {i}' if need else None
                       for name, typ, need in cols]
                c.execute(f"insert into {table} values ({', '.join('?' * len(row))})", row)
        c.execute('create table mine (x)')
        c.execute("insert into mine values ('kept')")
    if state in ('no-client', 'no-task'):
        c.execute('drop table ' + state[3:])
    c.commit()
    c.close()
    if state in ('absent', 'empty'):
        os.unlink(S.dbpath)
        if state == 'empty':
            open(S.dbpath, 'w').close()
    return full


def hs(S, argv, stdin='', tty=False, **kw):
    def prepare(w):
        sys.stdout.isatty = lambda: tty
        sys.stdin.isatty = lambda: tty
    S.reset()
    sqlalchemy.orm.session._sessions.clear()        # those of programs that have ended
    r = program.run(S, lambda: S.mods['hypershell'].HyperShellApp.main(argv), stdin=stdin, prepare=prepare, **kw)
    S.drop_sessions()
    return r


def initdb_case(case):
    state, ops = case
    S = copy_of(state)
    full = arrange(S, state)
    out = []
    now = snapshot(S.dbpath)
    for n, op in enumerate(ops):
        before = now
        answer = op[1] if op[0] == 'ask' else None
        # a prompt is never answered unless there is a terminal
        stdin = 'yes\n' if op[0] != 'ask' else '' if answer is None else answer + '\n'
        r = hs(S, ['initdb', *ARGS[op[0]]], stdin, tty=op[0] != 'truncate-piped')
        now = snapshot(S.dbpath)
        text = f'{state} database, {ops[:n + 1]}'
        if r.stuck or r.error is not None:
            out.append(f'{text}: ended with {r.error!r}')
            break
        kept = all((now or {}).get(t) == rows for t, rows in (before or {}).items())
        if state == 'none':
            if r.status != 3:
                out.append(f'{text}: ended with {r.status} without a database')
            continue
        clean = bool(now) and set(schema(S.dbpath)) >= set(full)
        emptied = clean and all(not rows for t, rows in now.items() if t in ('task', 'client')) and all(now.get(t) == rows for t, rows in (before or {}).items() if t not in ('task', 'client'))
        if op[0] in ('plain', 'yes-only'):
            if r.status != 0 or not clean or not kept:
                out.append(f'{text}: ended with {r.status}; the database is {now} after {before}')
        elif op[0] == 'truncate-yes' or op[0] == 'ask' and answer is not None and answer.strip().lower() in YES:
            ready = before is not None and 'task' in before
            if not (r.status == 0 and emptied or op[0] == 'ask' and not ready and kept and r.status != 0):
                out.append(f'{text}: ended with {r.status}; the database is {now} after {before}')
        else:
            no = op[0] == 'ask' and answer is not None and answer.strip().lower() in ('n', 'no')
            if not kept or (r.status == 0) != no and before is not None and 'task' in before:
                out.append(f'{text}: ended with {r.status} without confirmation; the database is {now} after {before}')
    return out[:3], f'{state} {ops[-1]} {now is not None}', len(ops)


def program_case(case):
    """A program that needs the tables: they are made when asked for (or with SQLite); else it ends before doing anything."""
    name, provider, state, ask = case
    S = copy_of(state, provider)
    full = arrange(S, state)
    before = snapshot(S.dbpath)
    src = os.path.join(inst.scratch(), 'one.in')
    with open(src, 'w') as f:
        f.write('one\n')
    argv = [src if x == 'FILE' else x for x in PROGRAMS[name]] + (['--initdb'] if ask else [])
    seen = []
    undo = [watch(c, seen, Enough()) for c in (S.server.ServerThread, S.client.ClientThread)]
    try:
        r = hs(S, argv, horizon=20)
    finally:
        for u in undo:
            u()
    now = snapshot(S.dbpath)
    text = f"{' '.join(argv)} with {provider} and the {state} database"
    out = []
    kept = all((now or {}).get(t) == rows for t, rows in (before or {}).items() if t != 'task' or name not in ('submit', 'task-submit', 'run'))
    if not kept:
        out.append(f'{text}: it went from {before} to {now}')
    have = before is not None and 'task' in before
    started = seen or isinstance(r.error, Enough) or name in ('submit', 'task-submit', 'run') and now and len(now.get('task', ())) > len((before or {}).get('task', ()))
    if provider == 'sqlite' or ask:
        if not now or not set(schema(S.dbpath)) >= set(full):
            out.append(f'{text}: the tables are {sorted(now or ())}')
        if name in ('server', 'submit', 'cluster', 'launch', 'restart', 'forever', 'task-submit', 'run') and not started:
            out.append(f'{text}: it was not started: {r.status} {r.error!r} {r.err}')
    elif not have:
        if started or r.status in (0, None):
            out.append(f'{text}: it went on without its table: {r.status} {r.error!r}')
        if (now or {}) != (before or {}):
            out.append(f'{text}: it made {sorted(now)}')
    elif name in ('server', 'submit', 'cluster', 'launch', 'restart', 'forever', 'task-submit', 'run') and not started:
        out.append(f'{text}: it was not started: {r.status} {r.error!r}')
    return out, f'{name} {provider} {state} {ask} {r.status}', 1


def cases(tier):
    n = 3 if tier == 'thorough' else 2
    few = OPS if tier == 'thorough' else [OPS[i] for i in range(4)] + [('ask', a) for a in ('yes', 'n', 'x', None)]
    L = [('initdb', s, (o,)) for s in STATES for o in OPS]
    L += [('initdb', s, ops) for s in STATES for k in range(2, n + 1) for ops in itertools.product(few if k < 3 else few[:8], repeat=k)]
    for name in PROGRAMS:
        for provider in ('sqlite', 'postgres'):
            for state in STATES[:-1]:
                for ask in (False, True) if name in ('server', 'submit', 'cluster', 'launch', 'restart', 'forever') else (False,):
                    L.append(('program', name, provider, state, ask))
    return L


def run_case(case):
    return {'initdb': initdb_case, 'program': program_case}[case[0]](case[1:])


def make(tier):
    return Check('P29', [], cases=cases(tier), run_case=run_case, rule='')
