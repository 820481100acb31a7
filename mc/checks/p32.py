"""P32: only programs given the same key work together."""
import collections
import itertools
import multiprocessing
import os

import fakes
import inst
import program
from explore import Check, get_inst
from fleet import Fleet, runs, traffic
from sched import EPOCH

SERVER, CLIENT = 'server', 'client'
#: key texts, many of which look like something that is not text
KEYS = ('secret', '12345', '0123', '123', '1.10', '1.1', '1e3', '1000.0', 'true', 'True', 'a b', 'é ß', '%$"\'', 'Secret', 'secre', 'secret2', '0', '-1', '+5', '5', '1_0', '10', 'inf', 'nan')
WAYS = ('option', 'env', 'file', 'number')
REFUSED = 5
#: different texts which stand for the same number
LOOKALIKE = ({'0123', '123'}, {'1.10', '1.1'}, {'1e3', '1000.0'}, {'+5', '5'}, {'1_0', '10'}, {'0', 'secret'})


def possible(way, key):
    if way == 'number':
        return key.isdigit() and str(int(key)) == key          # an integer in the configuration file
    return True


def copy_of(role, way, key):
    """The program with its key in the environment or configuration file (or the option is used)."""
    if way in ('option',):
        return get_inst(f'{role}-plain', **({} if role == SERVER else {'db': None, 'site': 'site-p32-client'}))
    n = f'{role}-{way}-{KEYS.index(key)}'
    site = f'site-{n}'
    d = os.path.join(inst.scratch(), site)
    os.makedirs(d, exist_ok=True)
    if way in ('file', 'number'):
        with open(os.path.join(d, 'config.toml'), 'w') as f:
            text = key if way == 'number' else '"' + key.replace('\\', '\\\\').replace('"', '\\"') + '"'
            f.write(f'[server]\nauth = {text}\n')
    env = {'HYPERSHELL_SERVER_AUTH': key} if way == 'env' else {}
    return get_inst(n, site=site, env=env, **({} if role == SERVER else {'db': None}))


def option(way, key):
    return [f'--auth={key}'] if way == 'option' else []


def pair_case(case):
    """One server, one client that starts later; the client works exactly if the keys are the same text."""
    sway, skey, cway, ckey, mode = case
    S, C = copy_of(SERVER, sway, skey), copy_of(CLIENT, cway, ckey)
    for x in (S, C):
        x.reset()
    inst.fresh_db(S)
    path = os.path.join(inst.scratch(), 'tasks.in')
    with open(path, 'w') as f:
        f.write('a\nb\n')
    more = ['--no-db'] if mode == 'no-db' else []
    second = []

    def join(w):
        def main():
            C.core_signal.register_handlers()
            return C.client.ClientApp.main(['-N', '2', '-o', os.devnull, '-e', os.devnull, *option(cway, ckey)])
        second.append(w.add_proc('client', C, main))

    def stop(w):
        if w.server_proc.exit is None and second[0].exit is not None:
            w.kill(w.server_proc)

    done = []

    def behaviour(args, env, proc):
        done.append(env['TASK_ARGS'])
        return fakes.Script(1.0, kind='task')

    def prepare(w):
        w.server_proc = w.procs[0]
    r = program.run(S, lambda: S.server.ServerApp.main([path, *more, *option(sway, skey)]), horizon=90, at=[(3, join), (30, stop)], prepare=prepare, until_all=True, signals=True, behaviour=behaviour)
    out = []
    who = f'server with {skey!r} ({sway}), client with {ckey!r} ({cway}){" without database" if more else ""}'
    p = second[0]
    n = collections.Counter(done)
    if skey == ckey:
        if p.exit != ('ok', 0) or r.status != 0:
            out.append(f'{who}: the client ended with {p.exit}, the server with {r.status} {r.error!r} {r.err[-300:]}')
        if n != {'a': 1, 'b': 1}:
            out.append(f'{who}: executed {dict(n)}')
    else:
        if p.exit != ('ok', REFUSED):
            out.append(f'{who}: the client ended with {p.exit} {r.err[-300:]}')
        elif p.exit_time - EPOCH > 3.5:
            out.append(f'{who}: the client ended at {p.exit_time - EPOCH:.1f} s')
        if n:
            out.append(f'{who}: executed {dict(n)}')
        if not more and inst.rows(S.dbpath, 'client'):
            out.append(f'{who}: the client is registered')
        if r.status is not None or r.error is not None:
            out.append(f'{who}: the server ended with {r.status} {r.error!r}')
    return out, f'{skey == ckey} {p.exit} {r.status}', 1


def library_case(case):
    """The queue interface made from the configuration has the configured key and address."""
    way, key, = case
    S = copy_of(SERVER, way, key)
    S.reset()
    want = key if way != 'option' else S.core_queue.QueueConfig.auth
    out, got = [], []

    def main():
        with S.core_queue.QueueServer.new() as server:
            with S.core_queue.QueueClient(S.core_queue.QueueConfig(host='localhost', port=server.config.port, auth=want)) as client:
                client.heartbeat.put(b'1')
                got.append(server.heartbeat.get(timeout=5))
            try:
                with S.core_queue.QueueClient(S.core_queue.QueueConfig(host='localhost', port=server.config.port, auth=want + 'x')):
                    got.append('accepted')
            except multiprocessing.AuthenticationError:
                got.append('refused')
            with S.core_queue.QueueClient.new() as client:
                client.completed.put(b'2')
                got.append(server.completed.get(timeout=5))
    r = program.run(S, main, horizon=60)
    if r.error is not None or r.stuck or got != [b'1', 'refused', b'2']:
        out.append(f'queue interface with key {key!r} ({way}): {got} {r.error!r}')
    return out, 'library', 1


def run_case(case):
    return {'pair': pair_case, 'library': library_case}[case[0]](case[1:])


def cases(tier):
    deep = tier == 'thorough'
    L = []
    all_ = [(w, k) for w in WAYS for k in KEYS if possible(w, k)]
    for (sw, sk), (cw, ck) in itertools.product(all_, all_):
        near = sk != ck and (sk.lower() == ck.lower() or sk.startswith(ck) or ck.startswith(sk) or {sk, ck} in LOOKALIKE)
        if sk == ck or deep or near and (sw == cw or 'number' in (sw, cw)):
            for mode in ('db', 'no-db') if deep or sk == ck and sw == cw else ('db',):
                L.append(('pair', sw, sk, cw, ck, mode))
    L += [('library', w, k) for w, k in all_]
    return L


# ------------------------------------------------------------------------------------------ intruders at any moment
def oracle(scn, w, reason):
    out = []
    if reason != 'until':
        return [f'the run does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}']
    if w.server.exit[0] != 'ok':
        out.append(f'the server ended with {w.server.exit}')
    for i, c in enumerate(w.clients):
        name = scn.cnames[i]
        if scn.clients[i]['auth'] == scn.server['auth']:
            if c.exit[0] not in ('ok', 'never'):
                out.append(f'{name} ended with {c.exit}')
            continue
        if c.exit[0] == 'exc' and isinstance(c.exit[1], (multiprocessing.AuthenticationError, ConnectionRefusedError, ConnectionResetError, EOFError)) or c.exit[0] == 'never':
            pass
        else:
            out.append(f'{name} (other key) ended with {c.exit}')
        if any(p == name for op, q in (('get', 'scheduled'), ('put', 'completed'), ('put', 'heartbeat'), ('put', 'confirmed')) for _, p, _ in traffic(w, op, q)):
            out.append(f'{name} (other key) used a queue')
        if any(r.client == name for r in runs(w)):
            out.append(f'{name} (other key) executed a task')
        if scn.db and scn.C(i).instance in {r['id'] for r in scn.rows('client')}:
            out.append(f'{name} (other key) is registered')
    n = collections.Counter(r.args for r in runs(w))
    if n != collections.Counter(scn.tasks):
        out.append(f'executed {dict(n)} for {scn.tasks}')
    if scn.db:
        for r in scn.rows():
            if r['completion_time'] is None or r['exit_status'] is None:
                out.append(f"{r['args']} has no result")
    return out


def make(tier):
    deep = tier == 'thorough'
    S = []
    pol = ('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')
    for name, wrong in (('longer', 'keyx'), ('case', 'Key'), ('default', None)):
        cl = [dict(num_tasks=1, bundlesize=1, bundlewait=1, auth='key', at=2), dict(num_tasks=1, bundlesize=1, auth=wrong, at=1), dict(num_tasks=2, bundlesize=1, auth=wrong, at=4.5)]
        for c in cl:
            if c['auth'] is None:
                c['auth'] = '__HYPERSHELL__BAD__AUTHKEY__'
        for db in (True, False):
            S.append(Fleet(f'intruders-{name}{"" if db else "-nodb"}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, auth='key', in_memory=not db), cl, {'b': 3}, oracle=oracle, policies=pol,
                           depth=2 if deep and db and name == 'default' else 1, db=db))
    return Check('P32', S, cases=cases(tier), run_case=run_case)
