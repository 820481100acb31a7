"""P02: a finite run always ends, and not before everything is done."""
import datetime
import itertools
from explore import Check
from fleet import ALL_LINES, SERVER_LINES, Fleet, runs, ends
from sched import EPOCH


def oracle(scn, w, reason, dead=()):
    out = []
    # clients that never registered with the running server are outside the property
    out = [m for m in ends(scn, w, reason, dead)]
    if out:
        return out
    rows = scn.rows()
    done = sorted(r['args'] for r in rows if r['completion_time'] is not None and not r['retried'])
    if done != sorted(scn.tasks):
        out.append(f'everything has ended but only {done} of {sorted(scn.tasks)} are done (records: '
                   + ', '.join(f"{r['args']}/{r['attempt']}:{r['exit_status']}" for r in rows) + ')')
    attempts = scn.server.get('max_retries', 0) + 1
    for r in rows:
        if not r['retried'] and r['exit_status'] not in (0, None) and r['attempt'] < attempts and r['completion_time']:
            out.append(f"ended although {r['args']} (attempt {r['attempt']}) was to be retried")
    for r in runs(w):
        if r.end is None or w.server.exit_time < r.end:
            out.append(f'the server ended while {r.args} was running')
    return out


def dying(scn, w, reason):
    dead = {p.name for p in w.clients if p is not None and p.exit and p.exit[0] == 'killed'}
    rows = scn.rows()
    finished = all(r['completion_time'] for r in rows) and len(rows) == len(scn.tasks)
    if len(dead) == len(scn.clients) and not finished:
        return []           # nobody is left to do the work
    if scn.known_gap(w) and not finished:
        return []           # listed finding, judged on its own history below
    if reason != 'until':
        return ends(scn, w, reason, dead)
    return oracle(scn, w, reason, dead)


def die(scn, w):
    for p in w.clients:
        if p is not None:
            w.kill(p)


def join(i):
    return lambda scn, w: scn.start_client(w, i)


def unconfirmed():
    """Known finding: tasks a client has taken from the server but not yet confirmed are lost with it: they are never
    handed out again while this server runs, so it never ends (a restart of the server runs them)."""
    hb = dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=2)
    hit = []

    def lost(scn, w, reason):
        rows = scn.rows()
        if scn.known_gap(w) and reason != 'until' and any(r['schedule_time'] and not r['client_id'] and not r['completion_time'] for r in rows):
            hit.append(1)
        return []
    scn = Fleet('unconfirmed', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=10), [dict(hb, at=2), dict(hb, at=2.5)],
                oracle=lost, offers=('crash:client1',), depth=1, starve=False)
    alts = scn.execute('fifo', {}).alts
    for i, alt in enumerate(alts):
        for j in range(alt):
            scn.execute('fifo', {i: j + 1})
            if hit:
                return True
    return False


FINDINGS = {'unconfirmed': unconfirmed}


def silent(scn, w, reason):
    """A client that was evicted and did not show up again may find the server gone."""
    out = ends(scn, w, reason, also=evicted(scn, w))
    rows = scn.rows()
    if not out:
        out = [f"{r['args']} was not completed" for r in rows if r['exit_status'] is None]
    return out


def evicted(scn, w):
    gone = {r['id'] for r in scn.rows('client') if r['evicted']}
    return {c.name for c in w.clients if c is not None and c.inst is not None and c.inst.instance in gone}


def library(scn, w):
    """As in the documentation of the library: a server without any source of tasks, restarted on its database."""
    T = scn.S.server.ServerThread.new(restart_mode=True, **scn.server)
    T.join()


def stored(n):
    """All tasks are in the database before the server starts, the first n of them completed."""
    def prepare(scn):
        S = scn.S
        T = S.data_model.Task
        S.install()
        at = datetime.datetime.fromtimestamp(EPOCH - 100).astimezone()
        old = dict(schedule_time=at, start_time=at, completion_time=at, exit_status=0, client_id=S.instance, client_host='h', server_id=S.instance,
                   server_host='h', command='x', duration=0, waited=0)
        T.add_all([T.new(args=a, **(old if i < n else {})) for i, a in enumerate(scn.tasks)])
        S.drop_sessions()
    return prepare


def make(tier):
    deep = tier == 'thorough'
    S = []
    c1 = dict(num_tasks=1, bundlesize=1, bundlewait=2)
    # slow input, at every combination of pauses
    for gaps in itertools.product((0, 4, 13), repeat=2):
        S.append(Fleet(f'feed-{gaps[0]}-{gaps[1]}', ('a', 'b', 'c'), dict(bundlesize=2, bundlewait=1), [c1],
                       feed=(0,) + gaps, oracle=oracle, depth=1 if gaps in ((13, 4), (4, 0)) or deep else 0,
                       policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'rr')))
    S.append(Fleet('feed-late-eof', ('a', 'b'), dict(bundlesize=1, bundlewait=1), [c1], feed=(0, 3, 20), oracle=oracle, depth=1,
                   policies=('fifo',)))
    S.append(Fleet('no-input', (), dict(bundlesize=1), [c1], feed=(1,), oracle=oracle, depth=1))
    # nothing is submitted by the server itself
    for n in (0, 1, 2, 3):
        S.append(Fleet(f'restart-{n}-done', ('a', 'b', 'c'), dict(bundlesize=1), [c1], prepare=stored(n), main=library, oracle=oracle, depth=1, policies=('fifo', 'lifo')))
    # a client that joins at every single point of the run
    for at2 in ((2,) if not deep else (2, 6)):
        S.append(Fleet(f'late-client-{at2}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1), [dict(c1, at=2), dict(c1, at=None)],
                       oracle=oracle, offers=(), events={'join': join(1)}, depth=1, policies=('fifo', 'rr', 'lifo')))
    # a client that dies at any of its own points while another one survives
    plan = {'b': {'duration': 2.0, 'status': 0}}
    hb = dict(num_tasks=1, bundlesize=1, bundlewait=1, heartrate=2)
    for b in (1, 2):
        S.append(Fleet(f'dying-client-b{b}', ('a', 'b', 'c', 'd'), dict(bundlesize=b, bundlewait=1, evict_after=10),
                       [dict(hb, at=2), dict(hb, at=2.5)], plan, oracle=dying, offers=('crash:client1', 'crash:client2'), depth=1, starve=False))
    # a client that is evicted although it is still there: it does not heartbeat often enough, or is suspended
    for at in (2, 2.5):
        S.append(Fleet(f'silent-client-{at}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=10), [dict(hb, at=at, heartrate=60), dict(hb, at=4.5 - at)],
                       {'a': {'duration': 20.0}}, oracle=silent, depth=1, starve=False))
    for sec in (6, 15, 40) if deep else (15,):
        S.append(Fleet(f'suspended-client-{sec}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=10), [dict(hb, at=2), dict(hb, at=2.5)],
                       {'b': {'duration': 14.0}}, oracle=silent, offers=(f'freeze:{sec}:client1', f'freeze:{sec}:client2'), depth=1, starve=False))
    # both clients die at a point of the server
    S.append(Fleet('all-die', ('a', 'b'), dict(bundlesize=1, bundlewait=1, evict_after=10), [dict(hb, at=2), dict(hb, at=2.2)],
                   plan, oracle=dying, offers=(), events={'die': die}, depth=1, starve=False))
    # a client that leaves by its idle timeout while the other goes on
    S.append(Fleet('leaving-client', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1), [dict(c1, at=2), dict(c1, at=2.5, client_timeout=2)],
                   {'b': {'duration': 9.0}}, oracle=oracle, feed=(0, 0, 6), depth=1))
    # every statement of the programs is a point
    S.append(Fleet('lines', ('a', 'b', 'c'), dict(bundlesize=2, bundlewait=1), [dict(c1, at=2), dict(c1, at=2.5)], plan, oracle=oracle, fine=ALL_LINES,
                   depth=1 if deep else 0, policies=('fifo', 'rr')))
    # one thread of the server (or its submission) is held up at any statement
    for who in ('scheduler', 'heartmonitor', 'submit', 'confirm', 'receiver'):
        for sec in (1.2, 2.5, 6, 12) if deep else (2.5, 6):
            S.append(Fleet(f'held-up-{who}-{sec}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1), [c1], feed=(0, 5, 2), oracle=oracle,
                           fine=('server', 'submit') if not deep else SERVER_LINES, offers=(f'stall:{sec}@{who}',), depth=1, policies=('fifo', 'rr') if deep else ('fifo',)))
    return Check('P02', S)
