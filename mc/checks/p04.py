"""P04: tasks confirmed by a client that dies are given to another client."""
import itertools
import json
from explore import Check
from fleet import ALL_LINES, Fleet, chains, runs, ends, traffic, task_ids, send_signal
from sched import EPOCH

EVICT = 10


def oracle(scn, w, reason):
    dead = {p.name for p in w.clients if p is not None and p.exit and p.exit[0] == 'killed'}
    rows = {r['id']: r for r in scn.rows()}
    gap = scn.known_gap(w) and reason != 'until'
    out = [] if gap else ends(scn, w, reason, dead)     # listed finding of P02 (death between taking a bundle and confirming it)
    if out:
        return out
    if sorted(r['args'] for r in rows.values()) != sorted(scn.tasks):
        out.append(f"records {sorted(r['args'] for r in rows.values())}")
    rs = runs(w)
    client = {scn.C(i).instance: scn.cnames[i] for i in range(len(scn.clients))}
    register = {r['id']: r for r in scn.rows('client')}
    joined = min((EPOCH + scn.clients[scn.cnames.index(c.name)].get('at', 2) for c in w.clients if c is not None and c.name not in dead), default=0)
    for name in dead:
        p = next(x for x in w.clients if x is not None and x.name == name)
        gone = p.exit_time
        confirmed = set()
        for _, _, b in traffic(w, 'put', 'confirmed', name):
            confirmed |= set(json.loads(b)['task_ids'])
        returned = {i for _, _, b in traffic(w, 'put', 'completed', name) for i in task_ids(b)}
        for i in confirmed - returned:
            again = [r for r in rs if r.id == i and r.client not in dead]
            row = rows[i]
            if len(again) != 1:
                out.append(f"task {row['args']}, confirmed by the dead {name}, was run {len(again)} times by surviving clients")
            elif (client.get(row['client_id']), row['exit_status'], row['command']) != (again[0].client, again[0].status, again[0].command):
                out.append(f"task {row['args']}: recorded {client.get(row['client_id'])}/{row['exit_status']}, but it was run again "
                           f'by {again[0].client} with status {again[0].status}')
            # silent for EVICT seconds, noticed within two checking periods, then polled and fetched
            elif scn.prompt and 'slow' not in w.policy and again[0].start > max(gone + EVICT + 2 * 1 + 2, joined) + 5 + 2 + 9 + 0.1:
                out.append(f"task {row['args']} was only run again {again[0].start - gone:.1f} s after the death of {name}")
        for i in returned:
            again = [r for r in rs if r.id == i and r.client not in dead]
            row = rows[i]
            if again and not scn.slow_receiver:
                out.append(f"task {row['args']} had been returned by {name} and was run again")
            elif not again and (client.get(row['client_id']) != name or row['exit_status'] != next(r.status for r in rs if r.id == i)):
                out.append(f"result of {row['args']} returned by {name} does not stand: {row['client_id']} {row['exit_status']}")
    for r in rs:
        if r.client not in dead and len([x for x in rs if x.id == r.id and x.client not in dead]) > 1:
            out.append(f'task {r.args} held by a living client was run again elsewhere')
    for r in rows.values():
        if gap and r['client_id'] is None and r['completion_time'] is None:
            continue
        if r['exit_status'] != scn.plan.get(r['args'], {}).get('status', 0):
            out.append(f"task {r['args']} has recorded status {r['exit_status']}")
    return out


def late(scn, w, reason):
    """A client is given up on although it is still there, and may return its results late."""
    evicted = {scn.cnames[i] for i in range(len(scn.clients)) if any(r['id'] == scn.C(i).instance and r['evicted'] for r in scn.rows('client'))}
    out = ends(scn, w, reason, also=evicted | getattr(w, 'was_frozen', set()))
    if out:
        return out
    rows = scn.rows()
    rs = runs(w)
    attempts = scn.server.get('max_retries', 0) + 1
    out += chains(rows, attempts)
    if sorted(r['args'] for r in rows if r['attempt'] == 1) != sorted(scn.tasks):
        out.append(f"records {sorted(r['args'] for r in rows)}")
    name = {scn.C(i).instance: scn.cnames[i] for i in range(len(scn.clients))}
    first = {}
    for _, _, b in traffic(w, 'get', 'completed', 'server'):
        for x in b or ():
            x = json.loads(x)
            first.setdefault(x['id'], (name[x['client_id']], x['exit_status']))
    for r in rows:
        who = f"{r['args']}/{r['attempt']}"
        if r['exit_status'] is None:
            out.append(f'{who} was not completed')
            continue
        if not any((x.client, x.status, x.command) == (name.get(r['client_id']), r['exit_status'], r['command']) for x in rs if x.id == r['id']):
            out.append(f"{who}: recorded {name.get(r['client_id'])}/{r['exit_status']} is no run: {[(x.client, x.status) for x in rs if x.id == r['id']]}")
        if r['id'] in first and first[r['id']] != (name.get(r['client_id']), r['exit_status']):
            out.append(f"{who}: {first[r['id']]} was returned and recorded first, but now {name.get(r['client_id'])}/{r['exit_status']} is")
        if r['exit_status'] != 0 and r['next_id'] is None and r['attempt'] < attempts:
            out.append(f'{who} failed but was not attempted again')
    for r in {x.id for x in rs}:
        mine = [x for x in rs if x.id == r]
        if len(mine) > 1 and not any(x.client in evicted | w.was_frozen for x in mine):
            out.append(f'task {mine[0].args} was run {len(mine)} times by living clients: {[x.client for x in mine]}')
    return out


class Late(Fleet):
    def build(self, w):
        super().build(w)
        w.was_frozen = set()

    def offer(self, w, t, kind, obj):
        for p in w.clients:
            if p is not None and p.frozen:
                w.was_frozen.add(p.name)
        return super().offer(w, t, kind, obj)


def fleet(name, *a, **k):
    f = Fleet(name, *a, oracle=oracle, **k)
    f.prompt = not any('stall' in o for o in f.offers)
    f.slow_receiver = any('receiver' in o for o in f.offers)
    return f


def make(tier):
    deep = tier == 'thorough'
    S = []
    hb = dict(bundlewait=1, heartrate=2)
    plan = {'b': {'duration': 2.5, 'status': 4}, 'c': {'duration': 1.2, 'status': 0}}
    for b, n in ((1, 1), (2, 1), (2, 2), (3, 1)) if deep else ((1, 1), (2, 1), (3, 2)):
        for wait in (1, 6):
            S.append(fleet(f'b{b}-x{n}-w{wait}', ('a', 'b', 'c', 'd', 'e'), dict(bundlesize=b, bundlewait=1, evict_after=EVICT),
                           [dict(hb, num_tasks=1, bundlesize=b, at=2.3), dict(hb, num_tasks=n, bundlesize=b, bundlewait=wait, at=2)],
                           plan, offers=('crash:client2',), depth=1, starve=False,
                           policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    # death combined with a slow confirm thread / receiver / monitor on the server
    for what in ('confirm:sql', 'heartmonitor:sql', 'receiver:sql'):
        S.append(fleet(f'slow-{what}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=EVICT),
                       [dict(hb, num_tasks=1, bundlesize=1, at=2.3), dict(hb, num_tasks=1, bundlesize=1, at=2)], plan,
                       offers=('crash:client2', f'stall:16@{what}'), depth=2, starve=False, policies=('fifo',)))
    # two clients die
    S.append(fleet('two-die', ('a', 'b', 'c', 'd'), dict(bundlesize=1, bundlewait=1, evict_after=EVICT),
                   [dict(hb, num_tasks=1, bundlesize=1, at=2.3), dict(hb, num_tasks=1, bundlesize=1, at=2.1),
                    dict(hb, num_tasks=1, bundlesize=1, at=2)], plan, offers=('crash:client2', 'crash:client3'), depth=1,
                   starve=False, policies=('fifo',)))
    # the only client dies, another one comes (long) after
    for when in (5, 40) if not deep else (5, 14, 40, 70):
        S.append(fleet(f'replaced-{when}', ('a', 'b', 'c'), dict(bundlesize=2, bundlewait=1, evict_after=EVICT),
                       [dict(hb, num_tasks=2, bundlesize=2, at=when), dict(hb, num_tasks=1, bundlesize=1, at=2)], plan, offers=('crash:client2',), depth=1,
                       starve=False, policies=('fifo', 'lifo') if deep else ('fifo',)))
    # the dead client held more tasks than are reverted at once
    for n, b in ((130, 130), (230, 115)) if not deep else ((101, 101), (130, 130), (201, 201), (230, 115), (350, 350)):
        f = fleet(f'many-{n}-b{b}', [f't{i}' for i in range(n)], dict(bundlesize=b, bundlewait=1, evict_after=EVICT),
                  [dict(hb, num_tasks=4, bundlesize=20, at=14), dict(hb, num_tasks=1, bundlesize=1, at=2)],
                  {f't{i}': {'duration': 0.2, 'status': 0} for i in range(n)}, offers=(), depth=0, starve=False, policies=('fifo',),
                  extra=lambda scn, w: w.at(EPOCH + 12.4, lambda: w.kill(w.clients[1])))
        f.prompt = False
        S.append(f)
    # a client is suspended for longer than the eviction period and then goes on
    for sec, retries, st in itertools.product((15, 40) if deep else (15,), (0, 1), ((0, 3), (3, 0))):
        two = {'client1': st[0], 'client2': st[1]}
        S.append(Late(f'suspended-{sec}-r{retries}-{st[0]}{st[1]}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=EVICT, max_retries=retries),
                      [dict(hb, num_tasks=1, bundlesize=1, at=2.3), dict(hb, num_tasks=1, bundlesize=1, at=2)],
                      {'a': {'duration': 3.0, 'status': two}, 'b': {'duration': 24.0, 'status': two}}, oracle=late,
                      offers=(f'freeze:{sec}:client2',), depth=1, starve=False, policies=('fifo', 'lifo') if deep else ('fifo',)))
    # every statement of the server and the clients is a point
    for at, mods in ((7.4, ALL_LINES), (9.0, ALL_LINES), (7.4, ('server', 'data.model'))):
        S.append(fleet(f'lines-{at}-{len(mods)}', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=EVICT),
                       [dict(hb, num_tasks=1, bundlesize=1, at=2.3), dict(hb, num_tasks=1, bundlesize=1, at=2)], {x: {'duration': 4.0} for x in 'abc'}, fine=mods,
                       offers=('delay',), depth=1 if deep and mods is not ALL_LINES else 0, policies=('fifo', 'rr', 'lifo') if mods is ALL_LINES else ('fifo',), extra=lambda scn, w, at=at: w.at(EPOCH + at, lambda: w.kill(w.clients[1]))))
    return Check('P04', S)
