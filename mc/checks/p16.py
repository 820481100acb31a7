"""P16: the client register is accurate: heartbeats, disconnects, evictions, returns."""
import datetime as dt
import itertools
import json

import fakes
import inst
from explore import Check, get_inst
from fleet import ALL_LINES, Fleet, ends, traffic
from sched import EPOCH
from stubs import Empty, StubClient, peer

UUID = ['11111111-0000-4000-8000-000000000001', '22222222-0000-4000-8000-000000000002', '33333333-0000-4000-8000-000000000003']


def when(text):
    """A stored time (sqlite keeps local time without zone) as seconds."""
    return dt.datetime.fromisoformat(text).timestamp()


class Histories(Fleet):
    """histories: per stub client a string of B(eat) S(ilent) F(inish), one action per slot."""

    def __init__(self, name, histories, slot=4.5, evict=10, offset=1.3, server=None, **k):
        self.histories, self.slot, self.evict, self.offset = histories, slot, evict, offset
        self.span = slot * max(len(h) for h in histories) + 4 + offset * len(histories)
        kw = dict(bundlesize=1, bundlewait=1, evict_after=evict, **(server or {}))
        super().__init__(name, [], kw, [], {}, oracle=oracle, extra=Histories.stubs, horizon=self.span + 3 * evict + 60, **k)
        self.starve = False

    def describe(self):
        return f'heartbeat histories {self.histories} every {self.slot} s, eviction after {self.evict} s'

    def lines(self, w):
        def gen():
            fakes.v_sleep(self.span)
            return
            yield
        return gen()

    def setup(self):
        get_inst('client1', db=None, site='site-client1')       # loaded before the world starts
        super().setup()

    def stubs(self, w):
        for i, h in enumerate(self.histories):
            peer(self, w, f'stub{i}', get_inst('client1', db=None, site='site-client1'), lambda i=i, h=h: self.play(w, i, h))
        w.samples = []

        def sample():
            w.samples.append((w.now, inst.rows(self.S.dbpath, 'client')))
            if w.server.exit is None:
                w.at(w.now + 0.7, sample)
        w.at(EPOCH + 2, sample)

    def play(self, w, i, h):
        s = StubClient(w, get_inst('client1', db=None, site='site-client1'), UUID[i], f'host{i}')
        fakes.v_sleep(self.offset * i)
        state = None
        for x in h:
            if x != 'S':
                state = x
                s.beat(0 if x == 'B' else 1)
            fakes.v_sleep(self.slot)
        if h[-1] == 'B':        # a living client stays until it is dismissed
            while True:
                try:
                    if s.get(2) is None:
                        break
                except Empty:
                    pass
                s.beat(0)
            s.beat(1)

    def until(self, w):
        return w.server.exit is not None and all(p.exit is not None for p in w.peers.values())


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    exact = w.slow is None and not w.chooser.devs
    slack = 0.5 if exact else 6.0
    check = int(scn.evict / 10)
    bound = scn.evict + 2 * check + 4 + slack
    got = [(t, json.loads(b)) for t, p, b in traffic(w, 'get', 'heartbeat') if p == 'server' and b]
    w.samples.append((w.now + 100, inst.rows(scn.S.dbpath, 'client')))
    final = len(w.samples) - 1
    for k, (t, rows) in enumerate(w.samples):
        for u in UUID[:len(scn.histories)]:
            mine = [r for r in rows if r['id'] == u]
            seen = [(a, b) for a, b in got if b['uuid'] == u and a <= t]
            running = [(a, b) for a, b in seen if b['state'] == 0]
            who = f'client {u[0]} at {t - EPOCH:.1f} s'
            if len(mine) > 1 or (mine and not running):
                out.append(f'{who}: {len(mine)} records after {len(running)} heartbeats')
                continue
            settled = [(a, b) for a, b in seen if a <= t - slack]
            if not mine:
                if [x for x in settled if x[1]['state'] == 0]:
                    out.append(f'{who}: has no record')
                continue
            r = mine[0]
            if r['host'] != f'host{u[0]}' and r['host'] != 'host' + str(int(u[0]) - 1):
                out.append(f"{who}: recorded as host {r['host']}")
            if abs(when(r['connected_at']) - when(running[0][1]['time'])) > 0.001:
                out.append(f"{who}: connected at {r['connected_at']}, first heartbeat {running[0][1]['time']}")
            if bool(r['evicted']) and r['disconnected_at'] is None:
                out.append(f'{who}: evicted and connected')
            if len(settled) != len(seen):
                continue                       # a message is being worked on
            a, b = seen[-1]
            age = t - when(b['time'])
            # was it evicted between two of its heartbeats?
            if b['state'] == 0 and k != final:
                if age <= scn.evict and (r['disconnected_at'] is not None or r['evicted']):
                    out.append(f'{who}: shown as disconnected/evicted {age:.1f} s after its last heartbeat')
                if age > bound and t < w.server.exit_time and not (r['evicted'] and r['disconnected_at'] is not None):
                    out.append(f'{who}: not shown as evicted {age:.1f} s after its last heartbeat')
                if r['disconnected_at'] is not None and not r['evicted']:
                    out.append(f'{who}: shown as disconnected, not evicted, and did not say it is finished')
            elif b['state'] == 0:
                if r['disconnected_at'] is None:
                    out.append(f'{who}: the server has ended and the client is shown as connected')
            else:
                prev = [x for x in seen if x[1]['state'] == 0][-1]
                b = next(x for a, x in seen if a > prev[0] and x['state'] == 1)        # the first goodbye counts
                gap = when(b['time']) - when(prev[1]['time'])
                if r['disconnected_at'] is None:
                    out.append(f'{who}: said it is finished and is shown as connected')
                if gap <= scn.evict and r['evicted']:
                    out.append(f'{who}: finished in time and shown as evicted')
                if gap > bound and not r['evicted']:
                    out.append(f'{who}: was silent for {gap:.1f} s, then finished, and was never evicted')
                if not r['evicted'] and r['disconnected_at'] is not None:
                    d = when(r['disconnected_at'])
                    first = next(a for a, x in seen if a > prev[0] and x['state'] == 1)
                    if not first - 0.01 <= d <= first + slack:
                        out.append(f'{who}: finished at {first - EPOCH:.1f} s, recorded {d - EPOCH:.1f} s')
    return out[:6]


class Real(Fleet):
    """Real clients that stay alive."""

    def describe(self):
        return f'real clients {self.clients} server {self.server} ' + super().describe()


def real_oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    rows = scn.rows('client')
    started = [c for c in w.clients if c is not None and c.inst is not None and c.exit[0] == 'ok']
    beats = {}
    for t, p, b in traffic(w, 'put', 'heartbeat'):
        if p.startswith('client'):
            beats.setdefault(p, []).append((t, json.loads(b)))
    exact = w.slow is None and not (w.chooser.devs and (scn.stalls or scn.stalls_at))
    ids = [b[0][1]['uuid'] for b in beats.values()]
    if len(set(ids)) != len(ids):
        out.append(f'clients share an id: {ids}')
    for i, kw in enumerate(scn.clients):
        name = scn.cnames[i]
        bs = beats.get(name, [])
        if not bs:
            continue
        u = bs[0][1]['uuid']
        mine = [r for r in rows if r['id'] == u]
        if {x['uuid'] for _, x in bs} != {u}:
            out.append(f'{name} heartbeats under several ids')
        if [x['state'] for _, x in bs] != [0] * (len(bs) - 1) + [1]:
            out.append(f"{name} sent the states {[x['state'] for _, x in bs]}")
        taken = [b for t, p, b in traffic(w, 'get', 'heartbeat') if p == 'server' and b and json.loads(b)['uuid'] == u]
        if len(mine) != (1 if any(json.loads(b)['state'] == 0 for b in taken) else 0):
            out.append(f'{name} has {len(mine)} records')
        for t, x in bs:
            # the clock of the message is its sending time
            if abs(when(x['time']) - t) > (0.5 if exact else 10):
                out.append(f"{name} sent a heartbeat at {t - EPOCH:.1f} s stamped {x['time']}")
        if exact:
            rate = kw.get('heartrate', 10)
            for (a, _), (b, x) in zip(bs, bs[1:]):
                if b - a > rate + 1.5:
                    out.append(f'{name} was silent for {b - a:.1f} s, heart rate {rate} s')
                if b - a < rate - 0.01 and x['state'] == 0:
                    out.append(f'{name} sent a heartbeat after {b - a:.1f} s, heart rate {rate} s')
        for r in mine:
            if r['evicted']:
                out.append(f'{name} is shown as evicted and was never silent')
            if r['disconnected_at'] is None and len(taken) == len(bs):
                out.append(f'{name} said it is finished and is shown as connected')
            if r['server_id'] != scn.S.instance:
                out.append(f'{name} is recorded for another server')
    return out[:6]


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for n in range(1, 7 if deep else 6):
        for h in itertools.product('BSF', repeat=n):
            if h[0] == 'B':
                L.append(([''.join(h)], 10, 4.5))
    for slot, evict in ((4.5, 10), (7, 20)):
        for n in (3,) if not deep else (3, 4):
            H = [''.join(h) for h in itertools.product('BSF', repeat=n) if h[0] != 'F' and 'B' in h]
            for a, b in itertools.product(H, repeat=2):
                if 'B' in (a[0], b[0]) and (evict == 10 or deep):
                    L.append(([a, b], evict, slot))
    L += [(p, e, s) for p in (['BSSSS', 'BBBBB'], ['BBBBB', 'BSSSS', 'BBBBB'], ['BSSSS', 'BBSSS', 'BBBBB']) for e, s in ((100, 35), (50, 20))]
    L += [([x], e, s) for x in ('BBBB', 'BSSSSB', 'BSSBSSB', 'BSSSSF', 'BFB', 'BFSB') for e, s in ((25, 9), (11, 5), (100, 49), (19, 3))]
    L += [(['BSBSB'], e, 9) for e in (86400, 86405, 2 * 86400 + 3)]
    return L


def run_case(case):
    h, evict, slot = case
    scn = Histories('case', h, slot, evict)
    r = scn.execute('fifo', {})
    return r.violations, str(case), 1


def make(tier):
    deep = tier == 'thorough'
    S = []
    for h in (['BB'], ['BSSSSB'], ['BSSSB', 'BBBBB'], ['BF', 'BBB'], ['BSSSS', 'SBF'], ['BFB', 'SSB']):
        S.append(Histories('/'.join(h), h, offers=('delay', 'stall:1') if deep else ('delay',), depth=1))
    S.append(Histories('noconfirm', ['BSSSSB'], server={'no_confirm': True}, offers=('delay',), depth=1))
    plan = {'a': {'duration': 33.0}, 'b': {'duration': 12.0}, 'c': {'duration': 0.5}}
    for name, cl, ev in (('one', [dict(num_tasks=1, heartrate=5)], 12), ('two', [dict(num_tasks=1, heartrate=4), dict(num_tasks=1, heartrate=9, at=4)], 20),
                         ('slowest', [dict(num_tasks=2, heartrate=10)], 20)):
        S.append(Real('real-' + name, ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, evict_after=ev), [dict(c, bundlesize=1, bundlewait=1) for c in cl], plan,
                      oracle=real_oracle, offers=('delay', 'stall:1.5') if deep else ('delay',), depth=1, starve=False))
    S.append(Histories('lines', ['BSB', 'SBF'], offers=('delay',), depth=1 if deep else 0, fine=ALL_LINES))
    # one thread is held up at any statement
    for who in ('client1/hypershell-heartbeat', 'client1/hypershell-client', 'heartmonitor', 'client1/hypershell-client-scheduler'):
        for sec in (1.5, 3.5, 7) if deep else (3.5,):
            S.append(Real(f'held-up-{who.split("-")[-1]}-{sec}', ('a', 'b'), dict(bundlesize=1, bundlewait=1, evict_after=30), [dict(num_tasks=1, heartrate=4, bundlesize=1, bundlewait=1)],
                          {'a': {'duration': 3.0}, 'b': {'duration': 1.0}}, oracle=real_oracle, offers=(f'stall:{sec}@{who}:',), depth=1, starve=False,
                          fine=('client', 'server', 'core.heartbeat', 'core.fsm') if deep else ('client', 'server', 'core.heartbeat'), policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    return Check('P16', S, cases=cases(tier), run_case=run_case,
                 rule='Cases: every history of heartbeat / silence / goodbye of one client up to the stated length and of every pair of clients, sent to the real '
                 'server, the register read every 0.7 s. Scenarios: complete executions under the controlled scheduler with every single alternative.')
