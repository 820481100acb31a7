"""
The main closed system: one server (real ServerThread through serve_from), a few clients (real run_client) and
optional user actions, over one SQLite database, with scripted task processes.
"""
import json
import signal
import collections
import os

import explore
import fakes
import inst
import sched
from explore import Scenario, get_inst
from sched import EPOCH


class Run(collections.namedtuple('Run', 'id args command attempt client start end status env pid popen')):
    pass


def runs(w):
    """Every task process that was started."""
    out = []
    for rec in w.log:
        if rec[0] == 'spawn' and rec[1].script.kind == 'task':
            p = rec[1]
            e = p.env or {}
            out.append(Run(e.get('TASK_ID'), e.get('TASK_ARGS'), p.args, int(e.get('TASK_ATTEMPT', 0)), p.proc.name,
                           p.start_time, p.end_time, p._status if p.end_time is not None else None, e, p.pid, p))
    return out


SERVER_LINES = ('server', 'submit', 'data.model', 'core.queue', 'core.fsm', 'core.thread', 'core.heartbeat', 'core.signal')
CLIENT_LINES = ('client', 'core.queue', 'core.fsm', 'core.thread', 'core.heartbeat', 'core.template', 'core.signal', 'data.model')
ALL_LINES = ('client', 'core.template') + SERVER_LINES


class Fleet(Scenario):
    """Parameters:
    tasks: lines; feed: seconds before each line (None: all at once); server/clients: keyword arguments;
    plan: {(args, attempt) or args: Script kwargs or status int}; offers: subset of delay, stall:S, crash:PROC;
    events: {name: function(w) called in its own program}; mode: 'serve' or 'live' (in_memory).
    """
    cnames = ('client1', 'client2', 'client3')
    hosts = False            # every program is on a machine of its own name
    scripted = False         # the server is not the real one

    def __init__(self, name, tasks=('a', 'b', 'c'), server=None, clients=({},), plan=None, feed=None, offers=('delay',),
                 depth=1, window=None, policies=('fifo', 'rr', 'lifo'), oracle=None, horizon=400.0, duration=1.0,
                 starve=True, until=None, prepare=None, events=None, start_clients=None, source=None, main=None,
                 no_slow=None, slow=None, extra=None, forever=False, db=True, fine=()):
        self.name = name
        self.fine = tuple(fine)        # modules whose every statement is a scheduling point
        if fine:
            slow, self.max_steps = (), 2_000_000
        self.tasks = list(tasks)
        self.server = dict(server or {})
        self.clients = [dict(c) for c in clients]
        self.plan = plan or {}
        self.feed = feed
        self.offers = list(offers)
        self.depth, self.window, self.policies = depth, window, tuple(policies)
        self.oracle = oracle
        self.horizon = horizon
        self.duration = duration
        self.starve = starve
        self._until = until
        self.prepare = prepare
        self.events = events or {}
        self.source = source
        self.extra = extra
        self.forever = forever
        self.db = db
        self.main = main
        if no_slow is not None:
            self.no_slow = no_slow
        if slow is not None:
            self.slow = slow
        self.stalls = [o for o in self.offers if o.startswith('stall:') and '@' not in o]
        self.stalls_at = [o.split('@') for o in self.offers if o.startswith('stall:') and '@' in o]
        self.freezers = [o for o in self.offers if o.startswith('freeze:')]
        self.crashers = {o[6:] for o in self.offers if o.startswith('crash:')}
        self.delay = 'delay' in self.offers

    def describe(self):
        return (f'lines {self.tasks!r} feed {self.feed} server {self.server} clients {self.clients} plan {self.plan} '
                f'alternatives {self.offers} events {list(self.events)} depth {self.depth} window {self.window} '
                f'policies {self.policies} starve {self.starve}'
                + (f' every statement of {self.fine}' if self.fine else ''))[:1500]

    # -- copies of the package --------------------------------------------------------------
    @property
    def S(self):
        name, kw = ('server-fine', {'fine': self.fine}) if self.fine and not self.scripted else ('server', {})
        if self.hosts:
            kw = dict(kw, host='main.host')
        return get_inst(name, **kw) if self.db else get_inst(name + '-nodb', db=None, site='site-nodb', **kw)

    def C(self, i):
        kw = {'fine': self.fine} if self.fine else {}
        if self.hosts:
            kw['host'] = f'{self.cnames[i]}.host'
        return get_inst(self.cnames[i], db=None, site=f'site-{self.cnames[i]}', **kw)

    def setup(self):
        S = self.S
        if self.db:
            inst.fresh_db(S)
        S.reset()
        for i in range(len(self.clients)):
            self.C(i).reset()
        if self.prepare:
            self.prepare(self)

    # -- environment ------------------------------------------------------------------------
    def behaviour(self, args, env, proc):
        a = (env or {}).get('TASK_ARGS')
        n = int((env or {}).get('TASK_ATTEMPT') or 0)
        r = self.plan.get((a, n), self.plan.get(a, 0))
        if isinstance(r, int):
            r = {'status': r}
        if isinstance(r, BaseException):
            return r
        r = {'duration': self.duration, **r}
        return fakes.Script(**{k: v.get(proc.name, 0) if isinstance(v, dict) and k in ('duration', 'status') else v for k, v in r.items()})

    def lines(self, w):
        if self.source is not None:
            return self.source(self, w)
        if self.feed is None:
            return list(self.tasks)

        def gen():
            for x, d in zip(self.tasks, self.feed):
                if d:
                    fakes.v_sleep(d)
                yield x
            if len(self.feed) > len(self.tasks):
                fakes.v_sleep(self.feed[-1])
        return gen()

    def build(self, w):
        w.behaviour = self.behaviour
        S = self.S
        w.crashed = False

        def server():
            S.core_signal.register_handlers()
            if self.main:
                return self.main(self, w)
            if self.forever:
                return S.server.serve_forever(**self.server)
            return S.server.serve_from(self.lines(w), **self.server)
        w.server = w.add_proc('server', S, server)
        w.clients = []
        w.late = []
        for i, c in enumerate(self.clients):
            w.clients.append(None)
            if c.get('at', 2) is not None:       # None: started by an event
                w.at(EPOCH + c.get('at', 2), lambda i=i: self.start_client(w, i))
        for name, ev in self.events.items():
            if isinstance(ev, tuple):
                when, fn = ev
                w.at(EPOCH + when, lambda name=name, fn=fn: w.fire(name, lambda: fn(self, w)))
            else:
                w.events[name] = lambda fn=ev: fn(self, w)
        if self.extra:
            self.extra(self, w)

    def known_gap(self, w):
        """Known finding F-unconfirmed: a client died holding tasks it had not confirmed yet."""
        return any(p.exit and p.exit[0] == 'killed' and unconfirmed(w, p.name) for p in w.clients if p is not None)

    def start_client(self, w, i):
        if w.server.exit is not None:
            w.late.append(self.cnames[i])       # the run is over before this client is started
            w.clients[i] = sched.Proc(w, self.cnames[i], None)
            w.clients[i].alive, w.clients[i].exit = False, ('never', None)
            return
        if not w.net:
            w.at(w.now + 0.5, lambda: self.start_client(w, i))            # started once the server listens
            return
        C = self.C(i)
        kw = {k: v for k, v in self.clients[i].items() if k != 'at'}

        def client():
            C.core_signal.register_handlers()
            C.client.run_client(**kw)
        w.clients[i] = w.add_proc(self.cnames[i], C, client)

    def until(self, w):
        if self._until:
            return self._until(self, w)
        return w.server.exit is not None and all(c.exit is not None if c is not None else self.clients[i].get('at', 2) is None
                                                 for i, c in enumerate(w.clients))

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None:
            return ()
        L = []
        if self.delay and w.others_ready():
            L.append('delay')
        L += self.stalls
        for lab, where in self.stalls_at:
            if where in f'{t.name}:{kind}':
                L.append(lab)
        if not w.crashed and t.proc.name in self.crashers:
            L.append('crash')
        L += [o for o in self.freezers if t.proc.name == o.split(':')[2] and not t.proc.frozen]
        if w.events:
            L += ['ev:' + e for e in w.events]
        return L

    def rows(self, table='task'):
        return inst.rows(self.S.dbpath, table)

    def check(self, w, reason):
        return self.oracle(self, w, reason)

    def outcome(self, w, reason):
        if not self.db:
            return reason
        rs = self.rows()
        return f'{reason} ' + ','.join(f"{r['args']}:{r['attempt']}:{r['exit_status']}" for r in rs)


class Again(Fleet):
    """After everything has ended, the server is started again in restart mode with a new client.
    w.mid: the records between the two runs; w.server2, w.client2."""
    again = True

    def setup(self):
        super().setup()
        if self.again:
            get_inst('server-g0').reset()
            get_inst('client-g0', db=None, site='site-client-g0').reset()

    def build(self, w):
        super().build(w)
        w.second = None
        w.server2 = w.client2 = None

    def first_done(self, w):
        return Fleet.until(self, w)

    def until(self, w):
        if not w.second and not self.first_done(w):
            return False
        if self.again:
            if w.second is None:
                w.second = True
                w.mid = self.rows()
                w.mid_runs = len(runs(w))
                self.restart(w)
                return False
            return w.server2.exit is not None and (w.client2 is None or w.client2.exit is not None)
        return True

    def restart(self, w):
        S = get_inst('server-g0')
        C = get_inst('client-g0', db=None, site='site-client-g0')
        ckw = {k: v for k, v in self.clients[0].items() if k != 'at'}
        w.server2 = w.add_proc('again-server', S, lambda: (S.core_signal.register_handlers(),
                                                      S.server.serve_from([], **{**self.server, 'restart_mode': True})))

        def start():
            if w.server2.exit is None and w.net:
                w.client2 = w.add_proc('again-client', C, lambda: (C.core_signal.register_handlers(), C.client.run_client(**ckw)))
        w.at(w.now + 2, start)

    def offer(self, w, t, kind, obj):
        return () if w.second else super().offer(w, t, kind, obj)

    def second_ends(self, w, reason):
        out = []
        if self.again and reason == 'until':
            for p in (w.server2, w.client2):
                if p is not None and p.exit[0] == 'exc':
                    out.append(f'{p.name} failed: {p.exit[1]}')
            for t in w.threads:
                if t.proc.name in ('again-server', 'again-client') and getattr(t.owner, '_Thread__exception', None):
                    out.append(f'{t.name} died with {t.owner._Thread__exception}')
        elif self.again and w.second:
            out.append(f'the second run does not end ({reason}): waiting {[(t.name, t.what) for t in w.blocked]}')
        return out


send_signal = fakes.deliver


# ------------------------------------------------------------------------------------------- oracles
def task_ids(bundle):
    """Ids of the tasks in a bundle on the wire."""
    return [json.loads(b)['id'] for b in bundle or ()]


def traffic(w, op, queue, proc=None):
    """Completed operations on a shared queue: (time, program, item)."""
    return [(r[3], r[2], r[4]) for r in w.qlog if r[0] == op and r[1].rstrip('0123456789') == queue and proc in (None, r[2])]


def unconfirmed(w, proc):
    """Ids of tasks a client has taken from the server but not confirmed (nor begun with: then it owes the confirmation)."""
    got, conf = set(), set()
    begun = {r.id for r in runs(w) if r.client == proc}
    for _, _, b in traffic(w, 'get', 'scheduled', proc):
        ids = set(task_ids(b))
        got |= ids if not ids & begun else set()
    for _, _, b in traffic(w, 'put', 'confirmed', proc):
        if b:
            conf |= set(json.loads(b)['task_ids'])
    return got - conf


def registered(scn, w):
    """Names of the clients the server has taken into its register."""
    if not scn.db or scn.server.get('in_memory'):
        ids = {json.loads(b)['uuid'] for _, p, b in traffic(w, 'get', 'heartbeat') if p == 'server' and b}
    else:
        ids = {r['id'] for r in scn.rows('client')}
    return {c.name for c in w.clients if c is not None and c.inst is not None and c.inst.instance in ids}


CONNECTION = (EOFError, ConnectionError, BrokenPipeError)


def ends(scn, w, reason, dead=(), also=()):
    """Everything came to an orderly end.  A client that was still unknown to the server when the server ended may
    end with a connection error; programs in `dead` were killed."""
    out = []
    excused = {c.name for c in w.clients if c is not None} - registered(scn, w) | set(also)
    if reason != 'until':
        alive = [p.name for p in [w.server] + w.clients if p is not None and p.alive]
        out.append(f'the run does not end ({reason} at {w.now - EPOCH:.1f} s): still running: {alive}; '
                   f'waiting: {[(t.name, t.what) for t in w.blocked]}')
    for p in [w.server] + [c for c in w.clients if c is not None]:
        if p.exit and p.exit[0] == 'exc' and not (p.name in excused and isinstance(p.exit[1], CONNECTION)):
            out.append(f'{p.name} failed with {type(p.exit[1]).__name__}: {p.exit[1]}')
    for t in w.threads:
        if t.proc.name in dead:
            continue
        if t.exc is not None and t.proc.inst is not None and not (t.proc.name in excused and isinstance(t.exc, CONNECTION)):
            out.append(f'thread {t.name} died with {type(t.exc).__name__}: {t.exc}')
        o = getattr(t.owner, '_Thread__exception', None)
        if o is not None and not (t.proc.name in excused and isinstance(o, CONNECTION)):
            out.append(f'thread {t.name} died with {type(o).__name__}: {o}')
    return out


def chains(rows, attempts=None):
    """Attempts of one task form a chain: numbered, linked both ways, exactly the superseded ones marked."""
    out = []
    byid = {r['id']: r for r in rows}
    for r in rows:
        who = f"{r['args']}/{r['attempt']}"
        if r['previous_id'] is None:
            if r['attempt'] != 1:
                out.append(f'{who} has no predecessor')
        else:
            p = byid.get(r['previous_id'])
            if p is None:
                out.append(f'{who} points to a missing predecessor')
            elif p['next_id'] != r['id']:
                out.append(f'{who} is not pointed to by its predecessor')
            elif p['attempt'] != r['attempt'] - 1:
                out.append(f"{who} follows attempt {p['attempt']}")
            else:
                if p['args'] != r['args'] or json.loads(p['tag']) != json.loads(r['tag']):
                    out.append(f"{who}: text or tags differ from the predecessor's: {p['args']} {p['tag']} / {r['args']} {r['tag']}")
                if p['exit_status'] in (0, None) or p['completion_time'] is None:
                    out.append(f"{who}: its predecessor has not failed ({p['exit_status']})")
        if bool(r['retried']) != (r['next_id'] is not None):
            out.append(f"{who}: retried={r['retried']} but next_id={r['next_id']}")
        if r['next_id'] is not None and r['next_id'] not in byid:
            out.append(f'{who} points to a missing successor')
        if attempts is not None and r['attempt'] > attempts:
            out.append(f'{who} is beyond the limit of {attempts} attempts')
    for f in ('previous_id', 'next_id'):
        v = [r[f] for r in rows if r[f]]
        if len(v) != len(set(v)):
            out.append(f'duplicate {f}')
    return out
