"""Whole clusters: the real `cluster` program whose launched clients are real client programs."""
import os

import explore
import fakes
import inst
import sched
from explore import Scenario, get_inst
from fleet import runs
from sched import EPOCH

CLIENTS = ('client1', 'client2', 'client3', 'client4', 'client5', 'client6')
ENV = {'HYPERSHELL_CLIENT_HEARTRATE': '1', 'HYPERSHELL_SERVER_EVICT': '10'}


class Cluster(Scenario):
    """argv: arguments of the cluster program; tasks: lines of its file; plan: as for Fleet; events: name or (time) -> function."""

    def __init__(self, name, argv, tasks=('a', 'b', 'c'), plan=None, duration=1.0, offers=('delay',), depth=1, window=None, policies=('fifo', 'rr', 'lifo'),
                 oracle=None, horizon=200.0, starve=False, events=None, env=None, launch=None, until=None, db=True, slow=None, no_slow=None, prepare=None, extra=None):
        self.name, self.argv, self.tasks, self.plan, self.duration = name, list(argv), list(tasks), plan or {}, duration
        self.offers, self.depth, self.window, self.policies = list(offers), depth, window, tuple(policies)
        self.oracle, self.horizon, self.starve, self.events = oracle, horizon, starve, events or {}
        self.env, self.launch, self._until, self.db = {**ENV, **(env or {})}, launch, until, db
        self.prepare, self.extra = prepare, extra
        if slow is not None:
            self.slow = slow
        if no_slow is not None:
            self.no_slow = no_slow
        self.delay = 'delay' in self.offers
        self.stalls = [o for o in self.offers if o.startswith('stall:')]

    def describe(self):
        return f'cluster {self.argv} tasks {self.tasks} plan {self.plan} alternatives {self.offers} events {list(self.events)} depth {self.depth}'[:1000]

    @property
    def S(self):
        kw = {} if self.db else {'db': None, 'site': 'site-cluster-nodb'}
        return get_inst('cluster' if self.db else 'cluster-nodb', env=self.env, **kw)

    def C(self, name):
        return get_inst(name, db=None, site=f'site-{name}', env={k: v for k, v in self.env.items() if 'CLIENT' in k or 'TASK' in k})

    def setup(self):
        S = self.S
        if self.db:
            inst.fresh_db(S)
        S.reset()
        for n in CLIENTS:
            self.C(n).reset()
        self.path = os.path.join(inst.scratch(), 'tasks.in')
        with open(self.path, 'w') as f:
            f.write(''.join(x + '\n' for x in self.tasks))
        if self.prepare:
            self.prepare(self)

    def behaviour(self, args, env, proc):
        w = sched.WORLD
        if proc is w.cluster and not (env or {}).get('TASK_ID'):
            return self.start_client(w, args)
        a = (env or {}).get('TASK_ARGS')
        n = int((env or {}).get('TASK_ATTEMPT') or 0)
        r = self.plan.get((a, n), self.plan.get(a, 0))
        r = {'status': r} if isinstance(r, int) else r
        return r if isinstance(r, BaseException) else fakes.Script(**{'duration': self.duration, **r})

    def client_args(self, args):
        return args[args.index('client') + 1:]

    def start_client(self, w, args):
        k = len(w.launched)
        if self.launch is not None:
            r = self.launch(self, w, k, args)
            if r is not None:
                w.launched.append((w.now, list(args), None))
                return r
        busy = {p.name for p in w.procs if p.alive}
        name = next(n for n in CLIENTS if n not in busy and n not in w.used) if len(w.used) < len(CLIENTS) else None
        if name is None:
            w.launched.append((w.now, list(args), None))
            return fakes.Script(1.0, 1, kind='client')        # enough of them
        w.used.append(name)
        C = self.C(name)
        argv = self.client_args(list(args))

        def main():
            C.core_signal.register_handlers()
            return C.client.ClientApp.main(argv)
        w.launched.append((w.now, list(args), name))
        return fakes.Script(None, kind='client', program=(name, C, main))

    def build(self, w):
        w.behaviour = self.behaviour
        w.launched, w.used = [], []
        w.signalled = None
        S = self.S
        argv = [self.path if a == 'FILE' else a for a in self.argv]

        def main():
            S.core_signal.register_handlers()
            return S.cluster.ClusterApp.main(argv)
        w.server = w.cluster = w.add_proc('cluster', S, main)
        if self.extra:
            self.extra(self, w)
        for name, ev in self.events.items():
            if isinstance(ev, tuple):
                w.at(EPOCH + ev[0], lambda name=name, fn=ev[1]: w.fire(name, lambda: fn(self, w)))
            else:
                w.events[name] = lambda fn=ev: fn(self, w)

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None:
            return ()
        L = ['delay'] if self.delay and w.others_ready() else []
        return L + self.stalls + ['ev:' + e for e in w.events]

    def clients(self, w):
        return [p for p in w.procs if p.name in CLIENTS]

    def until(self, w):
        if self._until:
            return self._until(self, w)
        return w.cluster.exit is not None and all(p.exit is not None for p in self.clients(w))

    def rows(self, table='task'):
        return inst.rows(self.S.dbpath, table)

    def check(self, w, reason):
        return self.oracle(self, w, reason)

    def outcome(self, w, reason):
        return f'{reason} {len(w.launched)} ' + (','.join(f"{r['args']}:{r['attempt']}:{r['exit_status']}" for r in self.rows()) if self.db else str(len(runs(w))))


def signal_cluster(sig):
    def fire(scn, w):
        if w.signalled is None and w.cluster.alive and sig in w.cluster.handlers:
            w.signalled = w.now
            fakes.deliver(w.cluster, sig)
    return fire


def kill_client(scn, w):
    """The oldest client dies."""
    for p in scn.clients(w):
        if p.alive:
            w.dead = getattr(w, 'dead', []) + [p.name]
            w.kill(p)
            return


def died(w):
    """Threads of the programs that ended with an error."""
    out = []
    for t in w.threads:
        e = t.exc or getattr(t.owner, '_Thread__exception', None)
        if e is not None and t.proc.inst is not None:
            out.append((t.name, e))
    return out
