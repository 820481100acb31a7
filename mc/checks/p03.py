"""P03: a killed server can be restarted on its database and finishes the work."""
import collections
import itertools
from explore import Check, get_inst
from fleet import Fleet, runs, chains
from sched import EPOCH
import sched


class Restart(Fleet):
    """Every generation is a server (and a new client) on the same database; each may be killed."""

    def __init__(self, *a, crashes=1, stale=False, **k):
        super().__init__(*a, **k)
        self.crashes = crashes
        self.stale = stale          # the first generation's clients stay around

    def setup(self):
        super().setup()
        for g in range(self.crashes):
            get_inst(f'server-g{g}').reset()
            get_inst(f'client-g{g}', db=None, site=f'site-client-g{g}').reset()

    def build(self, w):
        super().build(w)
        w.gens = [w.server]
        w.snaps = []
        w.killtimes = []
        w.on_kill = lambda p: self.killed(w, p)

    def killed(self, w, p):
        if p in w.gens:
            w.killtimes.append(w.now)
            w.at(w.now + 5, lambda: self.again(w))

    def again(self, w):
        g = len(w.gens) - 1
        w.snaps.append((w.now, self.rows()))
        S = get_inst(f'server-g{g}')
        kw = {k: v for k, v in self.server.items() if k not in ('redirect_failures',)}

        def server():
            S.core_signal.register_handlers()
            S.server.serve_from([], restart_mode=True, **kw)
        p = w.add_proc(f'server-g{g}', S, server)
        w.gens.append(p)
        C = get_inst(f'client-g{g}', db=None, site=f'site-client-g{g}')
        ckw = {k: v for k, v in self.clients[0].items() if k != 'at'}

        def start():
            if p.exit is not None:
                return
            if not w.net:
                w.at(w.now + 0.5, start)
                return

            def client():
                C.core_signal.register_handlers()
                C.client.run_client(**ckw)
            w.clients.append(w.add_proc(f'client-g{g}', C, client))
        w.at(w.now + 2, start)

    def until(self, w):
        return w.gens[-1].exit is not None and w.gens[-1].exit[0] != 'killed' and all(
            c.exit is not None for c in w.clients if c is not None and (len(w.gens) == 1 or not c.name.startswith('client1')))

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None:
            return ()
        L = []
        if self.delay and w.others_ready():
            L.append('delay')
        if t.proc is w.gens[-1] and len(w.gens) <= self.crashes:
            L.append('crash')
        return L

    def check(self, w, reason):
        return oracle(self, w, reason)


DONE = ('args', 'attempt', 'exit_status', 'completion_time', 'start_time', 'client_id', 'command', 'previous_id', 'submit_time', 'tag')


def oracle(scn, w, reason):
    out = []
    if reason != 'until':
        return [f'the run does not end ({reason} at {w.now - EPOCH:.1f} s): waiting: {[(t.name, t.what) for t in w.blocked]}']
    last = w.gens[-1]
    for p in [last] + [c for c in w.clients if c is not None]:
        if p.exit and p.exit[0] == 'exc' and not (len(w.gens) > 1 and isinstance(p.exit[1], (EOFError, OSError))):
            out.append(f'{p.name} failed with {type(p.exit[1]).__name__}: {p.exit[1]}')
    for t in w.threads:
        o = getattr(t.owner, '_Thread__exception', None) or t.exc
        if t.proc is last and o is not None:
            out.append(f'thread {t.name} died with {type(o).__name__}: {o}')
    if out:
        return out
    limit = scn.server.get('max_retries', 0) + 1
    final = {r['id']: r for r in scn.rows()}
    rs = runs(w)
    for n, (when, snap) in enumerate(w.snaps):
        firsts = [r['args'] for r in snap if r['previous_id'] is None]
        if firsts != scn.tasks[:len(firsts)]:
            out.append(f'tasks committed before the crash: {firsts}, not a prefix of the input')
        for r in snap:
            f = final.get(r['id'])
            if f is None:
                out.append(f"task {r['args']}/{r['attempt']} was dropped")
                continue
            if r['completion_time'] is not None:
                diff = [k for k in DONE if r[k] != f[k]]
                if diff:
                    out.append(f"task {r['args']}/{r['attempt']}, completed before the crash, was changed: {[(k, r[k], f[k]) for k in diff]}")
                if any(x.id == r['id'] and x.start > when for x in rs):
                    out.append(f"task {r['args']}/{r['attempt']} was completed before the crash and was executed again")
    if w.snaps:
        known = {r['id'] for r in w.snaps[0][1]}
        new = [r for i, r in final.items() if i not in known and r['previous_id'] is None]
        if new:
            out.append(f"tasks appeared after the restart: {[r['args'] for r in new]}")
        want = [r['args'] for r in w.snaps[0][1] if r['previous_id'] is None]
    else:
        want = scn.tasks
    heads = collections.Counter(r['args'] for r in final.values() if r['previous_id'] is None)
    if heads != collections.Counter(want):
        out.append(f'recorded tasks {dict(heads)}, committed {want}')
    out += chains(list(final.values()), limit)
    starts = [EPOCH] + [s[0] for s in w.snaps] + [float('inf')]
    gens = [x.name for x in w.gens]
    for r in final.values():
        who = f"{r['args']}/{r['attempt']}"
        if r['completion_time'] is None or r['exit_status'] is None:
            out.append(f'{who} was never completed')
            continue
        if r['exit_status'] != scn.status(r['args'], r['attempt']):
            out.append(f"{who} has status {r['exit_status']}")
        if r['exit_status'] != 0 and r['attempt'] < limit and r['next_id'] is None:
            out.append(f'{who} failed and was not retried')
        if not any(x.id == r['id'] for x in rs):
            out.append(f'{who} was never run')
    # within one generation nothing runs twice
    last_client = [c.name for c in w.clients if c is not None][-1]
    c = collections.Counter(x.id for x in rs if x.client == last_client)
    for i, n in c.items():
        if n > 1:
            out.append(f"{final[i]['args']} was run {n} times after the restart")
    return out


def status(self, args, n):
    r = self.plan.get((args, n), self.plan.get(args, 0))
    return r if isinstance(r, int) else r.get('status', 0)


Restart.status = status


class Many(Restart):
    """More tasks are in flight when the server is killed (at a fixed time) than are reverted at once."""

    def __init__(self, *a, killed_at=8.0, **k):
        super().__init__(*a, **k)
        self.killed_at = killed_at

    def build(self, w):
        super().build(w)
        w.at(EPOCH + self.killed_at, lambda: w.kill(w.server))

    def offer(self, w, t, kind, obj):
        return ()


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'a': {'status': 0, 'duration': 2.5}, ('b', 1): 2, ('b', 2): 0, 'c': 1}
    for b, n, r, eager in ((1, 1, 0, False), (2, 2, 1, False), (2, 1, 1, True), (3, 1, 1, False)) if not deep else \
            ((1, 1, 0, False), (1, 2, 1, True), (2, 2, 1, False), (2, 1, 1, True), (2, 2, 2, False), (3, 1, 1, False), (3, 2, 2, True)):
        S.append(Restart(f'b{b}-x{n}-r{r}-{eager}', ('a', 'b', 'c', 'd'), dict(bundlesize=b, bundlewait=1, max_retries=r, eager=eager),
                         [dict(num_tasks=n, bundlesize=b, bundlewait=1)], plan, offers=(), depth=1,
                         policies=('fifo', 'rr', 'lifo'), starve=False))
    # killed again after the restart
    S.append(Restart('twice', ('b', 'c'), dict(bundlesize=2, bundlewait=1, max_retries=1), [dict(num_tasks=1, bundlesize=2, bundlewait=1)],
                     plan, offers=(), depth=2, policies=('fifo',), starve=False, crashes=2, window=None if deep else 90))
    # killed while the input is still being read
    S.append(Restart('reading', ('a', 'b', 'c', 'd', 'e'), dict(bundlesize=2, bundlewait=1, max_retries=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)],
                     plan, feed=[0, 1.5, 0, 6, 0], offers=(), depth=1, policies=('fifo', 'lifo'), starve=False))
    # crash combined with another order of the threads
    S.append(Restart('reordered', ('b', 'c'), dict(bundlesize=1, bundlewait=1, max_retries=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)],
                     plan, offers=('delay',), depth=2, policies=('fifo',), starve=False, window=12 if deep else 4))
    # many tasks in flight
    for n, b, at in ((130, 130, 8), (230, 115, 8)) if not deep else itertools.product((101, 130, 201, 230, 350), (101, 115, 350), (6.5, 8, 12)):
        S.append(Many(f'many-{n}-b{b}-{at}', [f't{i}' for i in range(n)], dict(bundlesize=b, bundlewait=1, max_retries=1),
                      [dict(num_tasks=2, bundlesize=20, bundlewait=1)], {f't{i}': {'duration': 0.3, 'status': int(i % 60 == 7)} for i in range(n)}, offers=(), depth=0, policies=('fifo',),
                      starve=False, killed_at=at))
    return Check('P03', S)
