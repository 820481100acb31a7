"""P05: failed tasks are retried until success or the limit; attempts form a chain."""
import collections
import itertools
import json
from explore import Check
from fleet import Fleet, runs, ends, chains


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    if out:
        return out
    rows = scn.rows()
    attempts = scn.server.get('max_retries', 0) + 1
    out += chains(rows, attempts)
    rs = runs(w)
    for line in set(scn.tasks):
        k = scn.tasks.count(line)
        # attempts that must happen
        n = 0
        while n < attempts:
            n += 1
            if scn.status(line, n) == 0:
                break
        got = collections.Counter(r['attempt'] for r in rows if r['args'] == line)
        if got != collections.Counter({i: k for i in range(1, n + 1)}):
            out.append(f'{line}: recorded attempts {dict(got)}, should be 1..{n} for each of {k}')
        ran = collections.Counter(r.attempt for r in rs if r.args == line)
        if ran != collections.Counter({i: k for i in range(1, n + 1)}):
            out.append(f'{line}: executed attempts {dict(ran)}, should be 1..{n} for each of {k}')
    for r in rows:
        st = scn.status(r['args'], r['attempt'])
        if r['exit_status'] != st:
            out.append(f"{r['args']}/{r['attempt']}: recorded status {r['exit_status']}, was {st}")
        if json.loads(r['tag']) != scn.tags.get(r['args'], {}):
            out.append(f"{r['args']}/{r['attempt']}: tags {r['tag']}")
    return out


class Retry(Fleet):
    tags = {}

    def status(self, args, n):
        r = self.plan.get((args, n), self.plan.get(args, 0))
        return r if isinstance(r, int) else r.get('status', 0)


def tagged(scn):
    """Tasks with tags are in the database before the server starts."""
    import inst
    S = scn.S
    T = S.data_model.Task
    S.install()
    T.add_all([T.new(args=a, tag=dict(t)) for a, t in scn.tags.items()])
    S.drop_sessions()


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'a': 1, ('b', 1): 2, ('b', 2): 0, ('c', 1): {'status': 1, 'duration': 4.5}, ('c', 2): {'status': -9, 'duration': 0.3}, ('c', 3): 0}
    for eager, (r, b, n) in itertools.product((False, True), ((1, 1, 1), (2, 2, 2), (1, 2, 1)) if not deep else
                                              itertools.product((0, 1, 2), (1, 2), (1, 2))):
        S.append(Retry(f'{"eager" if eager else "lazy"}-r{r}-b{b}-x{n}', ('a', 'b', 'c', 'd'), dict(bundlesize=b, bundlewait=1, max_retries=r, eager=eager),
                       [dict(num_tasks=n, bundlesize=b, bundlewait=1)], plan, oracle=oracle, depth=1,
                       offers=('delay', 'stall:6') if b == 1 or deep else ('delay',), policies=('fifo', 'rr', 'lifo') if deep else ('fifo', 'lifo')))
    for eager, r, b in itertools.product((False, True), (0, 3), (1, 3)):
        S.append(Retry(f'limit-{eager}-r{r}-b{b}', ('a', 'b', 'c', 'd'), dict(bundlesize=b, bundlewait=1, max_retries=r, eager=eager), [dict(num_tasks=2, bundlesize=b, bundlewait=1)], plan,
                       oracle=oracle, depth=1 if deep else 0, offers=('delay',), policies=('fifo', 'rr', 'lifo')))
    # a single task failing at the very end of the run: results racing with the end of scheduling
    for eager in (False, True):
        S.append(Retry(f'last-{eager}', ('a', 'b'), dict(bundlesize=1, max_retries=2, eager=eager), [dict(num_tasks=2, bundlesize=1, bundlewait=1)],
                       {'a': {'status': 1, 'duration': 3.0}, ('b', 1): 2, ('b', 2): 0}, oracle=oracle, depth=2, window=14 if deep else 3, policies=('fifo',),
                       offers=('delay', 'stall:6')))
    # two clients
    S.append(Retry('two-clients', ('a', 'b', 'c'), dict(bundlesize=1, max_retries=1), [dict(num_tasks=1, bundlesize=1, at=2), dict(num_tasks=1, bundlesize=1, at=2.5)],
                   plan, oracle=oracle, depth=1, offers=('delay',)))
    t = Retry('tags', ('a', 'b'), dict(bundlesize=2, max_retries=2, restart_mode=True), [dict(num_tasks=1, bundlesize=1)], plan, oracle=oracle,
              source=lambda scn, w: None, prepare=tagged, depth=1, policies=('fifo',))
    t.tags = {'a': {'x': 1, 'y': 'text', 'z': ''}, 'b': {'site': 'b', 'n': 2.5, 'flag': True}}
    S.append(t)
    return Check('P05', S)
