"""P07: cancel, revert, delete and edit take effect safely while a server is running."""
import datetime as dt
import json
from explore import Check, get_inst
from fleet import Again, runs, ends, traffic, chains
from sched import EPOCH
import sched


def user():
    return get_inst('user')


class UserFleet(Again):
    """One user command, issued at any moment; optionally the server is started again afterwards."""

    def __init__(self, name, *a, action=(), target='c', again=False, **k):
        super().__init__(name, *a, **k)
        self.action, self.target, self.again = action, target, again
        self.events = {'user': lambda scn, w: scn.act(w)}

    def setup(self):
        super().setup()
        user().reset()

    def build(self, w):
        super().build(w)
        w.acted = None

    def act(self, w):
        U = user()

        def main():
            pre = self.rows()
            began = w.time()
            rc = U.task.TaskUpdateApp.main([*self.action, '-w', f'args=={self.target}', '--no-confirm'])
            w.acted = dict(pre=pre, began=began, ended=w.time(), post=self.rows(), rc=rc)
        w.user = w.add_proc('user', U, main)
        w.ready.remove(w.user.main)
        w.ready.appendleft(w.user.main)         # before whoever was interrupted goes on

    def first_done(self, w):
        return super().first_done(w) and not (hasattr(w, 'user') and w.user.exit is None)

    def offer(self, w, t, kind, obj):
        if t.proc.inst is None or w.second:
            return ()
        if t.proc.name == 'user':
            return ('delay',) if w.others_ready() else ()
        L = []
        if self.delay and w.others_ready():
            L.append('delay')
        if w.events and w.net:
            L += ['ev:' + e for e in w.events]
        return L

    def check(self, w, reason):
        return oracle(self, w, reason)


def parse(ts):
    return None if ts is None else dt.datetime.fromisoformat(ts).timestamp()


def oracle(scn, w, reason):
    out = ends(scn, w, reason)
    out += scn.second_ends(w, reason)
    if out:
        return out
    rows = scn.rows()
    rs = runs(w)
    limit = scn.server.get('max_retries', 0) + 1
    touched = set()
    verb = scn.action[0]
    if w.acted:
        A = w.acted
        if A['rc'] != 0:
            return [f"the command failed with {A['rc']}"]
        wire = {}          # id -> schedule times under which it was handed out
        for _, _, b in traffic(w, 'put', 'scheduled'):
            for x in b or ():
                t = json.loads(x)
                wire.setdefault(t['id'], []).append(parse(t['schedule_time']))
        dismissed = [t for t, _, b in traffic(w, 'put', 'scheduled') if b is None]
        final = {r['id']: r for r in rows}
        post = {r['id']: r for r in A['post']}
        for pre in A['pre']:
            if pre['args'] != scn.target:
                continue
            i = pre['id']
            touched.add(i)
            f = final.get(i)
            who = f"{pre['args']}/{pre['attempt']}"
            # the server had already chosen it when the command took effect
            chosen = pre['schedule_time'] is not None or any(s <= A['ended'] for s in wire.get(i, ()))
            after = [r for r in rs if r.id == i and r.start >= A['ended']]
            if verb == '--cancel':
                if not chosen:
                    if any(r.id == i for r in rs):
                        out.append(f'{who} was cancelled before it was scheduled and was run')
                    if f is None or f['exit_status'] != -1 or f['completion_time'] is not None or f['next_id']:
                        out.append(f"{who} was cancelled, its record is {f and (f['exit_status'], f['completion_time'], f['next_id'])}")
                elif len([r for r in rs if r.id == i]) > 1:
                    out.append(f'{who} was cancelled too late and was run more than once')
                if pre['schedule_time'] is not None and pre['completion_time'] is not None and any(r.start > A['ended'] + 20 for r in after):
                    out.append(f'{who} was finished, then cancelled, and was run again')
            elif verb == '--delete':
                if not chosen and any(r.id == i for r in rs):
                    out.append(f'{who} was deleted before it was scheduled and was run')
                if f is not None:
                    out.append(f'{who} was deleted and is back')
            elif verb == '--revert':
                closing = dismissed and A['ended'] > dismissed[0] - 8
                if pre['completion_time'] is not None and not after and not closing:
                    out.append(f'{who} was finished, then reverted, and was not run again')
                if f is None or (f['completion_time'] is None or f['exit_status'] is None) and not closing:
                    out.append(f'{who} was reverted and never finished')
            else:
                for a in scn.action:
                    if ':' in a:
                        k, v = a.split(':')
                        if f is None or (pre['completion_time'] is None and str(json.loads(f['tag']).get(k)) != v):
                            out.append(f"{who}: tag {a} set while it was unfinished is lost: {f and f['tag']}")
                    elif '=' in a:
                        k, v = a.split('=', 1)
                        if f is None or (pre['completion_time'] is None and str(f[k]) != v):
                            out.append(f'{who}: {a} set while it was unfinished is lost: {f and f[k]}')
                        if k == 'args' and not chosen and [r.args for r in rs if r.id == i] != [v]:
                            out.append(f'{who}: edited before it was scheduled, ran {[(r.args, r.command) for r in rs if r.id == i]}')
        touched |= {r['id'] for r in A['post'] if r['args'] == scn.target}
    # everybody else is unaffected
    for r in rows:
        if w.acted and r['args'] == scn.target:
            continue
        if r['id'] in touched or r['previous_id'] in touched:
            continue
        n = len([x for x in rs if x.id == r['id']])
        if n != 1 or r['completion_time'] is None:
            out.append(f"{r['args']}/{r['attempt']} was not touched, it ran {n} times and has status {r['exit_status']}")
        if r['exit_status'] not in (None, 0) and r['attempt'] < limit and r['next_id'] is None:
            out.append(f"{r['args']}/{r['attempt']} failed and was not retried")
    firsts = [r['args'] for r in rows if r['previous_id'] is None and r['id'] not in touched and not (w.acted and r['args'] in (scn.target, 'z'))]
    if sorted(firsts) != sorted(x for x in scn.tasks if not (w.acted and x == scn.target)):
        out.append(f'other records: {firsts}')
    return out


ACTIONS = {'cancel': ['--cancel'], 'revert': ['--revert'], 'delete': ['--delete'], 'tag': ['site:x1', 'n:5'], 'args': ['args=z']}


def make(tier):
    deep = tier == 'thorough'
    S = []
    plan = {'b': 1, 'c': {'status': 3, 'duration': 2.5}, 'z': 0}
    for name, action in ACTIONS.items():
        for target in ('c', 'e') if deep or name in ('cancel', 'delete') else ('c',):
            for b, n, r in ((1, 1, 0), (2, 1, 1)) if not deep else ((1, 1, 0), (1, 1, 1), (2, 1, 1), (3, 2, 1)):
                S.append(UserFleet(f'{name}-{target}-b{b}-x{n}-r{r}', ('a', 'b', 'c', 'd', 'e'), dict(bundlesize=b, bundlewait=1, max_retries=r),
                                   [dict(num_tasks=n, bundlesize=b, bundlewait=1)], plan, action=action, target=target,
                                   offers=(), depth=1, policies=('fifo', 'rr', 'lifo') if deep else ('fifo',), starve=False, horizon=600.0))
        # the user's command itself interrupted by the server
        S.append(UserFleet(f'{name}-mixed', ('b', 'c'), dict(bundlesize=1, bundlewait=1, max_retries=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)],
                           plan, action=action, target='c', offers=('delay',) if deep else (), depth=2, window=10 if deep else 3, policies=('fifo',), starve=False))
    for name in ('cancel', 'delete', 'revert'):
        S.append(UserFleet(f'{name}-again', ('a', 'b', 'c'), dict(bundlesize=1, bundlewait=1, max_retries=1), [dict(num_tasks=1, bundlesize=1, bundlewait=1)],
                           plan, action=ACTIONS[name], target='c', again=True, offers=(), depth=1, policies=('fifo',), starve=False))
    return Check('P07', S)
