"""A real client against a scripted server (real queues, no scheduler of hypershell's)."""
import json
import os
import sys

import fakes
import inst
import sched
from explore import get_inst
from fleet import Fleet, runs, task_ids, traffic
from sched import EPOCH


class ClientBench(Fleet):
    """bundles: [(time, [line, ...])] handed out at these moments (or as soon as the queue has room);
    then `dismiss` seconds later (None: never) the client is dismissed.
    accept: seconds the server waits before it takes each bundle of results (the last value repeats)."""
    starve = True
    scripted = True

    def __init__(self, name, bundles, client=None, plan=None, dismiss=1, accept=(0,), tags=None, attempts=None, more=None, **k):
        self.bundles, self.dismiss, self.accept, self.tags, self.attempts = list(bundles), dismiss, tuple(accept), tags or {}, attempts or {}
        self.more = more
        k.setdefault('no_slow', ('heartbeat', 'server'))
        super().__init__(name, [x for _, b in bundles for x in b], {}, [dict(client or {})], plan, db=False, **k)
        self.main = ClientBench.serve

    def describe(self):
        return f'bundles {self.bundles} dismissed {self.dismiss} results taken after {self.accept} ' + super().describe()

    def execute(self, *a, **k):
        """The standard streams of the programs are files (self.std) that can be inspected and may be closed."""
        old = sys.stdout, sys.stderr
        self.std = [os.path.join(inst.scratch(), 'std' + x) for x in ('out', 'err')]
        sys.stdout, sys.stderr = (open(p, 'w') for p in self.std)
        try:
            return super().execute(*a, **k)
        finally:
            for f in (sys.stdout, sys.stderr):
                f.close()
            sys.stdout, sys.stderr = old

    def giving(self, tasks):
        """Called before a bundle of tasks is handed out."""

    def serve(self, w):
        S = self.S
        Q = S.core_queue
        w.given = []                 # (time, [task dict])
        w.taken = []                 # (time, [task dict])
        w.final = None               # when the client announced its end
        srv = Q.QueueServer(config=Q.QueueConfig(size=1))
        with srv:
            def give():
                t0 = EPOCH
                for at, lines in self.bundles:
                    if w.now < t0 + at:
                        fakes.v_sleep(t0 + at - w.now)
                    M = []
                    for x in lines:
                        t = S.data_model.Task.new(args=x, tag=dict(self.tags.get(x, {})))
                        t.attempt = self.attempts.get(x, 1)
                        t.schedule_time = fakes.VDateTime.now().astimezone()
                        M.append(t)
                    self.giving(M)
                    L = [t.pack() for t in M]
                    w.given.append((w.now, [json.loads(b) for b in L]))
                    srv.scheduled.put(L)
                if self.dismiss is not None:
                    fakes.v_sleep(max(0, self.dismiss))
                    srv.scheduled.put(None)

            def take():
                n = 0
                while True:
                    d = self.accept[min(n, len(self.accept) - 1)]
                    n += 1
                    if d:
                        fakes.v_sleep(d)
                    b = srv.completed.get()
                    srv.completed.task_done()
                    if b is None:
                        return
                    w.taken.append((w.now, [json.loads(x) for x in b]))

            def beats():
                while True:
                    hb = json.loads(srv.heartbeat.get())
                    srv.heartbeat.task_done()
                    if hb['state'] == 1:
                        w.final = w.now
                        return
            T = [fakes.VThread(target=f, name=n, daemon=True) for f, n in ((give, 'stub-give'), (take, 'stub-take'), (beats, 'stub-beats'))]
            for t in T:
                t.start()
            T[2].join()
            fakes.v_sleep(3)
            srv.completed.put(None)
            T[1].join()

    def offer(self, w, t, kind, obj):
        if t.proc.name == 'server':
            return ()
        return super().offer(w, t, kind, obj)

    def until(self, w):
        if self._until:
            return self._until(self, w)
        c = w.clients[0]
        return c is not None and c.exit is not None and (w.server.exit is not None or w.now > c.exit_time + 30)


def client_ids(w):
    """Ids of the tasks taken by the client."""
    return [i for _, _, b in traffic(w, 'get', 'scheduled') for i in task_ids(b)]


def returned(w):
    """Every task put into the queue of results: (time, position in the log, task dict, size of its bundle)."""
    out = []
    for n, r in enumerate(w.qlog):
        if r[0] == 'put' and r[1].startswith('completed') and r[2].startswith('client') and r[4] is not None:
            for b in r[4]:
                out.append((r[3], n, json.loads(b), len(r[4])))
    return out


def final_beats(w):
    """Positions in the log at which the client announced its end."""
    return [n for n, r in enumerate(w.qlog) if r[0] == 'put' and r[1].startswith('heartbeat') and r[2].startswith('client')
            and json.loads(r[4])['state'] == 1]


def client_ended(w, reason, out):
    """The client came to an orderly end."""
    c = w.clients[0]
    if c is None or c.exit is None:
        out.append(f'the client does not leave ({reason} after {w.now - EPOCH:.0f} s; waiting: '
                   f"{[(t.name, t.what) for t in w.blocked if t.proc.name == 'client1']})")
        return False
    if c.exit[0] != 'ok':
        out.append(f'the client ended with {c.exit[0]} {c.exit[1]!r}')
    for t in w.threads:
        if t.proc is c:
            e = t.exc or getattr(t.owner, '_Thread__exception', None)
            if e is not None:
                out.append(f'thread {t.name} died with {type(e).__name__}: {e}')
    return True


def returned_once(w, out, want=None):
    """Everything the client took was run and returned once, before it announced its end (once, last)."""
    want = client_ids(w) if want is None else want
    ret = returned(w)
    names = {t['id']: t['args'] for _, b in w.given for t in b}
    for i in want:
        k = [n for _, n, t, _ in ret if t['id'] == i]
        if len(k) != 1:
            out.append(f'task {names.get(i)} was received and returned {len(k)} times')
    for _, _, t, _ in ret:
        if t['id'] not in want:
            out.append(f"task {t['args']} was returned and never received")
    fin = final_beats(w)
    if len(fin) != 1:
        out.append(f'the client announced its end {len(fin)} times')
    elif ret and max(n for _, n, _, _ in ret) > fin[0]:
        out.append('results were returned after the client had announced its end')
    return ret
