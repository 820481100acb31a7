"""Scripted peers: a client that is not hypershell's (to observe a server) and a server that is not (to observe a client).
They speak the documented message formats (JSON) over the package's queue connection."""
import datetime as dt
import json
import queue

from sched import EPOCH


def stamp(t):
    return dt.datetime.fromtimestamp(t).astimezone().isoformat(sep=' ')


class StubClient:
    """Runs in its own program thread on a copy of the package that is only used for its connection."""

    def __init__(self, w, C, uuid='11111111-0000-4000-8000-000000000001', host='stub'):
        self.w, self.uuid, self.host = w, uuid, host
        self.q = C.core_queue.QueueClient(config=C.core_queue.QueueConfig())
        self.q.connect()

    def beat(self, state=0, when=None):
        self.q.heartbeat.put(json.dumps({'uuid': self.uuid, 'host': self.host, 'time': stamp(when or self.w.now), 'state': state}).encode())

    def get(self, timeout):
        """Next bundle as a list of task dicts; None: dismissed; Empty raised when there is none."""
        b = self.q.scheduled.get(timeout=timeout)
        self.q.scheduled.task_done()
        return None if b is None else [json.loads(x) for x in b]

    def confirm(self, tasks):
        self.q.confirmed.put(json.dumps({'client_id': self.uuid, 'client_host': self.host, 'task_ids': [t['id'] for t in tasks]}).encode())

    def finish(self, tasks, status=0, when=None, timeout=None):
        """Return tasks as completed."""
        out = []
        for t in tasks:
            t = dict(t)
            at = when or self.w.now
            t.update(client_id=self.uuid, client_host=self.host, command=t['args'], start_time=stamp(at - 1), completion_time=stamp(at),
                     exit_status=status if isinstance(status, int) else status(t), waited=1, duration=1)
            out.append(json.dumps(t).encode())
        self.q.completed.put(out, timeout=timeout)


def peer(scn, w, name, inst, fn):
    """Run fn in its own program once the server listens; the program object is returned in w.peers."""
    def start():
        if not w.net:
            if w.server.exit is None:
                w.at(w.now + 0.5, start)
            return
        w.peers[name] = w.add_proc(name, inst, fn)
    w.peers = getattr(w, 'peers', {})
    w.at(EPOCH + 2, start)


Empty, Full = queue.Empty, queue.Full
