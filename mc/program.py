"""One program run to its end on its own: its exit status, error, output and virtual duration."""
import collections
import io
import os
import sys

import fakes
import sched
from explore import tidy

Outcome = collections.namedtuple('Outcome', 'status error out err stuck elapsed world')


class Stream(io.TextIOWrapper):
    """A standard stream of the program that is not a terminal (UTF-8); its contents are bytes."""

    def __init__(self):
        super().__init__(io.BytesIO(), encoding='utf-8', errors='surrogateescape', newline='\n')

    @property
    def name(self):
        return '<stream>'

    def getvalue(self):
        self.flush()
        return self.buffer.getvalue()


def run(inst, fn, policy='fifo', horizon=300.0, stdin='', at=(), devs=None, behaviour=None, max_steps=60_000, signals=False, scenario=None, binary=False, real_std=False, prepare=None, until_all=False):
    """fn() runs as the main function of a program on this copy of the package.
    at: [(seconds, function of the world)]; real_std: it keeps this process's standard output and error.  status: what fn returned; error: the exception it ended with."""
    tidy()
    w = sched.World(chooser=sched.Chooser(devs), policy=policy, horizon=horizon, max_steps=max_steps)
    w.scenario = scenario
    if behaviour:
        w.behaviour = behaviour
    sched.activate(w)
    fakes.patch()
    keep = sys.stdout, sys.stderr, sys.stdin
    out, err = (Stream(), Stream()) if binary else (io.StringIO(), io.StringIO())
    sys.stdin = io.StringIO(stdin)
    if not real_std:
        sys.stdout, sys.stderr = out, err
    try:
        def main():
            if signals:
                inst.core_signal.register_handlers()
            return fn()
        p = w.add_proc('program', inst, main)
        for t, f in at:
            w.at(sched.EPOCH + t, lambda f=f: f(w))
        if prepare:
            prepare(w)
        w.run(until=lambda: p.exit is not None and not (until_all and any(x.alive for x in w.procs)))
        ended, when = p.exit, p.exit_time
    finally:
        try:
            w.close()
        finally:
            sys.stdout, sys.stderr, sys.stdin = keep
            fakes.unpatch()
            sched.deactivate()
    if ended is None:
        return Outcome(None, None, out.getvalue(), err.getvalue(), True, w.now - sched.EPOCH, w)
    error = ended[1] if ended[0] == 'exc' else None
    if isinstance(error, sched.HarnessError):
        raise error
    return Outcome(ended[1] if ended[0] == 'ok' else None, error, out.getvalue(), err.getvalue(), False, (when or w.now) - sched.EPOCH, w)
