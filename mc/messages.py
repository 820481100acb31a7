"""
The messages of programs.  Python's logging is one per process, but every simulated program has set up its own: here each
message goes to the handlers, level and record type of the copy of the package whose program is running.
"""
import logging
import sys

import sched

ROOT = 'hypershell'


def setup_of(I):
    """(level, handlers) as set up by this copy for its console program."""
    if 'log_setup' not in I.__dict__:
        logger = logging.getLogger(ROOT)
        keep, level = logger.handlers, logger.level
        logger.handlers = list(I.log_handlers)
        logger.setLevel(I.log_level)
        try:
            f = I.core_logging.initialize_logging
            getattr(f, 'cache_clear', lambda: None)()
            f()
            hs = [h for h in logger.handlers if not isinstance(h, logging.NullHandler)]
            for h in hs:
                if isinstance(h, logging.StreamHandler):
                    h.setStream(Out())
            I.__dict__['log_setup'] = logger.level, hs
        finally:
            logger.handlers = keep
            logger.setLevel(level)
    return I.__dict__['log_setup']


class Out:
    """Standard error of whichever program is running."""

    def write(self, text):
        w = sched.WORLD
        p = w.cur.proc if w is not None and w.cur is not None else None
        if p is None or not hasattr(w, 'shown'):
            return REAL.write(text)
        if text.strip():
            b = w.breaker
            if b is not None:
                b(w, p)
            w.shown.append((p.name, text))
        return len(text)

    def flush(self):
        pass

    def fileno(self):
        return REAL.fileno()


REAL = sys.stderr


class Dispatch(logging.Handler):
    def handle(self, record):           # without a lock: programs do not share one
        w = sched.WORLD
        p = w.cur.proc if w is not None and w.cur is not None else None
        if p is None or p.inst is None or not hasattr(w, 'shown') or w.cur.state == 'dead':
            return
        level, handlers = setup_of(p.inst)
        if record.levelno < level:
            return
        w.messages.append((w.now, p.name, record.levelname, record.name, record.getMessage()))
        for h in handlers:
            if record.levelno >= h.level:
                try:
                    h.handle(record)
                except sched.Kill:
                    raise
                except BaseException:        # noqa
                    w.hit = True
                    raise


def factory(*a, **k):
    w = sched.WORLD
    p = w.cur.proc if w is not None and w.cur is not None else None
    return (p.inst.log_factory if p is not None and p.inst is not None else logging.LogRecord)(*a, **k)


def attach(w, insts, breaker=None):
    """Collect messages in w.messages: (time, program, level, module, text), and what is shown in w.shown: (program, line)."""
    w.messages, w.shown, w.breaker = [], [], breaker
    logger = logging.getLogger(ROOT)
    logger.handlers = [Dispatch()]
    logger.propagate = False
    logger.setLevel(min(setup_of(I)[0] for I in insts))
    logging.setLogRecordFactory(factory)
    logging._startTime = sched.EPOCH
    sys.stderr = Out()


def detach():
    sys.stderr = REAL
    logging.getLogger(ROOT).handlers = [logging.NullHandler()]
