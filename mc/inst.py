"""
Copies of the hypershell package.  Every simulated program (server, each client, a restarted server...) runs on
its own fresh import of /repo/src/hypershell, so module globals (instance id, received signal, database engine,
configuration) are separate exactly as in separate processes.
"""
import importlib
import logging
import os
import shutil
import socket
import sqlite3
import sys
import tempfile

import fakes
import lines
import sched

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')

# third-party packages are imported before anything is patched
import sqlalchemy, sqlalchemy.orm, sqlalchemy.event, sqlalchemy.exc      # noqa
from sqlalchemy.orm import scoped_session
from sqlalchemy.engine import Engine
from sqlalchemy.util import ScopedRegistry
import sqlalchemy.dialects.sqlite                                        # noqa
import cmdkit, cmdkit.app, cmdkit.cli, cmdkit.config, cmdkit.ansi        # noqa
import tomlkit, rich, rich.console, rich.table, rich.syntax              # noqa
for _m in ('paramiko', 'yaml', 'requests', 'rich.theme', 'rich.text', 'concurrent.futures', 'multiprocessing.pool',
           'sqlalchemy.dialects.postgresql', 'sqlalchemy.ext.declarative'):
    try:
        importlib.import_module(_m)
    except Exception:      # noqa
        pass

logging.getLogger('sqlalchemy').addHandler(logging.NullHandler())
logging.getLogger('sqlalchemy').propagate = False
for _n in ('sqlalchemy', 'sqlalchemy.pool', 'sqlalchemy.engine', 'sqlalchemy.orm'):
    logging.getLogger(_n).setLevel(logging.CRITICAL + 10)
logging.raiseExceptions = False

MODULES = ['hypershell', 'hypershell.server', 'hypershell.client', 'hypershell.submit', 'hypershell.cluster',
           'hypershell.cluster.local', 'hypershell.cluster.remote', 'hypershell.cluster.ssh', 'hypershell.task',
           'hypershell.config', 'hypershell.data', 'hypershell.data.core', 'hypershell.data.model',
           'hypershell.core.config', 'hypershell.core.template', 'hypershell.core.signal', 'hypershell.core.queue',
           'hypershell.core.thread', 'hypershell.core.fsm', 'hypershell.core.heartbeat', 'hypershell.core.types',
           'hypershell.core.logging', 'hypershell.core.platform']


def scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


_SCRATCH = None


def scratch():
    """This process's scratch directory (removed by the driver)."""
    global _SCRATCH
    if _SCRATCH is None or _SCRATCH[0] != os.getpid():
        base = os.environ.get('VERIF_SCRATCH') or tempfile.mkdtemp(prefix='hsmc-', dir=scratch_root())
        d = os.path.join(base, f'w{os.getpid()}')
        os.makedirs(d, exist_ok=True)
        _SCRATCH = (os.getpid(), d)
    return _SCRATCH[1]


def hs_modules():
    return [k for k in sys.modules if k == 'hypershell' or k.startswith('hypershell.')]


class Inst:
    """One copy of the package."""

    def __init__(self, name, env=None, db='world.db', site='site', fine=(), host=None):
        self.name = name
        self.host = host or socket.gethostname()
        self.fine = fine           # modules with a scheduling point before every statement
        d = scratch()
        self.site = os.path.join(d, site)
        os.makedirs(self.site, exist_ok=True)
        self.env = {'HYPERSHELL_SITE': self.site, 'HOME': d, 'HYPERSHELL_LOGGING_LEVEL': 'CRITICAL'}
        self.dbpath = None
        if db:
            self.dbpath = os.path.join(d, db)
            self.env['HYPERSHELL_DATABASE_FILE'] = self.dbpath
        self.env.update(env or {})
        self.conns = []
        self.statements = 0
        self._load()

    def _load(self):
        saved = {k: sys.modules.pop(k) for k in hs_modules()}
        keep_env = dict(os.environ)
        for k in list(os.environ):
            if k.startswith('HYPERSHELL'):
                del os.environ[k]
        os.environ.update({k: v for k, v in self.env.items() if v is not None})
        if SRC not in sys.path:
            sys.path.insert(0, SRC)
        cwd = os.getcwd()
        os.chdir(scratch())
        fakes.patch()
        gethostname, socket.gethostname = socket.gethostname, lambda: self.host
        logger, factory = logging.getLogger('hypershell'), logging.getLogRecordFactory()
        handlers, logger.handlers = logger.handlers, []
        logger.setLevel(logging.NOTSET)
        try:
            with lines.Finder(self.fine):
                for m in MODULES:
                    importlib.import_module(m)
            self.mods = {k: sys.modules[k] for k in hs_modules()}
            # logging is shared by all copies: what this one has set up (see messages.py)
            self.log_level, self.log_handlers, self.log_factory = logger.level, logger.handlers, logging.getLogRecordFactory()
        finally:
            logger.handlers = handlers or [logging.NullHandler()]
            if handlers:
                logging.setLogRecordFactory(factory)
            socket.gethostname = gethostname
            fakes.unpatch()
            os.chdir(cwd)
            os.environ.clear()
            os.environ.update(keep_env)
            for k in hs_modules():
                del sys.modules[k]
            sys.modules.update(saved)
        if not self.mods['hypershell'].__file__.startswith(SRC):
            raise sched.HarnessError(f'wrong package: {self.mods["hypershell"].__file__}')
        self.sessions, self.engines = [], []
        for m in self.mods.values():
            for v in vars(m).values():
                if isinstance(v, scoped_session) and v not in self.sessions:
                    self.sessions.append(v)
                if isinstance(v, Engine) and v not in self.engines:
                    self.engines.append(v)
        self.globals = [(m, k, v) for m in self.mods.values() for k, v in vars(m).items()
                        if v is None or isinstance(v, (bool, int, float, str)) and not k.startswith('__')]
        for s in self.sessions:
            s.registry = ScopedRegistry(s.session_factory, scopefunc=lambda: id(fakes.vthread()))
        for e in self.engines:
            sqlalchemy.event.listen(e, 'connect', self._on_connect)
            sqlalchemy.event.listen(e, 'before_cursor_execute', self._before)

    # -- access -----------------------------------------------------------------------------
    def __getattr__(self, name):
        mods = self.__dict__.get('mods')
        if mods is None:
            raise AttributeError(name)
        key = 'hypershell.' + name.replace('_', '.')
        if key in mods:
            return mods[key]
        raise AttributeError(name)

    @property
    def instance(self):
        """The program's unique id."""
        for m in self.mods.values():
            if isinstance(vars(m).get('INSTANCE'), str):
                return vars(m)['INSTANCE']
        raise sched.HarnessError('no INSTANCE')

    def install(self):
        """Make this copy the one found by late imports."""
        for k in hs_modules():
            del sys.modules[k]
        sys.modules.update(self.mods)

    # -- database ---------------------------------------------------------------------------
    def _on_connect(self, dbapi, record):
        self.conns.append(dbapi)
        c = dbapi.cursor()
        c.execute('PRAGMA synchronous=OFF')
        c.execute('PRAGMA busy_timeout=20')
        c.close()

    def _before(self, conn, cursor, statement, parameters, context, executemany):
        self.statements += 1
        w = sched.WORLD
        if w is None or w.cur is None:
            return
        raw = conn.connection.dbapi_connection
        if raw.in_transaction:
            return
        verb = statement.split(None, 1)[0].upper()
        w.point('sql', verb)
        if w.fault == 'db':
            w.fault = None
            w.hit = True
            raise sqlalchemy.exc.OperationalError(statement, parameters, sqlite3.OperationalError('disk I/O error'))

    def drop_sessions(self):
        """The process has died: its connections vanish, open transactions roll back."""
        for s in self.sessions:
            s.registry.registry.clear()
        for c in self.conns:
            try:
                c.close()
            except Exception:     # noqa
                pass
        self.conns = []
        for e in self.engines:
            e.dispose(close=False)

    # -- per-execution reset ----------------------------------------------------------------
    def reset(self):
        self.drop_sessions()
        self.statements = 0
        for m, k, v in self.globals:
            if vars(m).get(k, self) is not v:
                setattr(m, k, v)
        for m in self.mods.values():
            for v in list(vars(m).values()):
                f = getattr(v, 'cache_clear', None)
                if f is not None and getattr(v, '__module__', '') == 'hypershell.core.config' and v.__name__ != 'load_file':
                    f()


_DB_TEMPLATE = {}


def db_template(inst):
    """Bytes of an initialised empty database."""
    key = inst.name
    if key not in _DB_TEMPLATE:
        if os.path.exists(inst.dbpath):
            os.unlink(inst.dbpath)
        inst.data.initdb()
        inst.drop_sessions()
        with open(inst.dbpath, 'rb') as f:
            _DB_TEMPLATE[key] = f.read()
    return _DB_TEMPLATE[key]


def fresh_db(inst):
    t = db_template(inst)
    for suffix in ('', '-journal', '-wal', '-shm'):
        try:
            os.unlink(inst.dbpath + suffix)
        except FileNotFoundError:
            pass
    with open(inst.dbpath, 'wb') as f:
        f.write(t)


def rows(dbpath, table='task', order='rowid'):
    """Raw rows (read outside the code under test)."""
    c = sqlite3.connect(f'file:{dbpath}?mode=ro', uri=True)
    try:
        c.row_factory = sqlite3.Row
        return [dict(r) for r in c.execute(f'select * from {table} order by {order}')]
    finally:
        c.close()
