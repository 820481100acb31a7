"""P26: the database connection is exactly the configured one."""
import importlib
import io
import itertools
import json
import os
import sys
import types

import sqlalchemy
from sqlalchemy.engine import make_url

import inst
from explore import Check

TEXTS = ('me', 'a@b', 'a:b', 'a/b', 'a?b', 'a#b', 'a%41b', 'a b', 'a+b', 'q\'"', 'ü€', '[x]', '\\n', 'a&b=c', '%', '%%40', ';,|', '${x}', 'x' * 70)
DBNAMES = TEXTS + ('../up',)
HOSTS = ('db.net', '10.1.2.3', '::1', 'fe80::1%eth0', 'localhost')
NETWORK = ('database', 'file', 'user', 'password', 'host', 'port')


class Seen(BaseException):
    pass


def toml(fields):
    def val(v):
        if isinstance(v, bool):
            return 'true' if v else 'false'
        if isinstance(v, dict):
            return '{' + ', '.join(f'{k} = {val(x)}' for k, x in v.items()) + '}'
        if isinstance(v, (int, float)):
            return str(v)
        return json.dumps(v)
    return '[database]\n' + ''.join(f'{k} = {val(v)}\n' for k, v in fields.items())


def load(fields, env=()):
    """What a program with this database section does: ('connect', arguments, keywords, url text, repr) or ('refused', status); and all it printed."""
    d = os.path.join(inst.scratch(), 'p26')
    os.makedirs(d + '/site', exist_ok=True)
    path = d + '/c.toml'
    with open(path, 'w') as f:
        f.write(toml(fields))
    for n in os.listdir(d + '/site'):
        p = os.path.join(d, 'site', n)
        if os.path.isfile(p):
            os.unlink(p)
    saved = {k: sys.modules.pop(k) for k in inst.hs_modules()}
    keep_env, keep_cwd, keep = dict(os.environ), os.getcwd(), (sys.stdout, sys.stderr)
    for k in list(os.environ):
        if k.startswith('HYPERSHELL'):
            del os.environ[k]
    os.environ.update({'HOME': d, 'HYPERSHELL_SITE': d + '/site', 'HYPERSHELL_CONFIG_FILE': path, **dict(env)})
    os.chdir(d)
    out = io.StringIO()
    sys.stdout = sys.stderr = out
    try:
        for name in ('hypershell', 'hypershell.data'):
            m = types.ModuleType(name)
            m.__path__ = [os.path.join(inst.SRC, *name.split('.'))]
            sys.modules[name] = m
        try:
            core = importlib.import_module('hypershell.data.core')
        except SystemExit as e:
            return ('refused', e.code), out.getvalue()
        if not core.__file__.startswith(inst.SRC):
            raise RuntimeError('wrong package')
        got = []

        def do_connect(dialect, record, cargs, cparams):
            got.append((list(cargs), dict(cparams)))
            raise Seen()
        sqlalchemy.event.listen(core.engine, 'do_connect', do_connect)
        try:
            core.engine.connect()
        except Seen:
            pass
        args, kw = got[0]
        return ('connect', args, kw, core.in_memory), out.getvalue()
    finally:
        sys.stdout, sys.stderr = keep
        os.chdir(keep_cwd)
        os.environ.clear()
        os.environ.update(keep_env)
        for k in inst.hs_modules():
            del sys.modules[k]
        sys.modules.update(saved)


def expected(fields, env):
    """('refused',) or ('connect', args, kw, in memory)."""
    f = {}
    for k, v in fields.items():
        if k.endswith('_env'):
            f[k[:-4]] = dict(env)[v]
        elif k.endswith('_eval'):
            f[k[:-5]] = v.split(' ', 1)[1]          # echo TEXT
        else:
            f[k] = v
    provider = f.pop('provider', 'sqlite')
    f.pop('schema', None), f.pop('echo', None)
    extra = {**f.pop('connect_args', {}), **f.pop('connection_args', {})}
    known = {k: f.pop(k, None) for k in NETWORK}
    if provider not in ('sqlite', 'postgres', 'postgresql'):
        return ('refused',)
    if provider == 'sqlite':
        if any(known[k] is not None for k in ('user', 'password', 'host', 'port')) or known['file'] is not None and known['database'] is not None:
            return ('refused',)
        name = known['file'] or known['database'] or ':memory:'
        kw = {'check_same_thread': False, **extra}
        if 'timeout' in f:
            kw['timeout'] = float(f['timeout'])
        return ('connect', [name if name == ':memory:' else os.path.abspath(os.path.join(inst.scratch(), 'p26', name))], kw, name == ':memory:')
    if known['file'] or not known['database'] or (known['user'] is None) != (known['password'] is None):
        return ('refused',)
    kw = {'dbname': str(known['database']), **{k: str(v) for k, v in f.items()}, **extra}
    if known['user'] is not None:
        kw['user'] = str(known['user'])
        if known['password'] != '':            # the library makes no difference between none and an empty one
            kw['password'] = str(known['password'])
    if known['host']:
        kw['host'] = known['host']
    elif known['port'] or known['user']:
        kw['host'] = 'localhost'
    if known['port']:
        kw['port'] = int(known['port'])
    return ('connect', [], kw, False)


def connect_case(case):
    fields, env = dict(case[0]), case[1] if len(case) > 1 else ()
    fields = {k: dict(v) if isinstance(v, tuple) else v for k, v in fields.items()}
    want = expected(fields, env)
    got, text = load(fields, env)
    out = []
    if want[0] == 'refused':
        if got[0] != 'refused' or not got[1]:
            out.append(f'accepted: {got}')
    elif got[0] != 'connect':
        out.append(f'refused: {got}')
    else:
        _, args, kw, memory = got
        if args != want[1]:
            out.append(f'connects to {args} instead of {want[1]}')
        for k in sorted(set(kw) | set(want[2])):
            if k not in kw or k not in want[2] or kw[k] != want[2][k]:
                out.append(f'connects with {k}={kw.get(k)!r} instead of {want[2].get(k)!r}')
        if memory != want[3]:
            out.append(f'no database: {memory}')
    secret = fields.get('password')
    if isinstance(secret, str) and len(secret) > 3 and not any(secret in str(v) for k, v in fields.items() if k != 'password'):
        site = os.path.join(inst.scratch(), 'p26', 'site')
        for n in os.listdir(site):
            p = os.path.join(site, n)
            if os.path.isfile(p):
                with open(p, errors='replace') as f:
                    text += f.read()
        if secret in text:
            out.append('the password is printed')
    return [f'{fields}: {x}' for x in out[:3]], f'{got}', 1


_URL = {}


def url_class():
    if os.getpid() not in _URL:
        from explore import get_inst
        _URL[os.getpid()] = get_inst('urls').data_core.DatabaseURL
    return _URL[os.getpid()]


def url_case(case):
    """The text form, parsed by the database library, and the representation."""
    U = url_class()
    fields = dict(case[0])
    out = []
    try:
        u = U(**fields)
    except AttributeError:
        return [f'{fields}: rejected'], 'rejected', 1
    secret = str(fields.get('password') or '')
    p = make_url(u.encode())
    params = {k: str(v) for k, v in fields.items() if k not in (*NETWORK, 'provider')}
    port = fields.get('port')
    want = (fields['provider'], fields.get('user'), fields.get('password'), fields.get('host') or ('localhost' if port or fields.get('user') else None), port,
            fields.get('database') or fields.get('file'), params)
    got = (p.drivername, p.username, p.password, p.host, p.port, p.database, dict(p.query))
    if got != want:
        out.append(f'{u.encode()!r} denotes {got} instead of {want}')
    shown = repr(u)
    rest = shown
    for k, v in sorted(fields.items(), key=lambda x: -len(str(x[1]))):
        if k != 'password':
            rest = rest.replace(f'{k}={v!r}', '')
    if len(secret) > 3 and (secret in rest or repr(secret)[1:-1] in rest):
        out.append(f'{shown} shows the password')
    for k in NETWORK:
        if k != 'password' and fields.get(k) is not None and f'{k}={fields[k]!r}' not in shown:
            out.append(f'{shown} does not show the {k}')
    return [f'{fields}: {x}' for x in out[:3]], f'{got}', 1


def cases(tier):
    deep = tier == 'thorough'
    L = []
    base = {'provider': 'postgres', 'database': 'main'}

    def add(f, env=()):
        L.append(('connect', tuple((k, tuple(v.items()) if isinstance(v, dict) else v) for k, v in f.items()), tuple(env)))
    # presence of every setting
    vals = {'database': 'main', 'file': 'local.db', 'user': 'me', 'password': 'secret1', 'host': 'db.net', 'port': 5433, 'timeout': 5}
    for provider in ('sqlite', 'postgres', 'postgresql', 'mysql', 'oracle', None):
        for on in itertools.product((0, 1), repeat=len(vals)):
            f = {} if provider is None else {'provider': provider}
            f.update({k: v for (k, v), x in zip(vals.items(), on) if x})
            add(f)
    # every text in every place, in pairs
    for a, b in itertools.product(TEXTS, repeat=2):
        add({**base, 'user': a, 'password': b})
    for d in DBNAMES:
        add({**base, 'database': d})
        add({'provider': 'sqlite', 'file': d})
        add({'provider': 'sqlite', 'file': f'/tmp/{d}'})
        add({'provider': 'sqlite', 'database': d})
        for b in TEXTS:
            add({**base, 'database': d, 'user': 'me', 'password': b, 'host': 'db.net', 'port': 5433})
            add({**base, 'database': d, 'application_name': b})
    for h in HOSTS:
        for b in TEXTS if deep else TEXTS[:8]:
            for port in (None, 5433):
                f = {**base, 'host': h, 'user': 'me', 'password': b}
                if port:
                    f['port'] = port
                add(f)
                add({**f, 'application_name': b, 'sslmode': 'require', 'connect_timeout': 10})
    for h in ('/var/run/postgresql', 'h'):
        add({**base, 'host': h})
    for v in (':memory:', ''):
        add({'provider': 'sqlite', 'file': v})
        add({'provider': 'sqlite', 'database': v})
    for b in ('', 12345, 0.5):
        add({**base, 'user': 'me', 'password': b})
        add({**base, 'user': 'me', 'password': b, 'host': 'h', 'port': 1})
    for s in ('other', 'public'):
        add({**base, 'schema': s, 'echo': False})
    for name in ('connect_args', 'connection_args'):
        add({**base, name: {'application_name': 'x@/:y', 'connect_timeout': 3}})
        add({'file': 'x.db', name: {'timeout': 7}})
    # indirect values
    for b in TEXTS:
        add({**base, 'user': 'me', 'password_env': 'THE_PASSWORD'}, [('THE_PASSWORD', b)])
        add({**base, 'user_env': 'THE_USER', 'password': 'secret1'}, [('THE_USER', b)])
        add({**base, 'host_env': 'THE_HOST'}, [('THE_HOST', 'db.net')])
        add({'provider': 'sqlite', 'file_env': 'THE_FILE'}, [('THE_FILE', b)])
        add({'provider': 'postgres', 'database_env': 'THE_NAME'}, [('THE_NAME', b)])
    add({**base, 'user': 'me', 'password_eval': 'echo foo@bar:x/y'})
    if deep:
        for a, b, d in itertools.product(TEXTS, repeat=3):
            add({'provider': 'postgres', 'user': a, 'password': b, 'database': d, 'port': 5433})
    # the text form
    plain = [x for x in TEXTS if '?' not in x]

    def url(**f):
        L.append(('url', tuple(f.items())))
    for provider in ('postgresql', 'mysql'):
        for a, b in itertools.product(TEXTS, repeat=2):
            url(provider=provider, database='main', user=a, password=b)
        for d in plain:
            for b in TEXTS:
                url(provider=provider, database=d, user='me', password=b, host='db.net', port=5433, encoding=b)
                url(provider=provider, database=d, encoding=b)
        for h in HOSTS:
            for b in TEXTS:
                url(provider=provider, database='main', host=h, user='me', password=b)
                url(provider=provider, database='main', host=h, port=1, a=b, b=2)
    for d in plain:
        url(provider='sqlite', file=d)
        url(provider='sqlite', file='/x/' + d, timeout=5)
    return L


def run_case(case):
    return {'connect': connect_case, 'url': url_case}[case[0]](case[1:])


def make(tier):
    return Check('P26', cases=cases(tier), run_case=run_case, level='exploration',
                 rule='One case is one configuration of the database section, given to the real program: the driver call it makes (or its refusal) is compared with the one the '
                      'configuration denotes; or one connection description whose text form is parsed by the database library.',
                 assumptions=('SQLAlchemy and the configuration library are real; no server is contacted: the driver call is intercepted.',))
