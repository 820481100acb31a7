"""P23: configuration: precedence, lookup and edits are exact and never lose settings."""
import builtins
import importlib
import io
import itertools
import json
import os
import re
import shutil
import sys
import types

import tomlkit

import inst
from explore import Check

PLACES = ('system', 'user', 'local')


# --------------------------------------------------------------------------------- programs of their own
class Place:
    """A home, a site and a system directory in the scratch directory; each program imports its own copy."""

    def __init__(self):
        d = self.dir = os.path.join(inst.scratch(), 'p23')
        shutil.rmtree(d, ignore_errors=True)
        for x in ('etc', 'home/.hypershell', 'site', 'work'):
            os.makedirs(os.path.join(d, x))
        self.files = {'system': f'{d}/etc/hypershell.toml', 'user': f'{d}/home/.hypershell/config.toml', 'local': f'{d}/site/config.toml'}
        self.one = f'{d}/work/one.toml'

    def write(self, site, text):
        with open(self.files[site], 'w', newline='') as f:
            f.write(text)

    def read(self, site):
        try:
            with open(self.files[site], newline='') as f:
                return f.read()
        except FileNotFoundError:
            return None

    def program(self, argv=None, env=(), act=None, cwd=None):
        """hs config ARGV in a new program: (status, out, error); or act(core, config module)."""
        saved = {k: sys.modules.pop(k) for k in inst.hs_modules()}
        keep_env, keep_cwd, keep = dict(os.environ), os.getcwd(), (sys.stdout, sys.stderr)
        out, err = io.StringIO(), io.StringIO()
        for k in list(os.environ):
            if k.startswith('HYPERSHELL'):
                del os.environ[k]
        os.environ.update({'HOME': f'{self.dir}/home', 'HYPERSHELL_SITE': f'{self.dir}/site', **dict(env)})
        os.chdir(cwd or f'{self.dir}/work')
        sys.stdout, sys.stderr = out, err
        try:
            pkg = types.ModuleType('hypershell')
            pkg.__path__ = [os.path.join(inst.SRC, 'hypershell')]
            sys.modules['hypershell'] = pkg
            platform = importlib.import_module('hypershell.core.platform')
            platform.path.system.config = self.files['system']            # never the real /etc
            app = importlib.import_module('hypershell.config')
            core = sys.modules['hypershell.core.config']
            if not core.__file__.startswith(inst.SRC):
                raise RuntimeError('wrong package')
            core.datetime = Frozen
            if act:
                return act(core, app)
            try:
                return app.ConfigApp.main(list(argv)), out.getvalue(), None
            except SystemExit as e:
                return e.code, out.getvalue(), None
            except Exception as e:     # noqa
                return None, out.getvalue(), e
        finally:
            sys.stdout, sys.stderr = keep
            os.chdir(keep_cwd)
            os.environ.clear()
            os.environ.update(keep_env)
            for k in inst.hs_modules():
                del sys.modules[k]
            sys.modules.update(saved)


class Frozen:
    """All edits happen within the same second."""
    @staticmethod
    def now(*a):
        import datetime
        return datetime.datetime(2030, 1, 1, 12, 0, 0, 123456)


def nested(path, value):
    for p in reversed(path.split('.')):
        value = {p: value}
    return value


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict) and isinstance(a.get(k), dict):
            merge(a[k], v)
        else:
            a[k] = v
    return a


def lookup(d, path):
    for p in path.split('.'):
        d = d[p]
    return d


def same(a, b):
    """Equal, with the same types."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    return type(a) is type(b) and (a == b or a != a and b != b)


def shown(v):
    """A single value as shown by hs config get."""
    return v if isinstance(v, str) else json.dumps(v)


# ------------------------------------------------------------------------------------------ precedence
#: values in: system, user, local, environment (as text, as value)
KINDS = {
    'numbers': (11, 22, 33, '44', 44),
    'text': ('in system', 'in user', 'in local', 'in env', 'in env'),
    'falsy': (0, False, '', '0', 0),
    'mixed': (1.5, True, 'x', 'false', False),
    'nothing': ('a', 'b', 'c', 'null', None),
    'numlike': ('1', '02', '3e1', '0123', 123),
    'again': (5, 5, 5, '5', 5),
    'formats': ('1 %(message)s', '2 %(message)s', '3 %(message)s', '4 %(message)s', '4 %(message)s'),
    'levels': ('debug', 'info', 'error', 'critical', 'critical'),
}
#: settings that are text: as environment variables they are used as they are
TEXT = ('server.auth', 'server.bind', 'task.cwd', 'database.file', 'database.user', 'database.password', 'database.host', 'database.database', 'database.schema')
PATHS = {'server.port': 'numbers text falsy mixed nothing again', 'server.auth': 'text falsy numlike', 'task.timeout': 'numbers falsy nothing', 'task.cwd': 'text numlike', 'server.bind': 'numlike', 'database.user': 'numlike', 'database.host': 'numlike', 'database.database': 'numlike', 'database.schema': 'numlike',
         'autoscale.size.min': 'numbers falsy again', 'autoscale.size.other': 'numbers text', 'database.file': 'text numlike', 'database.password': 'text nothing numlike',
         'fresh.name': 'mixed text falsy', 'fresh.deep.down.name': 'mixed', 'logging.level': 'levels', 'console.theme': 'text', 'export.path': 'text falsy',
         'ssh.nodelist.one': 'text', 'logging.format': 'formats', 'logging.datefmt': 'text', 'client.timeout': 'numbers nothing'}


def load_case(case):
    _, path, kind, mask, mode = case
    P = Place()
    vals = KINDS[kind]
    env = {}
    sibling = '.'.join(path.split('.')[:-1] + ['sibling'])
    layers = {}
    for i, site in enumerate(PLACES):
        d = nested(sibling, site) if i < 2 else {}
        if mask >> i & 1:
            merge(d, nested(path, vals[i]))
        merge(d, {'only': {site: i}})
        layers[site] = d
        P.write(site, tomlkit.dumps(d))
    with open(P.one, 'w') as f:
        f.write(tomlkit.dumps(layers['local']))
    if mask & 8:
        env['HYPERSHELL_' + path.upper().replace('.', '_')] = vals[3]
        layers['env'] = nested(path, vals[3] if path in TEXT and isinstance(vals[4], (int, float)) else vals[4])
    if mode == 'one':
        env['HYPERSHELL_CONFIG_FILE'] = P.one
    elif mode == 'none':
        env['HYPERSHELL_CONFIG_FILE'] = ''
    used = {'all': PLACES, 'one': ('local',), 'none': ()}[mode]

    def look(core, app):
        return json.loads(json.dumps(core.default)), json.loads(json.dumps(core.config)), json.loads(json.dumps(core.LOGGING_STYLES))
    out = []
    who = f'{path} of {kind} in {[s for i, s in enumerate(PLACES + ("env",)) if mask >> i & 1]} ({mode})'
    try:
        default, got, styles = P.program(env=env, act=look)
    except BaseException as e:     # noqa
        return [f'{who}: the configuration does not load: {type(e).__name__}: {e}'], who, 1
    # an independent reading of the default layer
    plain = P.program(env={'HYPERSHELL_CONFIG_FILE': ''}, act=look)[0]
    if not same(plain, default):
        out.append(f'{who}: the default settings are changed by files')
    want = json.loads(json.dumps(plain))
    origin = None
    try:
        lookup(want, path)
        origin = 'default'
    except KeyError:
        pass
    for site in (*used, 'env'):
        if site in layers:
            merge(want, json.loads(json.dumps(layers[site])))
            try:
                lookup(layers[site], path)
                origin = site
            except KeyError:
                pass
    for x in (path, sibling, 'only', 'server.bind', 'autoscale.size.max', 'logging.color'):
        def at(d):
            try:
                return lookup(d, x)
            except (KeyError, TypeError):
                return KeyError
        if not same(at(want), at(got)) and not (at(want) is KeyError and at(got) is KeyError):
            out.append(f'{who}: {x} is {at(got)!r}, expected {at(want)!r}')
    if out:
        return out, who, 1
    # the commands
    for opts in ((), ('-r',)):
        st, text, e = P.program(['get', path, *opts], env=env)
        if origin is None:
            if st == 0 and not e:
                out.append(f'{who}: get shows {text!r} for a setting that is not defined')
        elif (st, text) != (0, shown(lookup(want, path)) + '\n'):
            out.append(f'{who}: get {opts} shows {st} {text!r} {e!r}, expected {shown(lookup(want, path))!r}')
    for i, site in enumerate((*PLACES, 'default')):
        if site == 'local' and mode != 'all':
            continue
        st, text, e = P.program(['get', path, '--' + site], env=env)
        try:
            exp = lookup(plain if site == 'default' else layers[site], path)
        except KeyError:
            if st == 0 and not e:
                out.append(f'{who}: get --{site} shows {text!r} for a setting not defined there')
            continue
        if (st, text) != (0, shown(exp) + '\n'):
            out.append(f'{who}: get --{site} shows {st} {text!r} {e!r}, expected {shown(exp)!r}')
    st, text, e = P.program(['which', path, '--site'], env=env)
    if origin is None:
        if text.strip():
            out.append(f'{who}: which names {text!r} for a setting that is not defined')
    elif st != 0 or e or text.strip() not in ((origin, 'preload') if path.startswith('logging.') and origin == 'default' else (origin,)):
        out.append(f'{who}: which --site shows {st} {text!r} {e!r}, expected {origin}')
    st, text, e = P.program(['which', path], env=env)
    if origin is not None:
        v, L = shown(lookup(want, path)), text.strip()
        name = {'env': 'env: HYPERSHELL_' + path.upper().replace('.', '_'), 'default': '(', **{s: f'{s}: {P.files[s] if mode == "all" else P.one}' for s in PLACES}}[origin]
        if st != 0 or e or name not in L or not (L.startswith(v) or '[' in v):
            out.append(f'{who}: which shows {st} {text!r} {e!r}, expected {v!r} from {name!r}')
        elif origin != 'default':
            try:
                dv = shown(lookup(plain, path))
            except KeyError:
                dv = 'null'
            if '[' not in dv and f'default: {dv}' not in L:
                out.append(f'{who}: which shows {L!r}, the default is {dv!r}')
    return out, who, 1


def style_case(case):
    """The format of messages follows the style unless it is set."""
    _, style_at, style, format_at = case
    P = Place()
    env = {}

    def put(site, name, value):
        if site == 'env':
            env[f'HYPERSHELL_LOGGING_{name.upper()}'] = value
        elif site:
            d = tomlkit.parse(P.read(site) or '').unwrap()
            P.write(site, tomlkit.dumps(merge(d, {'logging': {name: value}})))
    put(style_at, 'style', style)
    put(format_at, 'format', 'mine %(message)s')

    def look(core, app):
        return core.config.logging.format, core.LOGGING_STYLES
    try:
        got, styles = P.program(env=env, act=look)
    except SystemExit as e:
        return ([] if style == 'bogus' and style_at else [f'{case}: does not load: {e}']), str(case), 1
    if style == 'bogus' and style_at:
        return [f'{case}: an unknown style is accepted'], str(case), 1
    want = 'mine %(message)s' if format_at else styles[style.lower() if style_at else 'default']['format']
    return ([] if got == want else [f'{case}: format {got!r}, expected {want!r}']), str(case), 1


# ------------------------------------------------------------------------------------------------ edits
DOCS = {
    'none': None,
    'empty': '',
    'comment': '# just a comment\n',
    'plain': '# top\n[server]\nport = 1 # c1\nauth = "x"\n\n# about the client\n[client]\nbundlesize = 3\n',
    'sub': '[autoscale]\npolicy = "fixed" # p\n[autoscale.size]\ninit = 1\n# keep\nmin = 2\n[server]\nport=1\n',
    'split': '[autoscale.size]\ninit = 1 # i\n[server]\nport = 1\n[autoscale]\npolicy = "fixed"\n# end\n',
    'split2': '[autoscale]\npolicy = "fixed"\n[server]\nport = 1\n[autoscale.size]\ninit = 1 # i\n# end\n',
    'split3': '# a\n[autoscale.size] # b\n# c\ninit = 1 # i\n# d\n\n# e\n[server] # f\nport = 1\n# g\n[autoscale] # h\n# j\npolicy = "fixed" # k\n# l\nfactor = 2\n# m\n\n# n\n[client]\nx = 1\n# o\n',
    'split4': '[fresh.x.y]\nq = 1 # i\n[server]\nport = 1\n[fresh.x]\nx = 1\n[client]\na=1\n[fresh]\n# w\nz=1 # end\n',
    'split5': '[autoscale.size]\ninit = 1 # i\n[server]\nport = 1\n[autoscale.other]\nx = 1\n# end\n',
    'dotted': 'server.port = 1 # c\nserver.auth = "x"\nautoscale.size.init = 2\n',
    'dotted2': 'server.port = 1 # c\nclient.timeout = 2\nserver.auth = "x" # end\n',
    'dotted3': 'server.port = 1 # c\n# b\nfresh.a.x = 1\nautoscale.size.init = 2\nfresh.a.y = 1\n[client]\na=1\n',
    'dotted4': '[autoscale]\nsize.init = 1\npolicy = "x" # p\nsize.min = 0\n# end\n',
    'inline': 'server = {port = 1, auth = "x"}\nautoscale = {size = {init = 1, min = 0}, factor = 2}\n',
    'lists': '[ssh]\nargs = "-x"\n[ssh.nodelist]\na = ["h1", # one\n  "h2"]\nb = []\n',
    'super': '[ssh.nodelist]\na = ["x"]\n',
    'crlf': '# top\r\n[server]\r\nport = 1\r\n',
    'no-newline': '[server]\nport = 1',
    'multiline': '[server]\nauth = """a\n# not\n"""\nport = 1\n',
    'quoted': '["server"]\n"port" = 1\n\'auth\' = \'y\'\n',
    'spaces': '  [server]  \n  port   =   1\n',
    'top': 'x = 1\n[server]\nport = 1\n',
    'tables': '[[jobs]]\nn = 1\n[[jobs]]\nn = 2\n[server]\nport = 1\n',
    'values': '[server]\nport = 1\na = 1.0\nb = true\nc = [1, 2]\nd = "\\u00e9\\n\\t\\"q\\""\ne = 2020-01-01T00:00:00\nf = 0x10\ng = 1_000\nh = \'C:\\x\'\n',
    'big': '# all of it\n[server]\nport = 1 # c\n' + ''.join(f'k{i} = "{i}" # note {i}.\n' for i in range(3000)) + '[client]\nlast = 1 # the end\n',
}
KEYS = ('server.port', 'server.new', 'autoscale.size.min', 'autoscale.new', 'client.timeout', 'ssh.nodelist.c', 'fresh.a.b', 'fresh.c')
VALUES = (('5', 5), ('-5', -5), ('0', 0), ('1.5', 1.5), ('1e3', 1000.0), ('true', True), ('False', False), ('text', 'text'), ('', ''), ('two words', 'two words'),
          ('a#b', 'a#b'), ('# c', '# c'), ("it's", "it's"), ('C:\\dir\\new', 'C:\\dir\\new'), ('\\u0041', '\\u0041'), ('é漢', 'é漢'), ('a\nb', 'a\nb'), ('\t', '\t'), ('[1,2]', '[1,2]'),
          ('[x]', '[x]'), ('{a}', '{a}'), ('a = b', 'a = b'), ('2024-01-01', '2024-01-01'), ('a"b', 'a"b'), ('a"""b', 'a"""b'), ("'''", "'''"), ('a.b.c', 'a.b.c'), ('x, y', 'x, y'),
          ('999999999999999999999', 999999999999999999999), ('0x10', '0x10'), ('\x7f', '\x7f'), (' pad ', ' pad '), ('"q"', '"q"'), ('no', 'no'), ('1.2.3', '1.2.3'), ('inf', float('inf')),
          ('x' * 5000, 'x' * 5000), ('%s %(a)s', '%s %(a)s'), ('$HOME', '$HOME'), ('a\\', 'a\\'), ("a'\"b", "a'\"b"), ('$(rm x)', '$(rm x)'), ('a]', 'a]'))
REFUSED = (('server.port', 'null'), ('server.port', 'None'), ('server', '5'), ('server.port', 'a\ud800b'), ('fresh.a.b', '\udcff'), ('autoscale.size.min', 'null'))


def comments(text):
    return sorted(re.findall(r'# ?[a-z0-9 .]*[a-z0-9.]', text or '')) if text else []


def content(P):
    """Every file below."""
    out = {}
    for d, _, names in os.walk(P.dir):
        for n in names:
            p = os.path.join(d, n)
            try:
                with open(p, 'rb') as f:
                    out[p] = f.read()
            except FileNotFoundError:
                pass
    return out


def parsed(text):
    return tomlkit.parse(text).unwrap()


class Watch:
    """Every state of the files that an interrupted program may leave: before and after each operation on a file,
    and with every write torn (none of it, one byte, half, all but one byte)."""

    def __init__(self, P, seen):
        self.P, self.seen, self.busy = P, seen, False
        self.count = 0

    def state(self):
        if not self.busy:
            self.busy = True
            try:
                self.count += 1
                self.seen(content(self.P))
            finally:
                self.busy = False

    def __enter__(self):
        watch = self
        self.keep = [(m, n, getattr(m, n)) for m, n in [(builtins, 'open'), (io, 'open'), (shutil, '_USE_CP_SENDFILE')] +
                     [(os, n) for n in ('open', 'write', 'replace', 'rename', 'unlink', 'remove', 'mkdir', 'link', 'symlink', 'truncate', 'ftruncate', 'sendfile', 'pwrite', 'writev')]]
        real_open = io.open

        class Raw(io.FileIO):
            def write(self, b):
                b = bytes(b)
                watch.state()
                done = 0
                for upto in sorted({1, len(b) // 2, len(b) - 1, len(b)}):
                    if upto > done:
                        super().write(b[done:upto])
                        done = upto
                        watch.state()
                return len(b)

            def truncate(self, *a):
                watch.state()
                r = super().truncate(*a)
                watch.state()
                return r

        def v_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if watch.busy or not set(mode) & set('wax+') or (isinstance(file, int)):
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            watch.state()
            raw = Raw(file, mode.replace('b', '').replace('t', ''), closefd, opener)
            watch.state()
            if buffering == 0:
                return raw
            buf = io.BufferedRandom(raw) if '+' in mode else io.BufferedWriter(raw)
            if 'b' in mode:
                return buf
            t = io.TextIOWrapper(buf, encoding, errors, newline)
            t.mode = mode
            return t

        def wrap(f):
            def g(*a, **k):
                watch.state()
                try:
                    return f(*a, **k)
                finally:
                    watch.state()
            return g
        for m, n, f in self.keep:
            if n == '_USE_CP_SENDFILE':
                setattr(m, n, False)
            elif n == 'open' and m is not os:
                setattr(m, n, v_open)
            else:
                setattr(m, n, wrap(f))
        return self

    def __exit__(self, *exc):
        for m, n, f in self.keep:
            setattr(m, n, f)
        self.state()


def edit_case(case):
    """A sequence of edits, each watched at every operation."""
    _, doc, site, edits = case
    P = Place()
    text = DOCS[doc]
    if text is not None:
        P.write(site, text)
    for s in PLACES:
        if s != site:
            P.write(s, f'# other\n[{s}]\nx = 1\n')
    target = P.files[site]
    others = {p: b for p, b in content(P).items() if p != target}
    want = parsed(text or '')
    notes = comments(text)
    out = []
    states = 0
    for path, arg, value in edits:
        who = f'set {path} {arg[:60]!r} --{site} of {edits if len(str(edits)) < 400 else len(edits)} on {doc}'
        before = P.read(site)
        raw = before.encode() if before is not None else b''
        old = json.dumps(want, default=str)
        merge(want, nested(path, value))
        lost = []

        def seen(files):
            nonlocal states
            states += 1
            if lost or before is None or raw in files.values():
                return
            now = files.get(target, b'')
            try:
                if same(parsed(now.decode()), want):
                    return
            except Exception:     # noqa
                pass
            lost.append(f'{who}: if interrupted here the previous content is nowhere to be found ({ {os.path.relpath(p, P.dir): len(b) for p, b in files.items()} })')

        def act(core, app):
            with Watch(P, seen):
                try:
                    return app.ConfigApp.main(['set', path, arg, *(['--' + site] if site != 'user' or len(edits) > 1 else [])]), None
                except SystemExit as e:
                    return e.code, None
                except Exception as e:     # noqa
                    return None, e
        st, e = P.program(act=act)
        out += lost
        if st != 0 or e:
            out.append(f'{who}: ends with {st} {e!r}')
            break
        after = P.read(site)
        try:
            got = parsed(after)
        except Exception as x:     # noqa
            out.append(f'{who}: the file is no longer valid: {x}: {after[:300]!r}')
            break
        if not same(got, want):
            out.append(f'{who}: the file has {str(got)[:300]}, expected {str(want)[:300]}')
            break
        missing = [c for c in notes if comments(after).count(c) < notes.count(c)]
        if missing:
            out.append(f'{who}: comments {missing[:5]} are lost')
        now = {p: b for p, b in content(P).items() if p != target}
        if any(now.get(p) != b for p, b in others.items()):
            out.append(f'{who}: another file was changed')
        # read back
        st, shows, e = P.program(['get', path, '--' + site])
        if (st, shows) != (0, shown_any(value) + '\n'):
            out.append(f'{who}: get shows {st} {shows!r} {e!r}')
        try:
            eff = P.program(act=lambda core, app: lookup(json.loads(json.dumps(core.config, default=str)), path))
        except BaseException as x:     # noqa
            out.append(f'{who}: the configuration no longer loads: {x!r}')
            break
        if not same(eff, value):
            out.append(f'{who}: the setting reads back as {eff!r}')
    return out, str(len(edits)) + doc, max(1, states)


def shown_any(v):
    if isinstance(v, float) and v in (float('inf'), float('-inf')):
        return json.dumps(v)
    return shown(v)


def refused_case(case):
    _, doc, site, path, arg = case
    P = Place()
    if DOCS[doc] is not None:
        P.write(site, DOCS[doc])
    before = content(P)
    st, _, e = P.program(['set', path, arg, '--' + site])
    now = content(P)
    out = []
    who = f'set {path} {arg!r} --{site} on {doc}'
    if st == 0 and not e:
        out.append(f'{who}: accepted')
    for p, b in before.items():
        if now.get(p) != b:
            out.append(f'{who}: refused, but {os.path.basename(p)} has {now.get(p)!r} instead of {b!r}')
    new = [p for p in now if p not in before and p in P.files.values()]
    for p in new:
        if parsed(now[p].decode()):
            out.append(f'{who}: refused, but {p} has {now[p]!r}')
    return out, str(case), 1


def file_case(case):
    """Editing the one configuration file named by the environment."""
    _, name, doc = case
    P = Place()
    path = os.path.join(P.dir, 'work', name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if DOCS[doc] is not None:
        with open(path, 'w') as f:
            f.write(DOCS[doc])
    env = {'HYPERSHELL_CONFIG_FILE': path if name == 'abs.toml' else name}
    st, _, e = P.program(['set', 'server.port', '77', '--local'], env=env)
    if st != 0 or e:
        return [f'{case}: set --local ends with {st} {e!r}'], str(case), 1
    with open(path) as f:
        got = parsed(f.read())
    want = merge(parsed(DOCS[doc] or ''), {'server': {'port': 77}})
    out = []
    if not same(got, want):
        out.append(f'{case}: the file has {got}')
    st, text, e = P.program(['get', 'server.port'], env=env)
    if (st, text) != (0, '77\n'):
        out.append(f'{case}: get shows {st} {text!r}')
    return out, str(case), 1


def expand_case(case):
    """Settings given by an environment variable or an expression."""
    _, site, variant = case
    P = Place()
    d = {'env': {'database': {'password_env': 'MY_SECRET'}}, 'eval': {'database': {'password_eval': 'echo "from shell"'}}, 'plain': {'database': {'password': 'plain'}}}[variant]
    P.write(site, tomlkit.dumps(d))
    env = {'MY_SECRET': 'from variable'}
    want = {'env': 'from variable', 'eval': 'from shell', 'plain': 'plain'}[variant]
    out = []
    got = P.program(env=env, act=lambda core, app: core.config.database.password)
    if got != want:
        out.append(f'{case}: {got!r}, expected {want!r}')
    for opts in ((), ('--' + site,)):
        st, text, e = P.program(['get', 'database.password', '-x', *opts], env=env)
        if (st, text) != (0, want + '\n'):
            out.append(f'{case}: get -x {opts} shows {st} {text!r} {e!r}')
    return out, str(case), 1


def editor_case(case):
    _, site, which = case
    P = Place()
    env = {'EDITOR': 'my-editor'} if which == 'EDITOR' else {'VISUAL': 'my-visual'} if which == 'VISUAL' else {}
    calls = []

    def act(core, app):
        keep = app.subprocess.run
        app.subprocess.run = lambda args, *a, **k: calls.append(list(args))
        for k in ('EDITOR', 'VISUAL'):
            if k not in env:
                os.environ.pop(k, None)
        try:
            return app.ConfigApp.main(['edit', *(['--' + site] if site else [])])
        finally:
            app.subprocess.run = keep
    st = P.program(env=env, act=act)
    if not which:
        return ([] if st != 0 and not calls else [f'{case}: {st} {calls}']), str(case), 1
    want = [[env[which], P.files[site or 'user']]]
    return ([] if st == 0 and calls == want else [f'{case}: {st}, started {calls}, expected {want}']), str(case), 1


def run_case(case):
    return {'load': load_case, 'style': style_case, 'edit': edit_case, 'refused': refused_case, 'file': file_case, 'expand': expand_case, 'editor': editor_case}[case[0]](case)


def cases(tier):
    deep = tier == 'thorough'
    L = []
    for path, kinds in PATHS.items():
        for kind in kinds.split():
            for mask in range(16):
                for mode in ('all', 'one', 'none'):
                    L.append(('load', path, kind, mask, mode))
    for style_at in (None, *PLACES, 'env'):
        for style in ('default', 'system', 'detailed', 'DETAILED-compact', 'bogus') if style_at else ('default',):
            for format_at in (None, *PLACES, 'env'):
                L.append(('style', style_at, style, format_at))
    for doc in DOCS:
        for site in PLACES:
            for n in (1, 2) if doc != 'big' else (1,):
                for ks in itertools.product(KEYS, repeat=n):
                    if n == 2 and site != 'user' and not deep:
                        continue
                    L.append(('edit', doc, site, tuple((k, str(100 + i), 100 + i) for i, k in enumerate(ks))))
            if deep and site == 'user' and doc != 'big':
                for ks in itertools.product(KEYS, repeat=3):
                    L.append(('edit', doc, site, tuple((k, f'v{i}', f'v{i}') for i, k in enumerate(ks))))
            for r in REFUSED:
                L.append(('refused', doc, site, *r))
    for doc in ('none', 'plain', 'sub') if not deep else [d for d in DOCS if d != 'big']:
        for k in ('server.port', 'server.new', 'autoscale.size.min', 'fresh.deep.er.name'):
            for a, v in VALUES:
                L.append(('edit', doc, 'user', ((k, a, v),)))
                if deep or doc == 'plain':
                    L.append(('edit', doc, 'local', (('server.auth', 'old', 'old'), (k, a, v), ('client.other', '1', 1))))
    for name in ('abs.toml', 'rel.toml', 'sub/rel.toml'):
        for doc in ('none', 'plain', 'dotted'):
            L.append(('file', name, doc))
    for site in PLACES:
        for v in ('env', 'eval', 'plain'):
            L.append(('expand', site, v))
    for site in PLACES:
        for w in ('EDITOR', 'VISUAL', None):
            L.append(('editor', site, w))
    return L


def quotes():
    """Known finding: values that begin with two quotes (or are one) are read back as empty."""
    return bool(edit_case(('edit', 'plain', 'user', (('server.auth', '""a', '""a'),)))[0])


FINDINGS = {'quotes': quotes}


def make(tier):
    return Check('P23', [], cases=cases(tier), run_case=run_case,
                 rule='Precedence: setting x kind of values x every subset of the places that define it x which files count; edits: every sequence of one and two (thorough: three) '
                 'edits over existing, new, nested settings on every form of file x file; every kind of value; the state of all files at every file operation and torn write of '
                 'each edit. non-trivial = distinct form of case.')
