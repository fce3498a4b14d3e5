"""Models of the standard library modules the analysed package may use.

Only what is needed to *interpret* the package is modelled; everything else
resolves to an opaque value about which nothing is known.
"""
import ast
import json as host_json
import os as host_os
import shlex as host_shlex
import sys as host_sys
import itertools as host_itertools
import re as host_re

from .core import *
from .interp import SCat, _NO, norm_cat
from .builtins import (WORDS, HOST, NotImpl, CtxV, FileV, to_host, deepcopy, shallow_copy, mk_builtin_class, str_, repr_,
                       unknown_word, host_path_exists, iterate, dict_items, open_file, b_any, resolve_repo_path,
                       type_of, isinstance_, ABSTRACT_TYPES)

MODELS = {}
NONSTD = object()


class CmdStr:
    """A shell command line: the quoted, blank-joined form of a word list."""

    def __init__(self, words):
        self.words = list(words)
        self.text = SStr('command line')     # the line as a piece of other text

    def __repr__(self):
        return 'cmdline(%s)' % ' '.join(map(show, self.words))


def cmdstr_attr(I, o, name):
    """string methods of an arbitrary command line"""
    if name in ('strip', 'rstrip', 'lstrip', '__str__', 'expandtabs'):
        return BuiltinF('str.' + name, lambda I, a, k: o)
    if name == 'split':
        def sp(I, a, k):
            out = []
            for w in o.words:
                if choose(2, 'word written with quotes') == 0:
                    out.append(w)
                else:
                    out += [SStr('piece'), SStr('piece')]
            return PList(out)
        return BuiltinF('str.split', sp)
    if name == '__class__':
        return I.types['str']
    if hasattr(str, name):
        raise Incomplete('string method %s of a command line' % name)
    I.throw('AttributeError', name)


def model(name):
    def d(f):
        MODELS[name] = f
        return f
    return d


def mk(I, name, members):
    env = Env()
    env.module = env
    env.kind = 'module'
    env.file = '<%s>' % name
    env.fname = '<module>'
    env.vars.update(members)
    env.vars.setdefault('__name__', name)
    m = ModuleV(name, env)
    return m


def F(name, fn, owner=None):
    return BuiltinF(name, fn, owner)


def std_module(I, name):
    f = MODELS.get(name)
    if name in I.modules:
        return I.modules[name]
    if f is not None:
        m = f(I)
        if isinstance(m, dict):
            m = mk(I, name, m)
        parent, _, last = name.rpartition('.')
        if parent and parent in I.modules and not I.modules[parent].opaque:
            I.modules[parent].env.vars.setdefault(last, m)
        return m
    top = name.split('.')[0]
    if top in host_sys.stdlib_module_names:
        m = ModuleV(name, Env())
        m.opaque = True
        return m
    return None


def opaque_attr(I, m, name):
    return Opaque('%s.%s' % (m.name, name))


#: modules whose functions reach outside the program, or give another answer every time
OUTSIDE = ('random', 'secrets', 'uuid', 'datetime', 'time', 'subprocess', 'socket', 'getpass', 'platform', 'locale', 'shutil',
           'tempfile', 'signal', 'multiprocessing', 'urllib', 'http', 'ftplib', 'smtplib', 'sqlite3', 'dbm', 'shelve', 'glob',
           'pty', 'select', 'fcntl', 'resource', 'pwd', 'grp', 'syslog', 'fileinput', 'webbrowser', 'atexit', 'gettext', 'os',
           'sys.stdin', 'sys.stdout', 'sys.stderr', 'sys.exit', 'sys.setrecursionlimit', 'threading', 'asyncio')


def opaque_call(I, name):
    if any(name == m or name.startswith(m + '.') for m in OUTSIDE):
        I.ambient('calls %s' % name)


def outside(I, what):
    """something outside the program is used or changed"""
    if I.ambient is not None:
        I.ambient(what)


class EnvDict(PDict):
    """the environment: every look at it is seen"""
    owner = None

    @property
    def d(self):
        if self.owner is not None:
            outside(self.owner, 'looks at the environment')
        return self.__dict__['d']

    @d.setter
    def d(self, v):
        self.__dict__['d'] = v


# -------------------------------------------------------------------- os, sys
def path_arg(v):
    v = deref(v)
    if isinstance(v, Obj) and v.has('_path'):
        return v.get('_path')
    return v


def os_join(I, a, k):
    out = path_arg(a[0])
    for p in a[1:]:
        p = path_arg(p)
        if isinstance(p, str) and p.startswith('/'):
            out = p
            continue
        if isinstance(p, FVal) and I.pointwise(lambda x: x.startswith('/'), p):
            out = p
            continue
        out = deref(out)
        if out == '':
            out = p
        elif isinstance(out, str) and out.endswith('/'):
            out = I.concat([out, p])
        else:
            out = I.concat([out, '/', p])
    return out


def path_use(I, p, what):
    """a path is fine when it leads into the repository, whatever the current directory is"""
    if I.ambient is None:
        return
    p = path_arg(p)
    if isinstance(p, FVal):
        ok = all(any(x.startswith(r + '/') for r in I.path_roots) for x in map(p.fn.get, p.var.dom))
    else:
        pre = p.parts[0] if isinstance(p, SCat) and p.parts else p
        ok = isinstance(pre, str) and any(pre.startswith(r + '/') for r in I.path_roots)
    if not ok:
        I.ambient(what % show(p))


def exists_model(kind):
    def f(I, a, k):
        p = path_arg(a[0])
        path_use(I, p, 'asks whether %s exists')
        if I.fs is not None:
            r = I.fs.test(I, p, kind)
            if r is not None:
                return r
        if isinstance(p, (SStr, SCat)):
            p = resolve_repo_path(I, p)
        if isinstance(p, FVal):
            split(p.var, lambda d: host_path_exists(I, p.fn[d]), 'file exists')
            p = concretise(p)
        if isinstance(p, (SStr, SCat)):
            # not a file of the package
            pre = p.parts[0] if isinstance(p, SCat) and isinstance(p.parts[0], str) else ''
            if pre and any(pre.startswith(r) for r in I.path_roots):
                return False
            return bool(choose(2, '%s(%s)' % (kind, show(p))))
        if isinstance(p, str):
            if any(p.startswith(r) for r in I.path_roots):
                return getattr(host_os.path, kind)(p)
            return bool(choose(2, '%s(%r)' % (kind, p)))
        return bool(choose(2, kind))
    return f


@model('os.path')
def m_ospath(I):
    d = {}
    for n in ('basename', 'dirname', 'splitext', 'normpath', 'split', 'isabs', 'commonprefix'):
        d[n] = F(n, (lambda nn: lambda I, a, k: word_fn(I, 'os.path.' + nn, getattr(host_os.path, nn), a))(n))
    for n in ('abspath', 'realpath', 'expanduser', 'expandvars', 'normcase'):
        d[n] = F(n, (lambda nn: lambda I, a, k: same_abs(I, a, nn))(n))
    d['join'] = F('join', os_join)
    for n in ('exists', 'isfile', 'isdir', 'lexists', 'islink'):
        d[n] = F(n, exists_model(n))
    d['getsize'] = F('getsize', lambda I, a, k: SInt(0, None, 'size'))
    d['sep'] = '/'
    d['relpath'] = F('relpath', lambda I, a, k: word_fn(I, 'relpath', host_os.path.relpath, a))
    d['pardir'] = '..'
    return d


def word_fn(I, name, fn, a):
    a = [path_arg(x) for x in a]
    if all(isinstance(x, HOST + (FVal,)) or x is None for x in a):
        return I.pointwise(fn, *a)
    if name.endswith('splitext') or name.endswith('.split'):
        return (unknown_word(I, name + '0', *a), unknown_word(I, name + '1', *a))
    if name.endswith('isabs'):
        return bool(choose(2, 'isabs'))
    return unknown_word(I, name, *a)


def same_abs(I, a, n):
    p = path_arg(a[0])
    if isinstance(p, str) and p.startswith('/'):
        return host_os.path.normpath(p)
    if isinstance(p, SCat) and isinstance(p.parts[0], str) and p.parts[0].startswith('/'):
        return p
    if isinstance(p, str) and not p.startswith('/'):
        outside(I, 'looks at the current directory')
        return host_os.path.normpath(host_os.path.join(I.path_roots[0], p))
    return unknown_word(I, 'os.path.' + n, p)


@model('os')
def m_os(I):
    p = I.modules.get('os.path') or mk(I, 'os.path', m_ospath(I))
    I.modules['os.path'] = p
    d = {'path': p, 'sep': '/', 'linesep': '\n', 'pathsep': ':', 'devnull': '/dev/null', 'name': 'posix'}
    env = EnvDict()
    env.owner = I
    d['environ'] = env
    d['getenv'] = F('getenv', lambda I, a, k: environ_get(I, a))
    I.dict_methods_environ = env
    env.kind = 'environ'
    d['getcwd'] = F('getcwd', lambda I, a, k: outside(I, 'looks at the current directory') or I.path_roots[0])

    def listdir(I, a, k):
        x = concretise(path_arg(a[0])) if a else I.path_roots[0]
        if isinstance(x, str) and host_path_exists(I, x):
            return PList(sorted(host_os.listdir(x)))
        raise Incomplete('listdir %s' % show(x))
    d['listdir'] = F('listdir', listdir)
    d['fspath'] = F('fspath', lambda I, a, k: path_arg(a[0]))

    def eff(n):
        def f(I, a, k):
            outside(I, 'calls os.%s' % n)
            I.effects.append((n,) + tuple(a) + (P.location,))
            return 0 if n in ('system',) else None
        return F(n, f)
    for n in ('remove', 'unlink', 'rename', 'replace', 'mkdir', 'makedirs', 'rmdir', 'system', 'chmod', 'truncate',
              'putenv', 'symlink', 'link', 'mkfifo', 'open', 'write', 'close'):
        d[n] = eff(n)
    for n in ('O_CREAT', 'O_EXCL', 'O_WRONLY', 'O_RDWR', 'O_TRUNC', 'O_APPEND', 'O_RDONLY', 'F_OK', 'R_OK', 'W_OK', 'X_OK'):
        d[n] = getattr(host_os, n)
    d['access'] = F('access', exists_model('exists'))
    d['EX_OK'] = 0
    d['PathLike'] = Opaque('os.PathLike')
    return d


def environ_get(I, a):
    outside(I, 'looks at the environment')
    if choose(2, 'environment variable %s set' % show(a[0])):
        return unknown_word(I, 'env', a[0])
    return a[1] if len(a) > 1 else None


@model('sys')
def m_sys(I):
    d = {}
    mods = PDict()
    mods.kind = 'sysmodules'
    d['modules'] = SysModules()
    d['argv'] = PList([SStr('argv0')])
    d['path'] = PList(I.path_roots)
    d['exit'] = F('exit', lambda I, a, k: I.throw('SystemExit', *a))
    d['maxsize'] = host_sys.maxsize
    d['version_info'] = (3, 12, 3, 'final', 0)
    d['platform'] = 'linux'
    d['stdin'] = Opaque('sys.stdin')
    d['stdout'] = FileV('<stdout>', 'w')
    d['stderr'] = FileV('<stderr>', 'w')
    d['setrecursionlimit'] = F('setrecursionlimit', lambda I, a, k: None)
    d['getrecursionlimit'] = F('getrecursionlimit', lambda I, a, k: 1000)
    d['intern'] = F('intern', lambda I, a, k: a[0])
    d['exc_info'] = F('exc_info', lambda I, a, k: (None, None, None))
    d['executable'] = '/usr/bin/python3'
    return d


class SysModules:
    """sys.modules"""

    def key(self, I, k):
        k = concretise(k)
        if isinstance(k, (SStr, SCat)):
            raise Incomplete('sys.modules of an open name')
        return k

    def getitem(self, I, k):
        k = self.key(I, k)
        if k in I.modules:
            return I.modules[k]
        I.throw('KeyError', k)

    def contains(self, I, k):
        return self.key(I, k) in I.modules

    def attr(self, I, name):
        if name == 'get':
            def g(I, a, k):
                x = self.key(I, a[0])
                return I.modules.get(x, a[1] if len(a) > 1 else None)
            return F('get', g)
        if name in ('keys', 'items', 'values'):
            return F(name, lambda I, a, k: I.from_host(None) or PList(
                {'keys': list(I.modules), 'items': list(I.modules.items()), 'values': list(I.modules.values())}[name]))
        raise Incomplete('sys.modules.%s' % name)


# ------------------------------------------------------------------------ json
def json_value(I, x):
    return I.from_host(x)


def json_decode(I, s):
    if isinstance(s, (str, bytes)):
        try:
            return I.from_host(host_json.loads(s))
        except host_json.JSONDecodeError as e:
            I.throw('JSONDecodeError', str(e))
    if isinstance(s, FVal):
        return json_decode(I, concretise(s))
    return Opaque('json')


@model('json')
def m_json(I):
    d = {}
    d['loads'] = F('loads', lambda I, a, k: json_decode(I, deref(a[0])))

    def load(I, a, k):
        f = deref(a[0])
        if isinstance(f, FileV) and f.content is not None:
            return json_decode(I, f.content)
        return Opaque('json.load')
    d['load'] = F('load', load)

    def dumps(I, a, k):
        try:
            return host_json.dumps(to_host(I, a[0]), **{kk: to_host(I, v) for kk, v in k.items()})
        except Incomplete:
            return unknown_word(I, 'json', a[0])
    d['dumps'] = F('dumps', dumps)

    def dump(I, a, k):
        I.call(I.getattr(a[1], 'write'), [dumps(I, a[:1], k)], {})
    d['dump'] = F('dump', dump)
    d['JSONDecodeError'] = I.types['JSONDecodeError']
    dec = ModuleV('json.decoder', Env())
    dec.env.vars['JSONDecodeError'] = I.types['JSONDecodeError']
    d['decoder'] = dec
    return d


# --------------------------------------------------------------- package data
def package_dir(I, name):
    name = concretise(name)
    m = I.modules.get(name)
    if m is None:
        m = I.import_module(name)
    if m.path is None:
        raise Incomplete('package data of %s' % name)
    p = m.path
    return p if host_os.path.isdir(p) else host_os.path.dirname(p)


def read_package_file(I, path, missing='FileNotFoundError'):
    f = open_file(I, [path, 'rb'], {})
    return f.content


@model('pkgutil')
def m_pkgutil(I):
    def get_data(I, a, k):
        pkg = a[0] if a else k['package']
        res = a[1] if len(a) > 1 else k['resource']
        d = package_dir(I, pkg)
        fs, I.fs = I.fs, None
        try:
            return read_package_file(I, os_join(I, [d, res], {}))
        finally:
            I.fs = fs

    def iter_modules(I, a, k):
        out = []
        for p in I.iterate(a[0]):
            p = concretise(p)
            for f in sorted(host_os.listdir(p)):
                if f.endswith('.py') and f != '__init__.py':
                    out.append((None, f[:-3], False))
        return PList(out)
    return {'get_data': F('get_data', get_data), 'iter_modules': F('iter_modules', iter_modules)}


@model('importlib')
def m_importlib(I):
    def imp(I, a, k):
        n = concretise(a[0])
        if isinstance(n, (SStr, SCat)):
            raise Incomplete('import of an open name')
        if n.startswith('.'):
            pkg = concretise(a[1] if len(a) > 1 else k.get('package'))
            lv = len(n) - len(n.lstrip('.'))
            parts = pkg.split('.')
            if lv > 1:
                parts = parts[:len(parts) - (lv - 1)]
            n = '.'.join(parts + [n.lstrip('.')])
        return I.import_module(n)

    def find_spec(I, a, k):
        n = concretise(a[0])
        if I.find_module(n):
            return Opaque('spec')
        return None
    u = mk(I, 'importlib.util', {'find_spec': F('find_spec', find_spec)})
    I.modules['importlib.util'] = u
    u.env.vars['__name__'] = 'importlib.util'
    return {'import_module': F('import_module', imp), 'util': u, 'reload': F('reload', lambda I, a, k: a[0]),
            'invalidate_caches': F('invalidate_caches', lambda I, a, k: None)}


@model('importlib.util')
def m_importlib_util(I):
    I.import_module('importlib')
    return I.modules['importlib.util']


@model('importlib.resources')
def m_importlib_resources(I):
    def files(I, a, k):
        x = deref(a[0])
        d = package_dir(I, x.name if isinstance(x, ModuleV) else x)
        return mk_path(I, d)

    def read_text(I, a, k):
        x = deref(a[0])
        d = package_dir(I, x.name if isinstance(x, ModuleV) else x)
        return open_file(I, [os_join(I, [d, a[1]], {}), 'r'], {}).content
    return {'files': F('files', files), 'read_text': F('read_text', read_text),
            'read_binary': F('read_binary', lambda I, a, k: read_text(I, a, k).encode())}


# --------------------------------------------------------------------- pathlib
def path_class(I):
    c = I.types.get('pathlib.Path')
    if c is not None:
        return c
    c = mk_builtin_class(I, 'pathlib.Path', [I.types['object']])
    c.builtin = None
    c.name = 'Path'
    ns = c.ns.vars

    def new(I, a, k):
        return mk_path(I, os_join(I, a[1:], {}) if len(a) > 1 else '.')
    ns['__new__'] = StaticM(F('__new__', new))

    def meth(n, f):
        ns[n] = F('Path.' + n, f, 'method')

    def prop(n, f):
        ns[n] = PropertyV(F('Path.' + n, f))
    meth('__truediv__', lambda I, a, k: mk_path(I, os_join(I, [a[0].get('_path'), a[1]], {})))
    meth('joinpath', lambda I, a, k: mk_path(I, os_join(I, [a[0].get('_path')] + a[1:], {})))
    meth('__str__', lambda I, a, k: a[0].get('_path'))
    meth('__repr__', lambda I, a, k: I.concat(["PosixPath('", a[0].get('_path'), "')"]))
    meth('__fspath__', lambda I, a, k: a[0].get('_path'))
    meth('__init__', lambda I, a, k: None)
    meth('as_posix', lambda I, a, k: a[0].get('_path'))
    for n in ('resolve', 'absolute', 'expanduser'):
        meth(n, lambda I, a, k: mk_path(I, same_abs(I, [a[0].get('_path')], 'abspath')))
    for n, kd in (('exists', 'exists'), ('is_file', 'isfile'), ('is_dir', 'isdir')):
        meth(n, (lambda kk: lambda I, a, k: exists_model(kk)(I, [a[0].get('_path')], {}))(kd))
    meth('open', lambda I, a, k: open_file(I, [a[0].get('_path')] + a[1:], k))
    meth('read_text', lambda I, a, k: I.call(I.getattr(open_file(I, [a[0].get('_path'), 'r'], {}), 'read'), []))
    meth('read_bytes', lambda I, a, k: open_file(I, [a[0].get('_path'), 'rb'], {}).content)

    def wt(I, a, k):
        f = open_file(I, [a[0].get('_path'), 'w'], {})
        I.call(I.getattr(f, 'write'), [a[1]], {})
    meth('write_text', wt)

    def touch_(I, a, k):
        outside(I, 'creates a file')
        I.effects.append(('touch', a[0].get('_path'), P.location))
    meth('touch', touch_)
    meth('unlink', lambda I, a, k: outside(I, 'removes a file') or I.effects.append(('remove', a[0].get('_path'), P.location)))
    meth('mkdir', lambda I, a, k: outside(I, 'makes a directory') or I.effects.append(('mkdir', a[0].get('_path'), P.location)))
    meth('with_suffix', lambda I, a, k: mk_path(I, unknown_word(I, 'with_suffix', a[0].get('_path'), a[1])))
    meth('__eq__', lambda I, a, k: I.eq(a[0].get('_path'), a[1].get('_path')) if isinstance(a[1], Obj) and a[1].has('_path') else False)
    prop('name', lambda I, a, k: word_fn(I, 'basename', host_os.path.basename, [a[0].get('_path')]))
    prop('parent', lambda I, a, k: mk_path(I, word_fn(I, 'dirname', host_os.path.dirname, [a[0].get('_path')])))
    prop('stem', lambda I, a, k: word_fn(I, 'stem', lambda p: host_os.path.splitext(host_os.path.basename(p))[0], [a[0].get('_path')]))
    prop('suffix', lambda I, a, k: word_fn(I, 'suffix', lambda p: host_os.path.splitext(p)[1], [a[0].get('_path')]))
    return c


def mk_path(I, p):
    o = Obj(path_class(I))
    o.set('_path', p)
    return o


@model('pathlib')
def m_pathlib(I):
    c = path_class(I)
    return {'Path': c, 'PurePath': c, 'PosixPath': c, 'PurePosixPath': c}


# ----------------------------------------------------------------------- shlex
@model('shlex')
def m_shlex(I):
    def split_(I, a, k):
        s = deref(a[0] if a else k['s'])
        comments = to_host(I, a[1] if len(a) > 1 else k.get('comments', False))
        posix = to_host(I, a[2] if len(a) > 2 else k.get('posix', True))
        if isinstance(s, CmdStr):
            out = []
            for w in s.words:
                if comments and I.truth(I.call(I.getattr(w, 'startswith'), ['#'], {})) and \
                        choose(2, 'word written without quotes'):
                    break
                if not posix and choose(2, 'word written with quotes'):
                    w = I.concat(["'", w, "'"])
                out.append(w)
            return PList(out)
        if isinstance(s, (str, FVal)):
            return I.pointwise(lambda x: host_shlex.split(x, comments, posix), s)
        raise Incomplete('shlex.split of %s' % show(s))

    def quote(I, a, k):
        w = deref(a[0])
        if isinstance(w, (str, FVal)):
            return I.pointwise(host_shlex.quote, w)
        if choose(2, 'word needs quotes'):
            return I.concat(["'", w, "'"])
        return w
    return {'split': F('split', split_), 'quote': F('quote', quote),
            'join': F('join', lambda I, a, k: CmdStr(list(I.iterate(a[0]))))}


# -------------------------------------------------------------------- argparse
@model('argparse')
def m_argparse(I):
    obj = I.types['object']
    ns = I.types.get('argparse.Namespace') or mk_builtin_class(I, 'argparse.Namespace', [obj])
    ns.builtin = None
    pc = I.types.get('argparse.ArgumentParser') or mk_builtin_class(I, 'argparse.ArgumentParser', [obj])
    pc.builtin = None
    v = pc.ns.vars

    def init(I, a, k):
        a[0].set('_args', PList())
    v['__init__'] = F('__init__', init, 'method')

    def add(I, a, k):
        l = a[0].get('_args')
        l.touch()
        l.items.append((tuple(concretise(x) for x in a[1:]), dict(k)))
        return Opaque('argparse.Action')
    v['add_argument'] = F('add_argument', add, 'method')
    v['add_mutually_exclusive_group'] = F('group', lambda I, a, k: a[0], 'method')
    v['add_argument_group'] = F('group', lambda I, a, k: a[0], 'method')
    v['print_help'] = F('print_help', lambda I, a, k: None, 'method')
    v['print_usage'] = F('print_usage', lambda I, a, k: None, 'method')
    v['set_defaults'] = F('set_defaults', lambda I, a, k: None, 'method')

    def err(I, a, k):
        I.throw('SystemExit', 2)
    v['error'] = F('error', err, 'method')
    v['exit'] = F('exit', lambda I, a, k: I.throw('SystemExit', *(a[1:2] or [0])), 'method')

    def parse_args(I, a, k):
        if I.cli is None:
            raise Incomplete('parse_args outside the command-line model')
        o = Obj(ns)
        for names, kw in a[0].get('_args').items:
            dest = to_host(I, kw['dest']) if 'dest' in kw else None
            if dest is None:
                longs = [n for n in names if n.startswith('--')]
                if longs:
                    dest = longs[0][2:].replace('-', '_')
                elif names[0].startswith('-'):
                    dest = names[0][1:].replace('-', '_')
                else:
                    dest = names[0].replace('-', '_')
            o.set(dest, I.cli(I, names, kw, dest))
        return o
    v['parse_args'] = F('parse_args', parse_args, 'method')
    v['parse_known_args'] = F('parse_known_args', lambda I, a, k: (parse_args(I, a, k), PList()), 'method')
    return {'ArgumentParser': pc, 'Namespace': ns, 'FileType': Opaque('argparse.FileType'),
            'SUPPRESS': '==SUPPRESS==', 'REMAINDER': '...', 'RawTextHelpFormatter': Opaque('argparse.x'),
            'ArgumentDefaultsHelpFormatter': Opaque('argparse.x'), 'RawDescriptionHelpFormatter': Opaque('argparse.x')}


# ------------------------------------------------------------------- itertools
def lazy(f):
    return lambda I, a, k: IterV(f(I, a, k))


@model('itertools')
def m_itertools(I):
    def chain(I, a, k):
        for x in a:
            yield from I.iterate(x)

    def takewhile(I, a, k):
        for x in I.iterate(a[1]):
            if not I.truth(I.call(a[0], [x], {})):
                return
            yield x

    def dropwhile(I, a, k):
        dropping = True
        for x in I.iterate(a[1]):
            if dropping and I.truth(I.call(a[0], [x], {})):
                continue
            dropping = False
            yield x

    def filterfalse(I, a, k):
        for x in I.iterate(a[1]):
            if not I.truth(x if deref(a[0]) is None else I.call(a[0], [x], {})):
                yield x

    def count(I, a, k):
        n = to_host(I, a[0]) if a else to_host(I, k.get('start', 0))
        st = to_host(I, a[1]) if len(a) > 1 else to_host(I, k.get('step', 1))
        while True:
            yield n
            n += st
            P.tick()

    def repeat(I, a, k):
        if len(a) > 1:
            for _ in range(to_host(I, a[1])):
                yield a[0]
        else:
            while True:
                P.tick()
                yield a[0]

    def islice(I, a, k):
        r = [to_host(I, x) for x in a[1:]]
        yield from host_itertools.islice(iter(I.iterate(a[0])), *r)

    def starmap(I, a, k):
        for x in I.iterate(a[1]):
            yield I.call(a[0], list(I.iterate(x)), {})

    def zip_longest(I, a, k):
        fill = k.get('fillvalue')
        yield from host_itertools.zip_longest(*[list(I.iterate(x)) for x in a], fillvalue=fill)

    def product(I, a, k):
        yield from host_itertools.product(*[list(I.iterate(x)) for x in a], repeat=to_host(I, k.get('repeat', 1)))

    def combinations(I, a, k):
        yield from host_itertools.combinations(list(I.iterate(a[0])), to_host(I, a[1]))

    def permutations(I, a, k):
        yield from host_itertools.permutations(list(I.iterate(a[0])), *[to_host(I, x) for x in a[1:]])

    def batched(I, a, k):
        l = list(I.iterate(a[0]))
        n = concretise(a[1] if len(a) > 1 else k['n'])
        for i in range(0, len(l), n):
            yield tuple(l[i:i + n])

    def pairwise(I, a, k):
        yield from host_itertools.pairwise(list(I.iterate(a[0])))

    def accumulate(I, a, k):
        acc = _NO
        for x in I.iterate(a[0]):
            if acc is _NO:
                acc = x
            elif len(a) > 1:
                acc = I.call(a[1], [acc, x], {})
            else:
                acc = I.binop(ast.Add(), acc, x)
            yield acc

    def groupby(I, a, k):
        key = a[1] if len(a) > 1 else k.get('key')
        cur, group = _NO, []
        for x in I.iterate(a[0]):
            kx = x if key is None else I.call(key, [x], {})
            if cur is not _NO and I.eq(cur, kx):
                group.append(x)
            else:
                if cur is not _NO:
                    yield (cur, PList(group))
                cur, group = kx, [x]
        if cur is not _NO:
            yield (cur, PList(group))

    def compress(I, a, k):
        for x, s in zip(I.iterate(a[0]), I.iterate(a[1])):
            if I.truth(s):
                yield x

    def cycle(I, a, k):
        items = list(I.iterate(a[0]))
        while items:
            for x in items:
                P.tick()
                yield x

    def tee(I, a, k):
        items = list(I.iterate(a[0]))
        n = to_host(I, a[1]) if len(a) > 1 else 2
        return tuple(IterV(iter(list(items))) for _ in range(n))
    d = {f.__name__: F(f.__name__, lazy(f)) for f in
         (chain, takewhile, dropwhile, filterfalse, count, repeat, islice, starmap, zip_longest, product, combinations,
          permutations, pairwise, batched, accumulate, groupby, compress, cycle)}
    d['tee'] = F('tee', tee)
    return d


# ------------------------------------------------------------------- functools
@model('functools')
def m_functools(I):
    def reduce_(I, a, k):
        it = iter(I.iterate(a[1]))
        if len(a) > 2:
            acc = a[2]
        else:
            try:
                acc = next(it)
            except StopIteration:
                I.throw('TypeError', 'reduce() of empty iterable with no initial value')
        for x in it:
            acc = I.call(a[0], [acc, x], {})
        return acc

    def lru(I, a, k):
        if a and isinstance(deref(a[0]), (FuncV, BoundM, BuiltinF, StaticM, ClassM, PartialV)):
            return CacheF(a[0])
        return F('lru_cache()', lambda I, b, kk: CacheF(b[0]))

    def wraps(I, a, k):
        def deco(I, b, kk):
            f = deref(b[0])
            if isinstance(f, FuncV):
                g = deref(a[0])
                f.name = getattr(g, 'name', f.name)
                f.attrs.d['__wrapped__'] = ('__wrapped__', g)
            return f
        return F('wraps()', deco)

    def total_ordering(I, a, k):
        return total_order(I, a[0])

    def cmp_to_key(I, a, k):
        fn = a[0] if a else k['mycmp']
        c = mk_builtin_class(I, 'functools.KeyWrapper', [I.types['object']])
        c.builtin = None
        c.ns.vars['__lt__'] = F('__lt__', lambda I, b, kk: I.truth(
            I.B.order(I, ast.Lt, I.call(fn, [b[0].get('obj'), b[1].get('obj')], {}), 0)), 'method')

        def key(I, b, kk):
            o = Obj(c)
            o.set('obj', b[0])
            return o
        return F('cmp_to_key()', key)

    def singledispatch(I, a, k):
        return singledispatch_(I, a[0])
    return {'reduce': F('reduce', reduce_),
            'partial': F('partial', lambda I, a, k: PartialV(a[0], list(a[1:]), dict(k))),
            'partialmethod': F('partialmethod', lambda I, a, k: partialmethod(I, a, k)),
            'lru_cache': F('lru_cache', lru), 'cache': F('cache', lambda I, a, k: CacheF(a[0])),
            'wraps': F('wraps', wraps), 'cached_property': F('cached_property', lambda I, a, k: CachedPropertyV(
                a[0], a[0].name)),
            'total_ordering': F('total_ordering', total_ordering), 'cmp_to_key': F('cmp_to_key', cmp_to_key),
            'singledispatch': F('singledispatch', singledispatch),
            'update_wrapper': F('update_wrapper', lambda I, a, k: a[0])}


def partialmethod(I, a, k):
    f, pre, kw = a[0], list(a[1:]), dict(k)
    return F('partialmethod', lambda I, b, kk: I.call(f, [b[0]] + pre + list(b[1:]), {**kw, **kk}), 'method')


def singledispatch_(I, f):
    reg = []
    c = mk_builtin_class(I, 'singledispatch.%s' % getattr(f, 'name', '?'), [I.types['object']])
    c.builtin = None

    def call(I, a, k):
        t = type_of(I, a[1])
        if t is not None:
            for x in t.mro:
                for cl, g in reversed(reg):
                    if cl is x:
                        return I.call(g, a[1:], k)
        return I.call(f, a[1:], k)
    c.ns.vars['__call__'] = F('__call__', call, 'method')

    def register(I, a, k):
        if len(a) > 2:
            reg.append((deref(a[1]), a[2]))
            return a[2]
        x = deref(a[1])
        if isinstance(x, ClassV):
            def deco(I, b, kk):
                reg.append((x, b[0]))
                return b[0]
            return F('register()', deco)
        if isinstance(x, FuncV):
            from ast import BinOp, BitOr, Constant, Subscript, Tuple, parse as ast_parse
            args = (x.node.args.posonlyargs + x.node.args.args) if hasattr(x.node, 'args') else []
            todo = [args[0].annotation] if args else [None]
            while todo:
                ann = todo.pop()
                if isinstance(ann, Constant) and isinstance(ann.value, str):
                    ann = ast_parse(ann.value, mode='eval').body
                if isinstance(ann, BinOp) and isinstance(ann.op, BitOr):
                    todo += [ann.left, ann.right]
                    continue
                if isinstance(ann, Subscript) and isinstance(ann.slice, Tuple):
                    todo += ann.slice.elts
                    continue
                if ann is None:
                    raise Incomplete('singledispatch register without annotation')
                t = deref(I.eval(ann, x.env or x.module))
                if t is None:
                    t = type_of(I, None)
                if not isinstance(t, ClassV):
                    raise Incomplete('singledispatch register by annotation')
                reg.append((t, x))
            return x
        raise Incomplete('singledispatch register')
    c.ns.vars['register'] = F('register', register, 'method')
    return Obj(c)


def total_order(I, c):
    ns = c.ns.vars
    have = [n for n in ('__lt__', '__le__', '__gt__', '__ge__') if n in ns]
    if not have:
        I.throw('ValueError', 'must define at least one ordering operation')
    base = have[0]

    def lt(I, a, b):
        r = I.truth(I.call(ns[base], [a, b], {}))
        if base == '__lt__':
            return r
        if base == '__le__':
            return r and not I.eq(a, b)
        if base == '__gt__':
            return not r and not I.eq(a, b)
        return not r
    ops = {'__lt__': lambda I, a, k: lt(I, a[0], a[1]),
           '__le__': lambda I, a, k: lt(I, a[0], a[1]) or I.eq(a[0], a[1]),
           '__gt__': lambda I, a, k: not (lt(I, a[0], a[1]) or I.eq(a[0], a[1])),
           '__ge__': lambda I, a, k: not lt(I, a[0], a[1])}
    for n, f in ops.items():
        if n not in ns:
            ns[n] = F(n, f, 'method')
    return c


# ------------------------------------------------------- copy, enum, abc, typing
@model('copy')
def m_copy(I):
    return {'deepcopy': F('deepcopy', lambda I, a, k: deepcopy(I, a[0], {})),
            'copy': F('copy', lambda I, a, k: shallow_copy(I, a[0]))}


@model('enum')
def m_enum(I):
    t = I.types
    return {'Enum': t['Enum'], 'IntEnum': t['enum.IntEnum'], 'StrEnum': t['enum.StrEnum'], 'Flag': t['enum.Flag'],
            'IntFlag': t['enum.IntFlag'], 'auto': F('auto', lambda I, a, k: Opaque('enum.auto')),
            'unique': F('unique', lambda I, a, k: a[0]), 'EnumMeta': Opaque('enum.EnumMeta'),
            'EnumType': Opaque('enum.EnumMeta')}


@model('abc')
def m_abc(I):
    def am(I, a, k):
        f = deref(a[0])
        if isinstance(f, (FuncV,)):
            f.abstract = True
        elif isinstance(f, PropertyV) and isinstance(f.fget, FuncV):
            f.fget.abstract = True
        elif isinstance(f, (StaticM, ClassM)) and isinstance(f.f, FuncV):
            f.f.abstract = True
        return f

    def ap(I, a, k):
        am(I, a, k)
        return PropertyV(a[0])
    return {'ABC': I.types['ABC'], 'ABCMeta': I.types['ABCMeta'], 'abstractmethod': F('abstractmethod', am),
            'abstractproperty': F('abstractproperty', ap), 'abstractclassmethod': F('x', lambda I, a, k: ClassM(am(I, a, k))),
            'abstractstaticmethod': F('x', lambda I, a, k: StaticM(am(I, a, k)))}


class TypingModule(dict):
    pass


@model('typing')
def m_typing(I):
    d = {}
    for n in ('Any', 'Union', 'Optional', 'List', 'Dict', 'Set', 'FrozenSet', 'Tuple', 'Callable', 'Iterable', 'Iterator',
              'Sequence', 'Mapping', 'MutableMapping', 'MutableSequence', 'Literal', 'Type', 'Final', 'ClassVar', 'Generic',
              'Protocol', 'Generator', 'Collection', 'Hashable', 'NoReturn', 'Never', 'Self', 'TypeAlias', 'Annotated',
              'AnyStr', 'Deque', 'DefaultDict', 'Counter', 'ChainMap', 'OrderedDict', 'Text', 'IO', 'TextIO', 'BinaryIO',
              'Concatenate', 'ParamSpec', 'TypeGuard', 'Unpack', 'Required', 'NotRequired', 'Pattern', 'Match',
              'SupportsInt', 'Awaitable', 'Coroutine', 'AsyncIterator', 'AbstractSet', 'MutableSet', 'Container', 'Sized',
              'Reversible', 'KeysView', 'ValuesView', 'ItemsView', 'LiteralString'):
        d[n] = Opaque('typing.' + n)
    d['NamedTuple'] = I.types['NamedTuple']
    d['TypedDict'] = I.types.get('TypedDict') or mk_builtin_class(I, 'TypedDict', [I.types['dict']])
    d['TypedDict'].builtin_base = 'dict'
    d['TypeVar'] = F('TypeVar', lambda I, a, k: Opaque('typing.TypeVar'))
    d['NewType'] = F('NewType', lambda I, a, k: F('newtype', lambda I, b, kk: b[0]))
    d['cast'] = F('cast', lambda I, a, k: a[1])
    d['TYPE_CHECKING'] = False
    ident = F('identity', lambda I, a, k: a[0])
    for n in ('overload', 'final', 'no_type_check', 'runtime_checkable', 'override', 'reveal_type'):
        d[n] = ident
    d['assert_never'] = F('assert_never', lambda I, a, k: I.throw('AssertionError', 'unreachable'))
    d['get_type_hints'] = F('get_type_hints', lambda I, a, k: PDict())
    d['get_args'] = F('get_args', lambda I, a, k: Opaque('typing.args'))
    return d


MODELS['typing_extensions'] = m_typing


# ------------------------------------------------------------------ dataclasses
MISSING = Opaque('dataclasses.MISSING')


class FieldV:
    def __init__(self, kw):
        self.default = kw.get('default', MISSING)
        self.factory = kw.get('default_factory', MISSING)
        self.init = kw.get('init', True)
        self.compare = kw.get('compare', True)
        self.repr = kw.get('repr', True)


def make_dataclass(I, c, opts):
    fields = []
    for b in reversed(c.mro[1:]):
        if b.dataclass:
            for f in b.dataclass['own']:
                fields = [x for x in fields if x[0] != f[0]] + [f] if f[0] not in [x[0] for x in fields] else \
                    [f if x[0] == f[0] else x for x in fields]
    own = []
    ns = c.ns.vars
    for n, ann in c.ann:
        s = show(ann) if not isinstance(ann, str) else ann
        if 'ClassVar' in s:
            continue
        v = deref(ns.get(n, MISSING)) if n in ns else MISSING
        if isinstance(v, FieldV):
            fv = v
            if fv.default is not MISSING:
                ns[n] = fv.default
            else:
                ns.pop(n, None)
        else:
            if isinstance(v, (PList, PDict, PSet)):
                I.throw('ValueError', 'mutable default for field %s is not allowed' % n)
            fv = FieldV({'default': v} if v is not MISSING else {})
        own.append((n, fv))
    for f in own:
        if f[0] in [x[0] for x in fields]:
            fields = [f if x[0] == f[0] else x for x in fields]
        else:
            fields.append(f)
    frozen = bool(opts.get('frozen', False))
    c.is_frozen = frozen
    c.dataclass = {'fields': [(n, fv) for n, fv in fields], 'own': own, 'eq': opts.get('eq', True),
                   'frozen': frozen, 'order': opts.get('order', False), 'unsafe_hash': opts.get('unsafe_hash', False)}

    def init(I, a, k):
        o = a[0]
        pos = list(a[1:])
        kw = dict(k)
        names = [n for n, fv in fields if fv.init]
        if len(pos) > len(names):
            I.throw('TypeError', '__init__() takes %d positional arguments' % (len(names) + 1))
        vals = dict(zip(names, pos))
        for kk, v in kw.items():
            if kk not in names or kk in vals:
                I.throw('TypeError', '__init__() got an unexpected keyword argument %s' % kk)
            vals[kk] = v
        for n, fv in fields:
            if n in vals:
                o.set(n, vals[n])
            elif fv.default is not MISSING:
                o.set(n, fv.default)
            elif fv.factory is not MISSING:
                o.set(n, I.call(fv.factory, [], {}))
            elif fv.init:
                I.throw('TypeError', "__init__() missing required argument: '%s'" % n)
        pi = c.lookup('__post_init__')[0]
        if pi is not None:
            I.call(I.bind(pi, o, o.cls), [], {})
    if opts.get('init', True) and '__init__' not in ns:
        ns['__init__'] = F('__init__', init, 'method')
    if opts.get('repr', True) and '__repr__' not in ns:
        def rp(I, a, k):
            o = a[0]
            parts = [o.cls.qualname, '(']
            for i, (n, fv) in enumerate(fields):
                if not fv.repr:
                    continue
                parts += [', ' if len(parts) > 2 else '', n, '=', repr_(I, o.get(n))]
            return I.concat(parts + [')'])
        ns['__repr__'] = F('__repr__', rp, 'method')
    if opts.get('eq', True) and '__eq__' not in ns:
        def eq(I, a, k):
            x, y = a[0], deref(a[1])
            if not (isinstance(y, Obj) and y.cls is x.cls):
                return NotImpl
            for n, fv in fields:
                if fv.compare and not I.eq(x.get(n), y.get(n)):
                    return False
            return True
        ns['__eq__'] = F('__eq__', eq, 'method')
    if opts.get('order'):
        def cmp(want_less, want_equal):
            def f(I, a, k):
                x, y = a[0], deref(a[1])
                if not (isinstance(y, Obj) and y.cls is x.cls):
                    return NotImpl
                for n, fv in fields:
                    if fv.compare and not I.eq(x.get(n), y.get(n)):
                        less = I.truth(I.B.order(I, ast.Lt, x.get(n), y.get(n)))
                        return less if want_less else not less
                return want_equal
            return f
        for nm, l, e in (('__lt__', True, False), ('__le__', True, True), ('__gt__', False, False), ('__ge__', False, True)):
            ns[nm] = F(nm, cmp(l, e), 'method')
    return c


@model('dataclasses')
def m_dataclasses(I):
    def dataclass(I, a, k):
        opts = {kk: to_host(I, v) for kk, v in k.items()}
        if a and isinstance(deref(a[0]), ClassV):
            return make_dataclass(I, deref(a[0]), opts)
        return F('dataclass()', lambda I, b, kk: make_dataclass(I, deref(b[0]), opts))

    def fields(I, a, k):
        c = deref(a[0])
        c = c if isinstance(c, ClassV) else c.cls
        out = []
        for n, fv in c.dataclass['fields']:
            o = Obj(I.types['SimpleNamespace'])
            o.set('name', n)
            out.append(o)
        return tuple(out)

    def replace(I, a, k):
        o = deref(a[0])
        vals = {n: o.get(n) for n, fv in o.cls.dataclass['fields'] if fv.init}
        vals.update(k)
        return I.call(o.cls, [], vals)

    def asdict(I, a, k):
        def conv(v):
            v = deref(v)
            if isinstance(v, Obj) and v.cls.dataclass:
                d = PDict()
                for n, fv in v.cls.dataclass['fields']:
                    I.dict_set(d, n, conv(v.get(n)))
                return d
            if isinstance(v, PList):
                return PList([conv(x) for x in v.items])
            if isinstance(v, tuple):
                return tuple(conv(x) for x in v)
            return deepcopy(I, v, {})
        return conv(a[0])

    def astuple(I, a, k):
        o = deref(a[0])
        return tuple(deepcopy(I, o.get(n), {}) for n, fv in o.cls.dataclass['fields'])
    return {'dataclass': F('dataclass', dataclass), 'field': F('field', lambda I, a, k: FieldV(k)),
            'fields': F('fields', fields), 'replace': F('replace', replace), 'asdict': F('asdict', asdict),
            'astuple': F('astuple', astuple), 'MISSING': MISSING, 'FrozenInstanceError': I.types['AttributeError'],
            'is_dataclass': F('is_dataclass', lambda I, a, k: bool(
                (deref(a[0]) if isinstance(deref(a[0]), ClassV) else getattr(deref(a[0]), 'cls', None) or
                 I.types['object']).dataclass))}


# ------------------------------------------------------------------ collections
@model('collections')
def m_collections(I):
    t = I.types

    def namedtuple(I, a, k):
        name = to_host(I, a[0])
        fs = to_host(I, a[1])
        if isinstance(fs, str):
            fs = fs.replace(',', ' ').split()
        env = Env()
        env.kind = 'class'
        env.ann = []
        env.module = None
        from .builtins import make_class
        c = make_class(I, name, [t['object']], {}, env)
        defaults = {}
        if 'defaults' in k:
            ds = list(I.iterate(k['defaults']))
            defaults = dict(zip(fs[len(fs) - len(ds):], ds))
        c.namedtuple = (list(fs), defaults)
        return c
    ab = mk(I, 'collections.abc', {n: Opaque('collections.abc.' + n) for n in (
        'Iterable', 'Iterator', 'Sequence', 'Mapping', 'MutableMapping', 'MutableSequence', 'Callable', 'Generator',
        'Collection', 'Hashable', 'Set', 'MutableSet', 'Container', 'Sized', 'KeysView', 'ValuesView', 'ItemsView')})
    I.modules.setdefault('collections.abc', ab)
    return {'namedtuple': F('namedtuple', namedtuple), 'defaultdict': t['defaultdict'], 'OrderedDict': t['OrderedDict'],
            'deque': t['deque'], 'Counter': t['Counter'], 'abc': I.modules['collections.abc'],
            'ChainMap': Opaque('collections.ChainMap'), 'UserDict': Opaque('collections.UserDict'),
            'UserList': Opaque('collections.UserList')}


@model('collections.abc')
def m_collections_abc(I):
    I.import_module('collections')
    return I.modules['collections.abc']


# --------------------------------------------------------------------- operator
@model('operator')
def m_operator(I):
    d = {}
    for n, op in (('add', ast.Add), ('sub', ast.Sub), ('mul', ast.Mult), ('and_', ast.BitAnd), ('or_', ast.BitOr),
                  ('xor', ast.BitXor), ('mod', ast.Mod), ('floordiv', ast.FloorDiv), ('truediv', ast.Div),
                  ('concat', ast.Add), ('iadd', ast.Add), ('ior', ast.BitOr)):
        d[n] = F(n, (lambda o: lambda I, a, k: I.binop(o(), a[0], a[1]))(op))
    for n, op in (('eq', ast.Eq), ('ne', ast.NotEq), ('lt', ast.Lt), ('le', ast.LtE), ('gt', ast.Gt), ('ge', ast.GtE),
                  ('is_', ast.Is), ('is_not', ast.IsNot)):
        d[n] = F(n, (lambda o: lambda I, a, k: I.compare(o(), a[0], a[1]))(op))
    d['contains'] = F('contains', lambda I, a, k: I.contains(a[0], a[1]))
    d['not_'] = F('not_', lambda I, a, k: not I.truth(a[0]))
    d['truth'] = F('truth', lambda I, a, k: I.truth(a[0]))
    d['getitem'] = F('getitem', lambda I, a, k: I.getitem(a[0], a[1]))

    def attrgetter(I, a, k):
        names = [concretise(x) for x in a]

        def one(o, n):
            for p in n.split('.'):
                o = I.getattr(o, p)
            return o
        return F('attrgetter()', lambda I, b, kk: one(b[0], names[0]) if len(names) == 1 else
                 tuple(one(b[0], n) for n in names))

    def itemgetter(I, a, k):
        return F('itemgetter()', lambda I, b, kk: I.getitem(b[0], a[0]) if len(a) == 1 else
                 tuple(I.getitem(b[0], x) for x in a))

    def methodcaller(I, a, k):
        return F('methodcaller()', lambda I, b, kk: I.call(I.getattr(b[0], concretise(a[0])), list(a[1:]), k))
    d['attrgetter'] = F('attrgetter', attrgetter)
    d['itemgetter'] = F('itemgetter', itemgetter)
    d['methodcaller'] = F('methodcaller', methodcaller)
    return d


# --------------------------------------------------------------------------- re
class RegexV:
    def __init__(self, rx):
        self.rx = rx

    def __repr__(self):
        return 're.compile(%r)' % self.rx.pattern


class MatchV:
    def __init__(self, w, rx, how, m):
        self.w, self.rx, self.how, self.m = w, rx, how, m


def re_apply(I, how, rx, w):
    """match / fullmatch / search of a constant regex on a word"""
    w = deref(w)
    if isinstance(w, FVal):
        split(w.var, lambda d: getattr(rx, how)(w.fn[d]) is not None, '%s %s' % (how, rx.pattern))
        if getattr(rx, how)(w.fn[w.var.dom[0]]) is None:
            return None
        return MatchV(w, rx, how, None)
    if isinstance(w, str):
        m = getattr(rx, how)(w)
        return None if m is None else MatchV(w, rx, how, m)
    if isinstance(w, (SStr, SCat)):
        memo = I.path_memo()
        key = ('re', how, rx.pattern, rx.flags, id(w))
        if key not in memo:
            # literal-prefix / literal facts still apply
            memo[key] = (bool(choose(2, '%s(%r, %s)' % (how, rx.pattern, show(w)))), w)
            if memo[key][0] is False and isinstance(w, SStr):
                P.touch(w)
        return MatchV(w, rx, how, None) if memo[key][0] else None
    if w is None or isinstance(w, (int, PList)):
        I.throw('TypeError', 'expected string or bytes-like object')
    raise Incomplete('regular expression on %s' % show(w))


def match_attr(I, o, name):
    def group(I, a, k):
        g = [to_host(I, x) for x in a]

        def one(i):
            if isinstance(o.w, (str, FVal)):
                return I.pointwise(lambda x: getattr(o.rx, o.how)(x).group(i), o.w)
            return unknown_word(I, 'group%s' % i, o.w)
        if not g:
            return one(0)
        return one(g[0]) if len(g) == 1 else tuple(one(i) for i in g)
    if name == 'group':
        return F('group', group)
    if name == 'groups':
        return F('groups', lambda I, a, k: tuple(group(I, [i + 1], {}) for i in range(o.rx.groups)))
    if name == 'groupdict':
        return F('groupdict', lambda I, a, k: I.from_host({}) if not o.rx.groupindex else _gd(I, o, group))
    if name in ('start', 'end', 'span'):
        if isinstance(o.w, (str, FVal)):
            return F(name, lambda I, a, k: I.pointwise(lambda x: getattr(getattr(o.rx, o.how)(x), name)(), o.w))
        return F(name, lambda I, a, k: SInt(0, None, name))
    raise Incomplete('match.%s' % name)


def _gd(I, o, group):
    d = PDict()
    for n in o.rx.groupindex:
        I.dict_set(d, n, group(I, [n], {}))
    return d


def regex_method(I, rx, name):
    def f(I, a, k):
        if name in ('match', 'fullmatch', 'search'):
            return re_apply(I, name, rx, a[0])
        w = deref(a[-1]) if name != 'split' else deref(a[0])
        if name in ('findall', 'split') and isinstance(w, (str, FVal)):
            return I.pointwise(lambda x: getattr(rx, name)(x), w)
        if name == 'finditer' and isinstance(w, str):
            return PList([MatchV(w, rx, 'search', m) for m in rx.finditer(w)])
        if name == 'sub':
            w = deref(a[1])
            r = deref(a[0])
            if isinstance(r, str) and isinstance(w, (str, FVal)):
                return I.pointwise(lambda x: rx.sub(r, x), w)
            return unknown_word(I, 'sub', w)
        if name in ('findall', 'split'):
            n = choose(3, 'number of pieces')
            return PList([unknown_word(I, 'piece%d' % i, w) for i in range(n)])
        raise Incomplete('re.%s' % name)
    return F('re.' + name, f)


@model('re')
def m_re(I):
    d = {}

    def comp(I, p, flags=0):
        p = deref(p)
        if isinstance(p, RegexV):
            return p.rx
        p = concretise(p)
        if not isinstance(p, (str, bytes)):
            raise Incomplete('regular expression built from %s' % show(p))
        try:
            return host_re.compile(p, flags)
        except host_re.error as e:
            I.throw('ValueError', str(e))

    def fl(k, a, i):
        v = k.get('flags', a[i] if len(a) > i else 0)
        return to_host(I, v)
    d['compile'] = F('compile', lambda I, a, k: RegexV(comp(I, a[0], fl(k, a, 1))))
    for n in ('match', 'fullmatch', 'search', 'findall', 'split', 'finditer'):
        d[n] = F(n, (lambda nn: lambda I, a, k: I.call(regex_method(I, comp(I, a[0], fl(k, a, 2)), nn), [a[1]], {}))(n))
    d['sub'] = F('sub', lambda I, a, k: I.call(regex_method(I, comp(I, a[0], fl(k, a, 4)), 'sub'), [a[1], a[2]], {}))
    d['escape'] = F('escape', lambda I, a, k: I.pointwise(host_re.escape, a[0]) if isinstance(deref(a[0]), (str, FVal)) else
                    unknown_word(I, 'escaped', a[0]))
    for n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE', 'X', 'ASCII', 'A'):
        d[n] = int(getattr(host_re, n))
    d['error'] = I.types['ValueError']
    d['Pattern'] = Opaque('re.Pattern')
    d['Match'] = Opaque('re.Match')
    return d


# -------------------------------------------------------- contextlib and friends
@model('contextlib')
def m_contextlib(I):
    def suppress(I, a, k):
        def exit_(ex):
            return ex is not None and any(ex.obj.cls.issub(c) for c in a)
        return CtxV(lambda: None, exit_)

    def contextmanager(I, a, k):
        f = a[0]

        def make(I, b, kk):
            it = I.call(f, b, kk)

            def enter():
                try:
                    return next(it.gen)
                except StopIteration:
                    I.throw('RuntimeError', "generator didn't yield")

            def exit_(ex):
                if ex is None:
                    try:
                        next(it.gen)
                    except StopIteration:
                        return False
                    I.throw('RuntimeError', "generator didn't stop")
                try:
                    it.gen.throw(ex)
                except StopIteration:
                    return True
                except PyExc as e2:
                    if e2 is ex:
                        return False
                    raise
                I.throw('RuntimeError', "generator didn't stop after throw()")
            return CtxV(enter, exit_)
        owner = None
        return CtxMaker(f, make) if False else F('contextmanager:' + getattr(f, 'name', '?'), make, 'method')
    return {'suppress': F('suppress', suppress), 'contextmanager': F('contextmanager', contextmanager),
            'nullcontext': F('nullcontext', lambda I, a, k: CtxV(lambda: a[0] if a else None, lambda ex: False)),
            'ExitStack': Opaque('contextlib.ExitStack'),
            'redirect_stdout': F('redirect_stdout', lambda I, a, k: CtxV(lambda: None, lambda ex: False))}


#: what is printed when nobody has set up logging
LOUD = ('warning', 'error', 'critical', 'exception', 'warn')


@model('logging')
def m_logging(I):
    nop = F('log', lambda I, a, k: None)
    loud = F('log', lambda I, a, k: outside(I, 'writes a message to standard error'))
    c = I.types.get('logging.Logger') or mk_builtin_class(I, 'logging.Logger', [I.types['object']])
    c.builtin = None
    names = ('debug', 'info', 'warning', 'error', 'critical', 'exception', 'log', 'setLevel', 'addHandler', 'warn',
             'removeHandler')
    for n in names:
        c.ns.vars[n] = F(n, loud.fn if n in LOUD else nop.fn, 'method')
    c.ns.vars['isEnabledFor'] = F('isEnabledFor', lambda I, a, k: False, 'method')
    lg = Obj(c)
    d = {n: loud if n in LOUD else nop for n in names}
    d.update({'getLogger': F('getLogger', lambda I, a, k: lg), 'basicConfig': nop, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30,
              'ERROR': 40, 'CRITICAL': 50, 'Logger': c, 'NullHandler': F('NullHandler', lambda I, a, k: None),
              'StreamHandler': F('StreamHandler', lambda I, a, k: None), 'Formatter': nop})
    return d


@model('warnings')
def m_warnings(I):
    nop = F('warn', lambda I, a, k: None)
    return {'warn': F('warn', lambda I, a, k: outside(I, 'writes a warning to standard error')), 'simplefilter': nop, 'filterwarnings': nop,
            'catch_warnings': F('catch_warnings', lambda I, a, k: CtxV(lambda: None, lambda ex: False))}


@model('traceback')
def m_traceback(I):
    return {'print_exc': F('print_exc', lambda I, a, k: outside(I, 'prints a traceback')), 'format_exc': F('format_exc', lambda I, a, k: SStr('traceback'))}


@model('io')
def m_io(I):
    c = mk_builtin_class(I, 'io.StringIO', [I.types['object']])
    c.builtin = None

    def meth(name, fn):
        c.ns.vars[name] = F('StringIO.' + name, fn, 'method')

    def init(I, a, k):
        a[0].set('_text', a[1] if len(a) > 1 else k.get('initial_value', '') or '')
        # writing starts at the beginning of an initial value
        a[0].set('_pos', 0 if a[0].get('_text') == '' else -1)

    def write(I, a, k):
        if a[0].get('_pos') != 0:
            raise Incomplete('StringIO with an initial value')
        a[0].set('_text', I.concat([a[0].get('_text'), a[1]]))
        return I.call(I.builtins['len'], [a[1]], {})
    meth('__init__', init)
    meth('write', write)
    meth('writelines', lambda I, a, k: [write(I, [a[0], x], {}) for x in I.iterate(a[1])] and None)
    meth('getvalue', lambda I, a, k: a[0].get('_text'))
    meth('close', lambda I, a, k: None)
    meth('flush', lambda I, a, k: None)
    meth('__enter__', lambda I, a, k: a[0])
    meth('__exit__', lambda I, a, k: None)
    return {'StringIO': c, 'open': I.builtins['open']}


@model('string')
def m_string(I):
    import string
    return {n: getattr(string, n) for n in dir(string) if isinstance(getattr(string, n), str)}


@model('types')
def m_types(I):
    return {'SimpleNamespace': I.types['SimpleNamespace'], 'MappingProxyType': F('MappingProxyType', lambda I, a, k: a[0]),
            'ModuleType': I.types['module'], 'FunctionType': I.types['function'], 'GeneratorType': I.types['generator'],
            'MethodType': F('MethodType', lambda I, a, k: BoundM(a[0], a[1])), 'NoneType': I.types['NoneType']}


@model('math')
def m_math(I):
    import math
    d = {n: F(n, (lambda f: lambda I, a, k: I.from_host(f(*[to_host(I, x) for x in a])))(getattr(math, n)))
         for n in dir(math) if callable(getattr(math, n)) and not n.startswith('_')}
    d['inf'] = math.inf
    d['pi'] = math.pi
    return d


@model('inspect')
def m_inspect(I):
    return {'isclass': F('isclass', lambda I, a, k: isinstance(deref(a[0]), ClassV)),
            'isfunction': F('isfunction', lambda I, a, k: isinstance(deref(a[0]), FuncV)),
            'ismethod': F('ismethod', lambda I, a, k: isinstance(deref(a[0]), BoundM)),
            'isabstract': F('isabstract', lambda I, a, k: isinstance(deref(a[0]), ClassV) and bool(deref(a[0]).abstract)),
            'signature': Opaque('inspect.signature'), 'getmembers': Opaque('inspect.getmembers')}


@model('builtins')
def m_builtins(I):
    return dict(I.builtins)


@model('__future__')
def m_future(I):
    return {'annotations': None}


@model('tempfile')
def m_tempfile(I):
    return {'mkstemp': F('mkstemp', lambda I, a, k: outside(I, 'creates a file') or (SInt(3, None, 'fd'), SStr('tmp'))),
            'gettempdir': F('gettempdir', lambda I, a, k: '/tmp')}


@model('textwrap')
def m_textwrap(I):
    import textwrap
    return {'dedent': F('dedent', lambda I, a, k: I.pointwise(textwrap.dedent, a[0])),
            'indent': F('indent', lambda I, a, k: I.pointwise(textwrap.indent, *a))}


@model('time')
def m_time(I):
    t = F('time', lambda I, a, k: outside(I, 'looks at the clock') or Opaque('time'))
    return {'time': t, 'perf_counter': t, 'sleep': F('sleep', lambda I, a, k: outside(I, 'waits')), 'monotonic': t}


def extra_attr(I, o, name):
    """attributes of the values defined in this module, or _NO"""
    if isinstance(o, CmdStr):
        return cmdstr_attr(I, o, name)
    if isinstance(o, SysModules):
        return o.attr(I, name)
    if isinstance(o, RegexV):
        if name == 'pattern':
            return o.rx.pattern
        return regex_method(I, o.rx, name)
    if isinstance(o, MatchV):
        return match_attr(I, o, name)
    if isinstance(o, FieldV):
        return getattr(o, name)
    return _NO
