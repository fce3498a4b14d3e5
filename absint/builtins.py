"""Models of Python's builtin types and functions over abstract values."""
import ast
import builtins as host_builtins
import itertools

from .core import *
from .interp import _NO

WORDS = (str, FVal, SStr, SCat)
HOST = (str, int, float, bytes, bool, complex)
NotImpl = Opaque('NotImplemented')


# ------------------------------------------------------------------ classes
def mk_builtin_class(I, name, bases=()):
    ns = Env()
    ns.kind = 'class'
    c = ClassV(name, list(bases), ns)
    c.builtin = name
    c.mro = linearize(I, c, list(bases))
    c.file = None
    I.types[name] = c
    return c


def linearize(I, cls, bases):
    seqs = [list(b.mro) for b in bases if isinstance(b, ClassV)] + [[b for b in bases if isinstance(b, ClassV)]]
    out = [cls]
    seqs = [s for s in seqs if s]
    while seqs:
        for s in seqs:
            h = s[0]
            if not any(h in t[1:] for t in seqs):
                break
        else:
            I.throw('TypeError', 'Cannot create a consistent method resolution order (MRO)')
        out.append(h)
        seqs = [[x for x in s if x is not h] for s in seqs]
        seqs = [s for s in seqs if s]
    return out


def setup(I):
    obj = mk_builtin_class(I, 'object')
    for n in ('type', 'int', 'str', 'float', 'bytes', 'list', 'dict', 'set', 'frozenset', 'tuple', 'complex',
              'NoneType', 'function', 'range', 'slice', 'property', 'staticmethod', 'classmethod', 'generator',
              'module', 'builtin', 'bytearray', 'method', 'deque', 'ellipsis'):
        mk_builtin_class(I, n, [obj])
    mk_builtin_class(I, 'bool', [I.types['int']])
    mk_builtin_class(I, 'defaultdict', [I.types['dict']])
    mk_builtin_class(I, 'OrderedDict', [I.types['dict']])
    mk_builtin_class(I, 'Counter', [I.types['dict']])

    # exception hierarchy
    def exc(h):
        if h.__name__ in I.types:
            return I.types[h.__name__]
        bases = [exc(b) for b in h.__bases__ if b is not object] or [obj]
        c = mk_builtin_class(I, h.__name__, bases)
        c.host_exc = h
        return c
    for n in dir(host_builtins):
        h = getattr(host_builtins, n)
        if isinstance(h, type) and issubclass(h, BaseException):
            c = exc(h)
            I.types[n] = c
    import json as host_json
    exc(host_json.JSONDecodeError)
    c = mk_builtin_class(I, 'ABC', [obj])
    c.is_abc = True
    c = mk_builtin_class(I, 'Enum', [obj])
    c.is_enum = True
    for n, b in (('IntEnum', ['int', 'Enum']), ('StrEnum', ['str', 'Enum']), ('Flag', ['Enum']), ('IntFlag', ['int', 'Enum'])):
        c = mk_builtin_class(I, 'enum.' + n, [I.types[x] for x in b])
        c.is_enum = True
        if len(b) == 2:
            c.mixin = b[0]
    mk_builtin_class(I, 'NamedTuple', [obj])
    mk_builtin_class(I, 'SimpleNamespace', [obj])
    mk_builtin_class(I, 'ABCMeta', [I.types['type']])

    o = I.types['object'].ns.vars
    o['__init__'] = BuiltinF('object.__init__', lambda I, a, k: object_init(I, a, k), 'method')
    o['__new__'] = StaticM(BuiltinF('object.__new__', lambda I, a, k: Obj(a[0])))
    o['__eq__'] = BuiltinF('object.__eq__', lambda I, a, k: True if a[0] is a[1] else NotImpl, 'method')
    o['__ne__'] = BuiltinF('object.__ne__', lambda I, a, k: not I.eq(a[0], a[1]), 'method')
    o['__hash__'] = BuiltinF('object.__hash__', lambda I, a, k: SInt(None, None, 'hash'), 'method')
    o['__repr__'] = BuiltinF('object.__repr__', lambda I, a, k: '<object>', 'method')
    o['__str__'] = BuiltinF('object.__str__', lambda I, a, k: repr_(I, a[0]), 'method')
    o['__setattr__'] = BuiltinF('object.__setattr__', lambda I, a, k: a[0].set(a[1], a[2]), 'method')
    o['__getattribute__'] = BuiltinF('object.__getattribute__', lambda I, a, k: I.getattr(a[0], a[1]), 'method')
    o['__init_subclass__'] = ClassM(BuiltinF('object.__init_subclass__', lambda I, a, k: None))
    del o['__getattribute__']
    be = I.types['BaseException'].ns.vars
    be['__init__'] = BuiltinF('exc.__init__', lambda I, a, k: a[0].set('args', tuple(a[1:])), 'method')
    be['with_traceback'] = BuiltinF('with_traceback', lambda I, a, k: a[0], 'method')
    be['__str__'] = BuiltinF('exc.__str__', lambda I, a, k: exc_str(I, a[0]), 'method')
    be['__repr__'] = BuiltinF('exc.__repr__', lambda I, a, k: exc_repr(I, a[0]), 'method')

    # classmethods reached through the type
    I.types['dict'].ns.vars['fromkeys'] = BuiltinF('dict.fromkeys', lambda I, a, k: dict_fromkeys(I, a[1:]), 'classmethod')
    for tn in ('str', 'list', 'dict', 'set', 'tuple', 'frozenset', 'int', 'bytes'):
        ht = getattr(host_builtins, tn)
        ns = I.types[tn].ns.vars
        for m in dir(ht):
            if (m.startswith('__') and m not in ('__contains__', '__len__', '__getitem__', '__add__', '__lt__')) or m in ns:
                continue
            ns[m] = BuiltinF('%s.%s' % (tn, m),
                             (lambda mm: lambda I, a, k: I.call(value_attr(I, deref(a[0]), mm), a[1:], k))(m), 'method')
    ns = I.types['str'].ns.vars
    ns['maketrans'] = StaticM(BuiltinF('str.maketrans', lambda I, a, k: I.from_host(str.maketrans(*[to_host(I, x) for x in a]))))

    b = I.builtins
    for n, c in list(I.types.items()):
        if '.' not in n and n not in ('NoneType', 'function', 'module', 'builtin', 'method', 'generator', 'deque',
                                      'ABC', 'Enum', 'NamedTuple', 'SimpleNamespace', 'defaultdict', 'OrderedDict',
                                      'Counter', 'ABCMeta', 'JSONDecodeError', 'ellipsis'):
            b[n] = c
    b['True'], b['False'], b['None'] = True, False, None
    b['NotImplemented'] = NotImpl
    b['Ellipsis'] = Ellipsis
    b['__debug__'] = True
    b['__name__'] = 'builtins'
    for n, f in list(globals().items()):
        if n.startswith('b_'):
            b[n[2:]] = BuiltinF(n[2:], f)


def object_init(I, a, k):
    o = a[0]
    if (len(a) > 1 or k) and not (isinstance(o, Obj) and isinstance(o.cls.lookup('__new__')[0], FuncV)):
        I.throw('TypeError', '%s() takes no arguments' % o.cls.name)


def exc_repr(I, e):
    args = deref(e.get('args')) if 'args' in e.attrs.d else ()
    if len(args) == 1:
        return I.concat([e.cls.name, '(', repr_(I, args[0]), ')'])
    return I.concat([e.cls.name, repr_(I, tuple(args))])


def exc_str(I, o):
    args = o.get('args') or ()
    if not args:
        return ''
    if len(args) == 1:
        return repr_(I, args[0]) if o.cls.issub(I.types['KeyError']) else str_(I, args[0])
    return repr_(I, tuple(args))


def build_class(I, node, bases, kw, env):
    ns = Env(env)
    ns.module = env.module
    ns.kind = 'class'
    ns.file = env.file
    ns.fname = (env.fname + '.' if env.fname != '<module>' else '') + node.name
    ns.ann = []
    ns.globals_ = ()
    ns.vars['__module__'] = env.module.vars.get('__name__')
    ns.vars['__qualname__'] = ns.fname
    saved_doc = None
    for s in node.body:
        sig = I.exec(s, ns)
        if sig is not None:
            raise Incomplete('control flow in class body')
    c = make_class(I, node.name, bases, kw, ns)
    c.file = env.file
    c.node = node
    c.qualname = ns.fname
    return c


def make_class(I, name, bases, kw, ns):
    real = []
    opaque = False
    for b in bases:
        b = deref(b)
        if isinstance(b, ClassV):
            real.append(b)
        elif isinstance(b, Opaque):
            if not (b.name.startswith('typing') or b.name.startswith('abc')):
                opaque = True
        else:
            I.throw('TypeError', 'bad base class')
    if not real:
        real = [I.types['object']]
    c = ClassV(name, real, ns, ns.module)
    c.mro = linearize(I, c, real)
    c.has_opaque_base = opaque or any(b.has_opaque_base for b in real)
    c.is_abc = any(b.is_abc for b in real)
    c.ann = list(ns.ann)
    c.file = getattr(ns, 'file', None)
    for b in real:
        b.subs.append(c)
        if b.builtin in ('list', 'dict', 'str', 'set', 'tuple', 'int', 'frozenset', 'float', 'deque', 'defaultdict',
                         'OrderedDict') and not any(x.is_enum for x in real):
            c.builtin_base = b.builtin
        if b.builtin_base:
            c.builtin_base = b.builtin_base
        if b.dataclass and not c.dataclass:
            c.is_frozen = b.is_frozen
    meta = kw.get('metaclass')
    if meta is not None:
        if isinstance(meta, ClassV) and meta.builtin in ('ABCMeta', 'type'):
            c.is_abc = c.is_abc or meta.builtin == 'ABCMeta'
        elif isinstance(meta, Opaque) and 'Meta' in meta.name:
            pass
        elif isinstance(meta, ClassV):
            c.meta = meta
    # classes referenced by zero-argument super
    for k, v in list(ns.vars.items()):
        f = v
        if isinstance(f, (StaticM, ClassM, CacheF)):
            f = f.f
        if isinstance(f, PropertyV):
            for g in (f.fget, f.fset):
                if isinstance(g, FuncV):
                    g.cls = c
        if isinstance(f, CachedPropertyV):
            f = f.f
        if isinstance(f, FuncV):
            f.cls = c
    if '__slots__' in ns.vars:
        sl = ns.vars['__slots__']
        names = {sl} if isinstance(sl, str) else set(map(deref, I.iterate(sl)))
        if all(b.slots is not None or b.builtin == 'object' for b in real):
            for b in real:
                names |= (b.slots or set())
            c.slots = names
    if c.is_abc:
        abs_ = set()
        seen = set()
        for k in c.mro:
            for n, v in k.ns.vars.items():
                if n in seen:
                    continue
                seen.add(n)
                if is_abstract(v):
                    abs_.add(n)
        c.abstract = frozenset(abs_)
    if any(b.is_enum for b in real):
        build_enum(I, c)
    if any(b.builtin == 'NamedTuple' for b in real):
        defaults = {}
        for n, _ in c.ann:
            if n in ns.vars:
                defaults[n] = ns.vars.pop(n)
        c.namedtuple = ([n for n, _ in c.ann], defaults)
    elif any(b.namedtuple for b in real):
        c.namedtuple = [b.namedtuple for b in real if b.namedtuple][0]
    for b in c.mro[1:]:
        h = b.ns.vars.get('__init_subclass__')
        if h is not None and b.builtin != 'object':
            f = h.f if isinstance(h, ClassM) else h
            k2 = {k: v for k, v in kw.items() if k != 'metaclass'}
            I.call(f, [c], k2)
            break
    for k, v in list(ns.vars.items()):
        if isinstance(v, Obj):
            m = v.cls.lookup('__set_name__')[0]
            if isinstance(m, FuncV):
                I.call(BoundM(m, v), [c, k], {})
    return c


def is_abstract(v):
    if isinstance(v, (StaticM, ClassM)):
        v = v.f
    if isinstance(v, PropertyV):
        v = v.fget
    return isinstance(v, FuncV) and getattr(v, 'abstract', False)


def build_enum(I, c):
    c.is_enum = True
    for b in c.mro:
        if b.builtin in ('str', 'int'):
            c.mixin = b.builtin
    c.members = {}
    for b in c.bases:
        if b.members:
            I.throw('TypeError', 'cannot extend enumeration')
    auto = 0
    strenum = any(b.name == 'enum.StrEnum' for b in c.mro)
    for k, v in list(c.ns.vars.items()):
        if k.startswith('_') or isinstance(v, (FuncV, StaticM, ClassM, PropertyV, CacheF, ClassV)) or \
                (isinstance(v, BuiltinF)):
            continue
        if isinstance(v, Opaque) and v.name == 'enum.auto':
            if strenum:
                v = k.lower()
            else:
                ints = [m.get('_value_') for m in c.members.values() if isinstance(m.get('_value_'), int)]
                v = (max(ints) if ints else 0) + 1
        elif isinstance(v, Opaque) and v.name.startswith('enum.member'):
            raise Incomplete('enum.member')
        alias = None
        for m in c.members.values():
            if type(m.get('_value_')) is type(v) and I.eq(m.get('_value_'), v):
                alias = m
        if alias is not None:
            c.ns.vars[k] = alias
            continue
        m = Obj(c)
        m.set('_name_', k)
        m.set('_value_', v)
        c.members[k] = m
        c.ns.vars[k] = m
        ini, ic = c.lookup('__init__')
        if isinstance(ini, FuncV):
            I.call(ini, [m] + (list(v) if isinstance(v, tuple) else [v]), {})


def enum_lookup(I, c, v):
    v = deref(v)
    if isinstance(v, Obj) and v.cls is c:
        return v
    for m in c.members.values():
        mv = m.get('_value_')
        if type(mv) is type(v) or isinstance(v, WORDS) or isinstance(mv, (int, float)):
            if I.eq(mv, v):
                return m
    mi = c.lookup('_missing_')[0]
    if isinstance(mi, ClassM):
        r = I.call(mi.f, [c, v], {})
        if r is not None:
            return r
    I.throw('ValueError', '%s is not a valid %s' % (show(v), c.name))


def functional_enum(I, c, args, kw):
    names = deref(args[1] if len(args) > 1 else kw['names'])
    start = concretise(kw.get('start', 1))
    if isinstance(names, str):
        names = names.replace(',', ' ').split()
        members = [(n, i + start) for i, n in enumerate(names)]
    elif isinstance(names, PDict):
        members = [(concretise(k), v) for k, v in names.d.values()]
    else:
        members = []
        for i, x in enumerate(iterate(I, names)):
            x = deref(x)
            if isinstance(x, (tuple, PList)):
                n, v = list(iterate(I, x))
                members.append((concretise(n), v))
            else:
                members.append((concretise(x), i + start))
    mod = I.frame_module() if hasattr(I, 'frame_module') else None
    name = concretise(args[0])
    env = mod or c.ns.module
    ns = Env(env)
    ns.module, ns.kind, ns.file, ns.fname, ns.ann, ns.globals_ = env, 'class', getattr(env, 'file', None), name, [], ()
    ns.vars['__module__'] = 'builtins'
    ns.vars['__qualname__'] = name
    for n, v in members:
        ns.vars[n] = v
    k = make_class(I, name, [c], {}, ns)
    k.qualname = name
    return k


def instantiate(I, c, args, kw):
    if c.builtin and c.builtin in CONSTRUCT:
        return CONSTRUCT[c.builtin](I, list(args), kw)
    if c.is_enum:
        if not args:
            raise Incomplete('functional enum')
        if not c.members and (len(args) > 1 or 'names' in kw):
            return functional_enum(I, c, args, kw)
        return enum_lookup(I, c, args[0])
    meta = getattr(c, 'meta', None)
    if meta is not None and not getattr(c, '_in_meta', False):
        m = meta.lookup('__call__')[0]
        if isinstance(m, FuncV):
            raise Incomplete('metaclass __call__')
    if c.abstract:
        I.throw('TypeError', "Can't instantiate abstract class %s" % c.name)
    if c.namedtuple:
        return nt_new(I, c, args, kw)
    if c.has_opaque_base:
        raise Incomplete('instance of %s with an unknown base class' % c.name)
    new, nc = c.lookup('__new__')
    nf = new.f if isinstance(new, StaticM) else new
    if isinstance(nf, FuncV):
        o = I.call(nf, [c] + list(args), kw)
        if not (isinstance(o, Obj) and o.cls.issub(c)):
            return o
    else:
        if c.builtin_base and c.builtin_base not in ('object',):
            if any(b.name == 'TypedDict' for b in c.mro):
                return CONSTRUCT['dict'](I, list(args), kw)
            raise Incomplete('subclass of builtin %s' % c.builtin_base)
        o = Obj(c)
    if c.issub(I.types['BaseException']):
        o.set('args', tuple(args))
    init, ic = c.lookup('__init__')
    if isinstance(init, (FuncV, BuiltinF, CacheF)):
        r = I.call(init, [o] + list(args), kw)
        if r is not None:
            I.throw('TypeError', '__init__() should return None')
    elif args or kw:
        I.throw('TypeError', '%s() takes no arguments' % c.name)
    return o


def nt_new(I, c, args, kw):
    fields, defaults = c.namedtuple
    o = Obj(c)
    if len(args) > len(fields):
        I.throw('TypeError', 'too many arguments')
    vals = dict(zip(fields, args))
    for k, v in kw.items():
        if k not in fields or k in vals:
            I.throw('TypeError', 'unexpected argument %s' % k)
        vals[k] = v
    for f in fields:
        if f not in vals:
            if f in defaults:
                vals[f] = defaults[f]
            else:
                I.throw('TypeError', 'missing argument %s' % f)
        o.set(f, vals[f])
    return o


def nt_tuple(o):
    return tuple(o.get(f) for f in o.cls.namedtuple[0])


# --------------------------------------------------------- special attributes
def obj_special(I, o, name):
    c = o.cls
    if name == '__class__':
        return c
    if name == '__dict__':
        return o.attrs
    if c.is_enum:
        if name in ('value', 'name'):
            return o.get('_%s_' % name)
        if c.mixin == 'str' and hasattr(str, name):
            return value_attr(I, deref(o.get('_value_')), name)
    if name == '__doc__':
        return None
    if name == '__module__':
        return c.ns.vars.get('__module__')
    if c.namedtuple:
        if name == '_asdict':
            def asdict(I, a, k):
                d = PDict()
                for f in c.namedtuple[0]:
                    d.d[f] = (f, o.get(f))
                return d
            return BuiltinF('_asdict', asdict)
        if name == '_replace':
            def repl(I, a, k):
                vals = {f: o.get(f) for f in c.namedtuple[0]}
                vals.update(k)
                return nt_new(I, c, [], vals)
            return BuiltinF('_replace', repl)
        if name == '_fields':
            return tuple(c.namedtuple[0])
        if name in ('index', 'count'):
            return value_attr(I, nt_tuple(o), name)
    if c.issub(I.types['BaseException']):
        if name in ('__cause__', '__context__', '__traceback__'):
            return None
        if name == '__suppress_context__':
            return o.attrs.d.get('__cause__') is not None
        if name == 'code' and c.issub(I.types['SystemExit']):
            args = deref(o.get('args')) if 'args' in o.attrs.d else ()
            return None if not args else args[0] if len(args) == 1 else args
        if name == 'value' and c.issub(I.types['StopIteration']):
            args = deref(o.get('args')) if 'args' in o.attrs.d else ()
            return args[0] if args else None
        if name in ('errno', 'filename', 'strerror'):
            return Opaque('exc.' + name)
    return _NO


def class_special(I, c, name):
    if name == '__name__' or name == '__qualname__':
        return c.name if name == '__name__' else c.qualname
    if name == '__mro__':
        return tuple(c.mro)
    if name == '__bases__':
        return tuple(c.bases)
    if name == '__class__':
        return I.types['type']
    if name == '__dict__':
        d = PDict()
        for k, v in c.ns.vars.items():
            d.d[k] = (k, v)
        return d
    if name == '__module__':
        return c.ns.vars.get('__module__', 'builtins')
    if name == '__doc__':
        return None
    if name == '__annotations__':
        d = PDict()
        for k, a in c.ann:
            d.d[k] = (k, Opaque('typing.annotation'))
        return d
    if name == '__subclasses__':
        return BuiltinF('__subclasses__', lambda I, a, k: PList(c.subs))
    if name == 'mro':
        return BuiltinF('mro', lambda I, a, k: PList(c.mro))
    if name == '__members__' and c.is_enum:
        d = PDict()
        for k, m in c.members.items():
            d.d[k] = (k, m)
        return d
    if name == '_member_map_' and c.is_enum:
        return class_special(I, c, '__members__')
    if name == '_fields' and c.namedtuple:
        return tuple(c.namedtuple[0])
    if name == '_make' and c.namedtuple:
        return BuiltinF('_make', lambda I, a, k: nt_new(I, c, list(I.iterate(a[0])), {}))
    if name == 'register' and c.is_abc:
        return BuiltinF('register', lambda I, a, k: a[0])
    if name == '__abstractmethods__':
        s = PSet(True)
        for n in c.abstract:
            s.d[n] = n
        return s
    return _NO


def super_special(I, s, name):
    if name == '__init__':
        return BuiltinF('super.__init__', lambda I, a, k: None)
    if name == '__new__':
        return BuiltinF('super.__new__', lambda I, a, k: Obj(a[0]))
    if name == '__setattr__':
        return BuiltinF('super.__setattr__', lambda I, a, k: s.obj.set(a[0], a[1]))
    return _NO


def module_dict(I, m):
    d = PDict()
    for k, v in m.env.vars.items():
        d.d[k] = (k, v)
    return d


def type_of(I, v):
    v = deref(v)
    t = I.types
    if isinstance(v, Obj):
        return v.cls
    if isinstance(v, ClassV):
        return t['type']
    if v is None:
        return t['NoneType']
    if isinstance(v, bool):
        return t['bool']
    if isinstance(v, int) or isinstance(v, (SInt, LinInt, SVar)):
        return t['int']
    if isinstance(v, FVal):
        return t[type(v.fn[v.var.dom[0]]).__name__]
    if isinstance(v, WORDS):
        return t['str']
    if isinstance(v, PDeque):
        return t['deque']
    if isinstance(v, PList):
        return t['list']
    if isinstance(v, PDict):
        if v.default is not None:
            return t['defaultdict']
        return t.get(getattr(v, 'kind', 'dict'), t['dict'])
    if isinstance(v, PSet):
        return t['frozenset'] if v.frozen else t['set']
    if isinstance(v, tuple):
        return t['tuple']
    if isinstance(v, (float, bytes, complex, range, slice)):
        return t[type(v).__name__]
    if isinstance(v, (FuncV, CacheF)):
        return t['function']
    if isinstance(v, BoundM):
        return t['method']
    if isinstance(v, BuiltinF):
        return t['builtin']
    if isinstance(v, ModuleV):
        return t['module']
    if isinstance(v, IterV):
        return t['generator']
    if v is Ellipsis:
        return t['ellipsis']
    if isinstance(v, PropertyV):
        return t['property']
    if isinstance(v, I.S.CmdStr):
        return t['str']
    return None


def typename(I, v):
    c = type_of(I, v)
    return c.name if c is not None else type(v).__name__


def isinstance_(I, v, cls):
    cls = deref(cls)
    if isinstance(cls, tuple):
        return any(isinstance_(I, v, c) for c in cls)
    if isinstance(cls, Opaque):
        ms = getattr(cls, 'members', None)
        if ms is not None:
            return any(isinstance_(I, v, I.types['NoneType'] if m is None else m) for m in ms)
        ab = ABSTRACT_TYPES.get(cls.name.split('.')[-1])
        if ab is not None and (cls.name.startswith('typing') or cls.name.startswith('collections')):
            return ab(I, deref(v))
        raise Incomplete('isinstance with %r' % cls)
    if not isinstance(cls, ClassV):
        I.throw('TypeError', 'isinstance() arg 2 must be a type')
    t = type_of(I, v)
    if t is None:
        if isinstance(v, Opaque):
            return bool(choose(2, 'type of unknown value'))
        return False
    if t.has_opaque_base and not t.issub(cls):
        return bool(choose(2, 'unknown base'))
    return t.issub(cls)


def _is_it(I, v):
    return isinstance(v, (PList, PDict, PSet, tuple, IterV, range) + WORDS) or \
        (isinstance(v, Obj) and v.cls.lookup('__iter__')[0] is not None)


ABSTRACT_TYPES = {
    'Iterable': _is_it, 'Collection': _is_it,
    'List': lambda I, v: isinstance(v, PList), 'Dict': lambda I, v: isinstance(v, PDict),
    'Set': lambda I, v: isinstance(v, PSet), 'Tuple': lambda I, v: isinstance(v, tuple),
    'Sequence': lambda I, v: isinstance(v, (PList, tuple, range) + WORDS),
    'Mapping': lambda I, v: isinstance(v, PDict), 'MutableMapping': lambda I, v: isinstance(v, PDict),
    'Callable': lambda I, v: b_callable(I, [v], {}),
    'Iterator': lambda I, v: isinstance(v, IterV), 'Generator': lambda I, v: isinstance(v, IterV),
    'Hashable': lambda I, v: not isinstance(v, (PList, PDict, PSet)),
}


# -------------------------------------------------------------- open strings
def open_in(I, s, consts):
    """s (SStr) in consts, with the head-character correlation."""
    return s_in(s, consts)


CHAR_LIMIT = 3


def known_char(I, w):
    """the constant first letter of a word, if there is one"""
    w = deref(w)
    if isinstance(w, str):
        return w[:1] or None
    if isinstance(w, SStr):
        for (k, a), b in w.preds.items():
            if k == 'startswith' and b and a:
                return a[0]
    return None


def set_pred(s, kind, arg, val):
    """record a fact about a fresh open word (or decide it for a constant)"""
    s = deref(s)
    if arg == '' and kind != 'eq':
        if not val:
            raise Infeasible()
        return
    if isinstance(s, str):
        ok = (s == arg) if kind == 'eq' else host_pred(kind, arg, s)
        if ok != val:
            raise Infeasible()
        return
    if isinstance(s, FVal):
        s.var.narrow([d for d in s.var.dom
                      if ((s.fn[d] == arg) if kind == 'eq' else host_pred(kind, arg, s.fn[d])) == val])
        return
    if isinstance(s, SCat):
        if kind == 'eq':
            if bool(s_eq_const(s, arg)) != val:
                raise Infeasible()
        elif word_pred(s.I if hasattr(s, 'I') else _I[0], s, kind, arg) != val:
            raise Infeasible()
        return
    if kind == 'eq':
        if val:
            if not s.admits(arg):
                raise Infeasible()
            s.bind(arg)
        else:
            P.touch(s)
            s.neq = s.neq | {arg}
        return
    if s.preds.get((kind, arg), val) != val:
        raise Infeasible()
    lo, hi = s.length()
    if val and hi is not None and len(arg) > hi:
        raise Infeasible()
    if s.maxlen == 1 and len(arg) == 1:
        if val:
            if not s.admits(arg):
                raise Infeasible()
            s.bind(arg)
        else:
            P.touch(s)
            s.neq = s.neq | {arg}
        return
    P.touch(s)
    s.preds[(kind, arg)] = val


_I = [None]


def s_eq_const(s, arg):
    return _I[0].cat_in(s, [arg]) is not None


def uncons(I, w):
    """(first letter, rest) of a word, None when it is empty.  An open word is
    replaced by the concatenation of the two; what is known of it is handed on."""
    _I[0] = I
    w = deref(w)
    if isinstance(w, (str, FVal)):
        if not I.truth(w):
            return None
        w = deref(w)
        if isinstance(w, FVal):
            return I.pointwise(lambda s: s[0], w), I.pointwise(lambda s: s[1:], w)
        return w[0], w[1:]
    if isinstance(w, SCat):
        parts = list(w.parts)
        while parts:
            r = uncons(I, parts[0])
            if r is not None:
                return r[0], norm_cat([r[1]] + parts[1:])
            parts = parts[1:]
        return None
    if not isinstance(w, SStr):
        raise Incomplete('first letter of %s' % show(w))
    if not s_nonempty(w):
        return None
    w = deref(w)
    if not isinstance(w, SStr):
        return uncons(I, w)
    lo, hi = w.length()
    if hi == 1:
        if lo == 1:
            P.touch(w)
            w.minlen = w.maxlen = 1
        return w, ''
    k = known_char(I, w)
    h = k if k is not None else SStr(w.name + '[0]', 1, 1)
    rest = SStr(w.name + '[1:]', None if hi is None else hi - 1, lo - 1)
    return uncons_facts(I, w, h, rest)


def uncons_facts(I, w, h, rest):
    pos = []
    for (k, a), b in list(w.preds.items()):
        if k not in ('startswith', 'endswith', 'contains'):
            continue
        if b:
            pos.append((k, a))
        elif k == 'startswith':
            if len(a) == 1:
                set_pred(h, 'eq', a, False)
            elif I.eq(h, a[0]):
                set_pred(rest, 'startswith', a[1:], False)
        elif k == 'endswith':
            set_pred(rest, 'endswith', a, False)
            if len(a) == 1:
                # the word may consist of its first letter only
                if rest.minlen == 0 and s_in(rest, ['']):
                    set_pred(h, 'eq', a, False)
            elif I.eq(h, a[0]):
                set_pred(rest, 'eq', a[1:], False)
        else:
            set_pred(rest, 'contains', a, False)
            if len(a) == 1:
                set_pred(h, 'eq', a, False)
            elif I.eq(h, a[0]):
                set_pred(rest, 'startswith', a[1:], False)
    heads = {}
    for c in w.neq:
        if isinstance(c, str) and c and not (isinstance(h, str) and c[0] != h):
            heads.setdefault(c[0], []).append(c)
    if len(heads) <= 4:
        for c0, cs in heads.items():
            if I.eq(h, c0):
                for c in cs:
                    set_pred(rest, 'eq', c[1:], False)
                break
    for k, a in pos:
        if k == 'startswith':
            set_pred(h, 'eq', a[0], True)
            set_pred(rest, 'startswith', a[1:], True)
        elif k == 'endswith':
            if len(a) == 1:
                if word_len_is_zero(I, rest):
                    set_pred(h, 'eq', a, True)
                else:
                    set_pred(rest, 'endswith', a, True)
            elif I.eq(h, a[0]) and I.eq(rest, a[1:]):
                pass
            else:
                set_pred(rest, 'endswith', a, True)
        elif k == 'contains':
            if I.eq(h, a[0]) and (len(a) == 1 or word_pred(I, rest, 'startswith', a[1:])):
                pass
            else:
                set_pred(rest, 'contains', a, True)
    w.bind(norm_cat([h, rest]))
    return h, rest


def word_len_is_zero(I, w):
    w = deref(w)
    if isinstance(w, SStr):
        return not s_nonempty(w)
    return not I.truth(w)


def head(I, s):
    """first character of a non-empty open word"""
    return uncons(I, s)[0]


def derived(I, s, key, **kw):
    if key in s.derived:
        return s.derived[key]
    d = SStr('%s.%s' % (s.name, '_'.join(map(str, key))), **kw)
    P.touch(s)
    s.derived[key] = d
    return d


def word_len(I, w):
    w = deref(w)
    if isinstance(w, (str, FVal)):
        return I.pointwise(len, w)
    if isinstance(w, SStr):
        key = ('len',)
        if key not in w.derived:
            lo, hi = w.length()
            P.touch(w)
            w.derived[key] = SInt(lo, hi, 'len(%s)' % w.name)
        r = w.derived[key]
        return r.lo if r.const() else r
    if isinstance(w, SCat):
        base, off = None, 0
        for p in w.parts:
            n = word_len(I, p)
            if isinstance(n, FVal):
                n = concretise(n)
            if isinstance(n, LinInt):
                off += n.off
                n = n.base
            if isinstance(n, int):
                off += n
            elif base is None:
                base = n
            else:
                return SInt(off, None, 'len')
        if base is None:
            return off
        return LinInt(base, off) if off else base
    raise Incomplete('len of %s' % show(w))


def same_len(x, y):
    """x - y when both are the same unknown length plus a constant, else None"""
    bx, ox = (x.base, x.off) if isinstance(x, LinInt) else (x, 0)
    by, oy = (y.base, y.off) if isinstance(y, LinInt) else (y, 0)
    if isinstance(bx, int) and isinstance(by, int):
        return bx + ox - by - oy
    if bx is by:
        return ox - oy
    return None


def cut_at(I, w, n):
    """w[:n], w[n:] for a (possibly unknown) length n that falls into a known
    part of w; None otherwise"""
    w = deref(w)
    if not isinstance(w, SCat):
        return None
    parts = [deref(p) for p in w.parts]
    for i in range(len(parts) + 1):
        pre = norm_cat(parts[:i])
        d = same_len(n, word_len(I, pre))
        if d is None:
            continue
        if d == 0:
            return pre, norm_cat(parts[i:])
        if i < len(parts) and isinstance(parts[i], str) and 0 < d <= len(parts[i]):
            return norm_cat([pre, parts[i][:d]]), norm_cat([parts[i][d:]] + parts[i + 1:])
    return None


def split_at(I, w, sep, last=False):
    """(before, after) of the first (last) occurrence of a letter; None"""
    _I[0] = I
    w = deref(w)
    if isinstance(w, (str, FVal)):
        if not word_pred(I, w, 'contains', sep):
            return None
        f = (lambda s: s.rpartition(sep)) if last else (lambda s: s.partition(sep))
        return I.pointwise(lambda s: f(s)[0], w), I.pointwise(lambda s: f(s)[2], w)
    if isinstance(w, SCat):
        parts = [deref(p) for p in w.parts]
        order = range(len(parts) - 1, -1, -1) if last else range(len(parts))
        for i in order:
            r = split_at(I, parts[i], sep, last)
            if r is not None:
                return norm_cat(parts[:i] + [r[0]]), norm_cat([r[1]] + parts[i + 1:])
        return None
    if not word_pred(I, w, 'contains', sep):
        return None
    w = deref(w)
    if not isinstance(w, SStr):
        return split_at(I, w, sep, last)
    lo, hi = w.length()
    if hi == 1:
        set_pred(w, 'eq', sep, True)
        return '', ''
    pre = SStr('%s.before(%s)' % (w.name, sep), None if hi is None else hi - 1)
    post = SStr('%s.after(%s)' % (w.name, sep), None if hi is None else hi - 1)
    set_pred(post if last else pre, 'contains', sep, False)
    checks = []
    for (k, a), b in list(w.preds.items()):
        if k == 'contains' and not b:
            set_pred(pre, 'contains', a, False)
            set_pred(post, 'contains', a, False)
            if len(a) > 1 and sep in a:
                checks.append((k, a, b))
        elif k == 'startswith' and sep not in a:
            if b:
                set_pred(pre, 'startswith', a, True)
            else:
                set_pred(pre, 'startswith', a, False)
        elif k == 'endswith' and sep not in a:
            set_pred(post, 'endswith', a, b)
        elif k in ('startswith', 'endswith') or (k == 'contains' and b and a != sep):
            checks.append((k, a, b))
    whole = norm_cat([pre, sep, post])
    for k, a, b in checks:
        if word_pred(I, whole, k, a) != b:
            raise Infeasible()
    bad = [c for c in w.neq if isinstance(c, str) and sep in c]
    for c in bad[:4]:
        x, _, y = c.rpartition(sep) if last else c.partition(sep)
        if I.eq(pre, x):
            set_pred(post, 'eq', y, False)
    w.bind(norm_cat([pre, sep, post]))
    return pre, post


def open_chars(I, w):
    """characters of an open word (length-limited)"""
    out = []
    while True:
        r = uncons(I, w)
        if r is None:
            return out
        out.append(r[0])
        w = deref(r[1])
        if isinstance(w, FVal):
            # one length per partition
            return out + list(I.pointwise(list, w).items)
        if len(out) >= CHAR_LIMIT and not (isinstance(w, str)):
            if isinstance(w, SStr) and w.length()[0] == 0:
                I.limited = True
                if not s_nonempty(w):
                    return out
                raise Infeasible()
            if len(out) >= CHAR_LIMIT + 6:
                I.limited = True
                raise Infeasible()


def word_pred(I, w, kind, arg):
    """startswith / endswith / contains for any word"""
    w, arg = deref(w), deref(arg)
    if isinstance(arg, tuple):
        return any(word_pred(I, w, kind, a) for a in arg)
    if not isinstance(arg, WORDS):
        I.throw('TypeError', '%s arg must be str' % kind)
    fn = {'startswith': lambda s, a: s.startswith(a), 'endswith': lambda s, a: s.endswith(a),
          'contains': lambda s, a: a in s}[kind]
    if isinstance(w, (str, FVal)) and isinstance(arg, (str, FVal)):
        return I.pointwise(fn, w, arg)
    if isinstance(arg, FVal):
        arg = concretise(arg)
    if isinstance(arg, (SStr, SCat)):
        if arg is w:
            return True
        memo = I.path_memo()
        key = (kind, repr(w) if not isinstance(w, SStr) else id(w), repr(arg) if not isinstance(arg, SStr) else id(arg))
        if key not in memo:
            memo[key] = bool(choose(2, kind))
        return memo[key]
    if isinstance(w, SStr):
        return s_pred(w, kind, arg)
    if isinstance(w, SCat):
        parts = list(w.parts)
        if kind == 'startswith':
            return cat_prefix(I, parts, arg)
        if kind == 'endswith':
            return cat_suffix(I, parts, arg)
        if any(isinstance(p, str) and arg in p for p in parts):
            return True
        if len(arg) == 1:
            return any(word_pred(I, p, 'contains', arg) for p in parts)
        if any(word_pred(I, p, 'contains', arg) for p in parts):
            return True
        # across the parts
        for i in range(len(parts) - 1):
            for j in range(1, len(arg)):
                if word_pred(I, parts[i], 'endswith', arg[:j]) and cat_prefix(I, parts[i + 1:], arg[j:]):
                    return True
        return False
    raise Incomplete('%s on %s' % (kind, show(w)))


def cat_prefix(I, parts, arg):
    while parts:
        p = deref(parts[0])
        if isinstance(p, str):
            n = min(len(p), len(arg))
            if p[:n] != arg[:n]:
                return False
            if len(arg) <= len(p):
                return True
            arg = arg[len(p):]
            parts = parts[1:]
            continue
        if isinstance(p, FVal):
            return cat_prefix(I, [concretise(p)] + parts[1:], arg)
        if word_pred(I, p, 'startswith', arg):
            return True
        for n in range(len(arg)):
            # the open part may be exactly a proper prefix of arg
            if p.admits(arg[:n]) and I.eq(p, arg[:n]):
                return cat_prefix(I, parts[1:], arg[n:])
        return False
    return arg == ''


def cat_suffix(I, parts, arg):
    while parts:
        p = deref(parts[-1])
        if isinstance(p, str):
            n = min(len(p), len(arg))
            if n and p[-n:] != arg[-n:]:
                return False
            if len(arg) <= len(p):
                return True
            arg = arg[:len(arg) - len(p)]
            parts = parts[:-1]
            continue
        if isinstance(p, FVal):
            return cat_suffix(I, parts[:-1] + [concretise(p)], arg)
        if word_pred(I, p, 'endswith', arg):
            return True
        for n in range(len(arg)):
            if n == 0 and p.admits('') and I.eq(p, ''):
                return cat_suffix(I, parts[:-1], arg)
            if n and p.admits(arg[-n:]) and I.eq(p, arg[-n:]):
                return cat_suffix(I, parts[:-1], arg[:-n])
        return False
    return arg == ''


def unknown_word(I, name, *deps):
    memo = I.path_memo()
    key = ('word', name) + tuple(id(d) if not isinstance(d, (str, int)) else d for d in deps)
    if key not in memo:
        memo[key] = (SStr(name), deps)
    return memo[key][0]


def str_method(I, w, name):
    """method of any word"""
    if not hasattr(str, name):
        I.throw('AttributeError', "'str' object has no attribute '%s'" % name)
    if name == '__class__':
        return I.types['str']
    if name in ('__len__',):
        return BuiltinF(name, lambda I, a, k: word_len(I, w))
    if name == '__contains__':
        return BuiltinF(name, lambda I, a, k: word_pred(I, w, 'contains', a[0]))
    if name == '__eq__':
        return BuiltinF(name, lambda I, a, k: I.eq(w, a[0]))

    def call(I, args, kw):
        args = [deref(a) for a in args]
        if name == 'join':
            items = [deref(x) for x in I.iterate(args[0])]
            parts = []
            for i, x in enumerate(items):
                if isinstance(x, Obj) and x.cls.mixin == 'str':
                    x = x.get('_value_')
                if isinstance(x, I.S.CmdStr):
                    x = x.text
                if not isinstance(x, WORDS):
                    if isinstance(x, Opaque):
                        return Opaque('join')
                    I.throw('TypeError', 'sequence item: expected str instance')
                if i:
                    parts.append(w)
                parts.append(x)
            return I.concat(parts)
        if name == 'format':
            return str_format(I, w, args, kw)
        if name == 'format_map':
            raise Incomplete('format_map')
        if name in ('startswith', 'endswith') and len(args) == 1 and not kw:
            return word_pred(I, w, name, args[0])
        if isinstance(w, (str, FVal)) and all(isinstance(a, (FVal, type(None)) + HOST) or
                                              (isinstance(a, tuple) and all(isinstance(x, str) for x in a)) for a in args):
            hk = {k: concretise(v) for k, v in kw.items()}
            return I.pointwise(lambda s, *a: getattr(s, name)(*a, **hk), w, *args)
        if isinstance(w, str) and name == 'translate':
            return getattr(w, name)(to_host(I, args[0]))
        if isinstance(w, FVal):
            return I.call(str_method(I, concretise(w), name), args, kw)
        args = [concretise(a) for a in args]
        if name in ('isdigit', 'isalpha', 'isalnum', 'isupper', 'islower', 'isspace', 'isnumeric', 'isdecimal',
                    'isidentifier', 'istitle', 'isprintable', 'isascii'):
            if isinstance(w, SStr):
                return s_pred(w, name, None)
            return bool(choose(2, name))
        if name in ('find', 'index', 'rfind', 'rindex') and len(args) == 1:
            has = word_pred(I, w, 'contains', args[0])
            if not has:
                if name.endswith('find'):
                    return -1
                I.throw('ValueError', 'substring not found')
            if isinstance(args[0], str) and len(args[0]) == 1:
                return word_len(I, split_at(I, w, args[0], name.startswith('r'))[0])
            if name in ('find', 'index'):
                if word_pred(I, w, 'startswith', args[0]):
                    return 0
                return SInt(1, None, name)
            return SInt(0, None, name)
        if name == 'count' and len(args) == 1:
            if not word_pred(I, w, 'contains', args[0]):
                return 0
            return SInt(1, None, 'count')
        if name in ('encode',):
            return Opaque('bytes')
        if name in ('removeprefix', 'removesuffix'):
            kind = 'startswith' if name == 'removeprefix' else 'endswith'
            if not word_pred(I, w, kind, args[0]):
                return w
            if isinstance(w, SCat):
                parts = list(w.parts)
                i = 0 if kind == 'startswith' else -1
                if isinstance(parts[i], str) and len(parts[i]) >= len(args[0]):
                    parts[i] = parts[i][len(args[0]):] if i == 0 else parts[i][:-len(args[0])]
                    return norm_cat(parts)
            return unknown_word(I, name, w, args[0])
        if name in ('lstrip', 'rstrip', 'strip', 'lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase',
                    'replace', 'ljust', 'rjust', 'zfill', 'expandtabs', 'center', 'translate'):
            if name == 'replace' and isinstance(args[0], str) and not word_pred(I, w, 'contains', args[0]):
                return w
            if isinstance(w, SStr):
                hargs = tuple(args)
                if all(isinstance(a, HOST) for a in hargs):
                    return derived(I, w, ('meth', name, hargs))
            return unknown_word(I, name, w, *args)
        if name in ('partition', 'rpartition') and isinstance(args[0], str):
            if not word_pred(I, w, 'contains', args[0]):
                return (w, '', '') if name == 'partition' else ('', '', w)
            if len(args[0]) == 1:
                x, y = split_at(I, w, args[0], name == 'rpartition')
                return (x, args[0], y)
            return (unknown_word(I, 'before', w, args[0], name), args[0], unknown_word(I, 'after', w, args[0], name))
        if name in ('split', 'rsplit'):
            sep = args[0] if args else kw.get('sep')
            if isinstance(sep, str):
                if not word_pred(I, w, 'contains', sep):
                    return PList([w])
                n = args[1] if len(args) > 1 else kw.get('maxsplit', -1)
                if len(sep) == 1:
                    right = name == 'rsplit'
                    pieces, cur = [], w
                    while isinstance(n, int) and (n < 0 or len(pieces) < n):
                        r = split_at(I, cur, sep, right)
                        if r is None:
                            break
                        pieces.append(r[1] if right else r[0])
                        cur = r[0] if right else r[1]
                        if len(pieces) > 2:
                            I.limited = True
                            raise Infeasible()
                    pieces.append(cur)
                    return PList(pieces[::-1] if right else pieces)
                pieces = [unknown_word(I, 'piece0', w, sep, name), unknown_word(I, 'piece1', w, sep, name)]
                if n != 1 and choose(2, 'number of pieces'):
                    pieces.append(unknown_word(I, 'piece2', w, sep, name))
                return PList(pieces)
            n = choose(3, 'number of words')
            return PList([unknown_word(I, 'word%d' % i, w, name) for i in range(n)])
        if name == 'splitlines':
            return PList([w])
        raise Incomplete('str.%s on an open word' % name)
    return BuiltinF('str.' + name, call)


def str_format(I, w, args, kw):
    import string
    w = concretise(w)
    if not isinstance(w, str):
        raise Incomplete('format of an open template')
    parts = []
    auto = 0
    for lit, fieldname, spec, conv in string.Formatter().parse(w):
        if lit:
            parts.append(lit)
        if fieldname is None:
            continue
        first, rest = _split_field(fieldname)
        if first == '':
            first = str(auto)
            auto += 1
        if first.isdigit():
            if int(first) >= len(args):
                I.throw('IndexError', 'Replacement index out of range')
            v = args[int(first)]
        else:
            if first not in kw:
                I.throw('KeyError', first)
            v = kw[first]
        for kind, key in rest:
            v = I.getattr(v, key) if kind == 'a' else I.getitem(v, int(key) if key.isdigit() else key)
        if conv == 'r':
            v = repr_(I, v)
        elif conv == 's':
            v = str_(I, v)
        parts.append(format_(I, v, spec or ''))
    return I.concat(parts)


def _split_field(f):
    import _string
    first, rest = _string.formatter_field_name_split(f)
    return str(first), [('a' if is_attr else 'i', str(key)) for is_attr, key in rest]


def percent(I, a, b):
    a = concretise(a)
    if not isinstance(a, str):
        raise Incomplete('% on an open template')
    import re
    args = list(b) if isinstance(b, tuple) else [b]
    parts, pos, i = [], 0, 0
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*\d*(?:\.\d+)?)([sdrifxo%])', a):
        parts.append(a[pos:m.start()])
        pos = m.end()
        if m.group(3) == '%':
            parts.append('%')
            continue
        if m.group(1):
            v = I.getitem(b, m.group(1))
        else:
            if i >= len(args):
                I.throw('TypeError', 'not enough arguments for format string')
            v = args[i]
            i += 1
        v = deref(v)
        if isinstance(v, HOST) and m.group(2):
            parts.append(('%' + m.group(2) + m.group(3)) % v)
        else:
            parts.append(repr_(I, v) if m.group(3) == 'r' else str_(I, v))
    parts.append(a[pos:])
    if i < len(args) and not isinstance(b, PDict):
        I.throw('TypeError', 'not all arguments converted during string formatting')
    return I.concat(parts)


def str_(I, v):
    v = deref(v)
    if isinstance(v, I.S.CmdStr):
        return v
    if isinstance(v, WORDS):
        if isinstance(v, FVal) and type(v.fn[v.var.dom[0]]) is not str:
            return I.pointwise(str, v)
        return v
    if isinstance(v, Obj):
        if v.cls.is_enum:
            m = v.cls.lookup('__str__')[0]
            if isinstance(m, FuncV):
                return I.call(m, [v], {})
            if any(b.name in ('enum.StrEnum',) for b in v.cls.mro):
                return v.get('_value_')
            if any(b.name in ('enum.IntEnum',) for b in v.cls.mro):
                return str(v.get('_value_'))
            return '%s.%s' % (v.cls.name, v.get('_name_'))
        m = v.cls.lookup('__str__')[0]
        if m is not None and not (isinstance(m, BuiltinF) and m.name == 'object.__str__'):
            return I.call(m, [v], {})
        return repr_(I, v)
    return repr_(I, v)


def repr_(I, v, depth=0):
    v = deref(v)
    if isinstance(v, (int, float, bytes, str, complex)) or v is None:
        return repr(v)
    if isinstance(v, FVal):
        return I.pointwise(repr, v)
    if isinstance(v, (SStr, SCat)):
        return I.concat(["'", v, "'"])
    if depth > 30:
        return '...'
    if isinstance(v, Obj):
        m, c = v.cls.lookup('__repr__')
        if isinstance(m, FuncV):
            return I.call(m, [v], {})
        if v.cls.is_enum:
            return I.concat(['<%s.%s: ' % (v.cls.name, v.get('_name_')), repr_(I, v.get('_value_')), '>'])
        if v.cls.dataclass or v.cls.namedtuple:
            fs = v.cls.namedtuple[0] if v.cls.namedtuple else [f[0] for f in v.cls.dataclass['fields']]
            parts = [v.cls.name + '(']
            for i, f in enumerate(fs):
                parts += [', ' if i else '', f + '=', repr_(I, v.get(f), depth + 1)]
            return I.concat(parts + [')'])
        if isinstance(m, BuiltinF) and m.name == 'exc.__repr__':
            return I.call(m, [v], {})
        return '<%s object>' % v.cls.qualname
    if isinstance(v, PList):
        parts = ['[']
        for i, x in enumerate(v.items):
            parts += [', ' if i else '', repr_(I, x, depth + 1)]
        return I.concat(parts + [']'])
    if isinstance(v, tuple):
        parts = ['(']
        for i, x in enumerate(v):
            parts += [', ' if i else '', repr_(I, x, depth + 1)]
        return I.concat(parts + [',)' if len(v) == 1 else ')'])
    if isinstance(v, PDict):
        parts = ['{']
        for i, (k, x) in enumerate(v.d.values()):
            parts += [', ' if i else '', repr_(I, k, depth + 1), ': ', repr_(I, x, depth + 1)]
        return I.concat(parts + ['}'])
    if isinstance(v, PSet):
        if not v.d:
            return 'frozenset()' if v.frozen else 'set()'
        parts = ['frozenset({' if v.frozen else '{']
        for i, k in enumerate(v.d.values()):
            parts += [', ' if i else '', repr_(I, k, depth + 1)]
        return I.concat(parts + ['})' if v.frozen else '}'])
    if isinstance(v, DictView):
        return I.concat(['dict_%s(' % v.what, repr_(I, PList(list(iterate(I, v))), depth + 1), ')'])
    if isinstance(v, slice):
        return I.concat(['slice(', repr_(I, v.start), ', ', repr_(I, v.stop), ', ', repr_(I, v.step), ')'])
    if isinstance(v, ClassV):
        return "<class '%s.%s'>" % (v.ns.vars.get('__module__', 'builtins'), v.qualname)
    if isinstance(v, (SInt, LinInt)):
        if isinstance(v, SInt) and v.const():
            return str(v.lo)
        return unknown_word(I, 'int', v)
    if isinstance(v, SVar):
        return unknown_word(I, 'var_' + v.name, v)
    if isinstance(v, Opaque):
        return unknown_word(I, 'opaque_' + v.name, v)
    if isinstance(v, (FuncV, BoundM, BuiltinF, ModuleV, IterV, CacheF, PartialV, range)):
        return repr(v)
    raise Incomplete('repr of %s' % type(v).__name__)


def format_(I, v, spec):
    v = deref(v)
    spec = concretise(spec)
    if spec == '' or spec is None:
        return str_(I, v)
    if isinstance(v, HOST):
        try:
            return format(v, spec)
        except Exception as e:
            I.host_exc(e)
    if isinstance(v, FVal):
        return I.pointwise(lambda x: format(x, spec), v)
    if isinstance(v, Obj):
        m = v.cls.lookup('__format__')[0]
        if isinstance(m, FuncV):
            return I.call(m, [v, spec], {})
    return unknown_word(I, 'formatted', v, spec)


# ------------------------------------------------------------------- methods
def to_host(I, v):
    """abstract constant -> host value (Incomplete when not constant)"""
    v = concretise(v)
    if v is None or isinstance(v, HOST):
        return v
    if isinstance(v, tuple):
        return tuple(to_host(I, x) for x in v)
    if isinstance(v, PList):
        return [to_host(I, x) for x in v.items]
    if isinstance(v, PDict):
        return {to_host(I, k): to_host(I, x) for k, x in v.d.values()}
    if isinstance(v, PSet):
        return {to_host(I, k) for k in v.d.values()}
    raise Incomplete('constant expected, got %s' % show(v))


def kwargs_only(I, kw, allowed, fn):
    for k in kw:
        if k not in allowed:
            I.throw('TypeError', '%s() got an unexpected keyword argument %s' % (fn, k))


def argn(I, args, lo, hi, name):
    if not (lo <= len(args) <= hi):
        I.throw('TypeError', '%s expected %d..%d arguments, got %d' % (name, lo, hi, len(args)))


def as_index(I, k, n, what='list'):
    k = deref(k)
    if isinstance(k, Obj) and k.cls.mixin == 'int':
        k = k.get('_value_')
    if isinstance(k, FVal):
        k = concretise(k)
    if isinstance(k, (SInt, LinInt)):
        for i in range(n):
            if int_eq(I, k, i):
                return i
        I.throw('IndexError', '%s index out of range' % what)
    if isinstance(k, SVar):
        return 0 if False else I.throw('IndexError', 'index out of range')
    if not isinstance(k, int):
        I.throw('TypeError', '%s indices must be integers' % what)
    if k < -n or k >= n:
        I.throw('IndexError', '%s index out of range' % what)
    return k


def host_slice(I, k, n=None):
    def conv(x):
        x = deref(x)
        if isinstance(x, FVal):
            x = concretise(x)
        if isinstance(x, (SInt, LinInt)):
            if isinstance(x, SInt) and x.const():
                return x.lo
            if n is not None:
                for i in range(n):
                    if int_eq(I, x, i):
                        return i
                if int_order(I, ast.GtE, x, n):
                    return n
                raise Incomplete('negative symbolic slice bound')
            raise Incomplete('symbolic slice')
        if x is not None and not isinstance(x, int):
            I.throw('TypeError', 'slice indices must be integers')
        return x
    return slice(conv(k.start), conv(k.stop), conv(k.step))


def list_method(I, l, name):
    def m(fn):
        return BuiltinF('list.' + name, fn)
    if name == 'append':
        def f(I, a, k):
            argn(I, a, 1, 1, 'append')
            l.touch()
            l.items.append(a[0])
        return m(f)
    if name == 'extend':
        def f(I, a, k):
            argn(I, a, 1, 1, 'extend')
            items = list(I.iterate(a[0]))
            l.touch()
            l.items.extend(items)
        return m(f)
    if name == 'insert':
        def f(I, a, k):
            argn(I, a, 2, 2, 'insert')
            i = concretise(a[0])
            l.touch()
            l.items.insert(i, a[1])
        return m(f)
    if name in ('pop', 'popleft'):
        def f(I, a, k):
            if not l.items:
                I.throw('IndexError', 'pop from empty list')
            i = -1 if name == 'pop' else 0
            if a:
                i = as_index(I, a[0], len(l.items), 'pop')
            l.touch()
            return l.items.pop(i)
        return m(f)
    if name == 'appendleft' and isinstance(l, PDeque):
        def f(I, a, k):
            l.touch()
            l.items.insert(0, a[0])
        return m(f)
    if name == 'remove':
        def f(I, a, k):
            for i, x in enumerate(list(l.items)):
                if I.same_or_eq(x, a[0]):
                    l.touch()
                    del l.items[i]
                    return None
            I.throw('ValueError', 'list.remove(x): x not in list')
        return m(f)
    if name == 'index':
        def f(I, a, k):
            start = concretise(a[1]) if len(a) > 1 else 0
            for i, x in enumerate(list(l.items)):
                if i >= start and I.same_or_eq(x, a[0]):
                    return i
            I.throw('ValueError', 'not in list')
        return m(f)
    if name == 'count':
        return m(lambda I, a, k: sum(1 for x in list(l.items) if I.same_or_eq(x, a[0])))
    if name == 'clear':
        def f(I, a, k):
            l.touch()
            l.items.clear()
        return m(f)
    if name == 'copy' or name == '__copy__':
        return m(lambda I, a, k: type(l)(l.items))
    if name == 'reverse':
        def f(I, a, k):
            l.touch()
            l.items.reverse()
        return m(f)
    if name == 'sort':
        def f(I, a, k):
            r = b_sorted(I, [l], k)
            l.touch()
            l.items[:] = r.items
        return m(f)
    if name == '__len__':
        return m(lambda I, a, k: len(l.items))
    if name == '__contains__':
        return m(lambda I, a, k: I.contains(l, a[0]))
    if name == '__iter__':
        return m(lambda I, a, k: IterV(iterate(I, l)))
    if name == '__getitem__':
        return m(lambda I, a, k: getitem(I, l, a[0]))
    if name == '__setitem__':
        return m(lambda I, a, k: setitem(I, l, a[0], a[1]))
    if name == '__eq__':
        return m(lambda I, a, k: I.eq(l, a[0]))
    if name == '__add__':
        return m(lambda I, a, k: I.binop(ast.Add(), l, a[0]))
    if name == '__class__':
        return type_of(I, l)
    if name == 'rotate' and isinstance(l, PDeque):
        def f(I, a, k):
            n = concretise(a[0]) if a else 1
            l.touch()
            if l.items:
                n %= len(l.items)
                l.items[:] = l.items[-n:] + l.items[:-n]
        return m(f)
    if name == 'extendleft' and isinstance(l, PDeque):
        def f(I, a, k):
            for x in list(I.iterate(a[0])):
                l.touch()
                l.items.insert(0, x)
        return m(f)
    I.throw('AttributeError', "'list' object has no attribute '%s'" % name)


def dict_items(I, d):
    d = deref(d)
    if isinstance(d, PDict):
        return list(d.d.values())
    if isinstance(d, Obj) and d.cls.lookup('keys')[0]:
        ks = list(I.iterate(I.call(I.getattr(d, 'keys'), [], {})))
        return [(k, I.getitem(d, k)) for k in ks]
    if isinstance(d, Opaque):
        raise Incomplete('mapping %r' % d)
    I.throw('TypeError', 'argument must be a mapping')


def dict_update(I, d, other):
    other = deref(other)
    if isinstance(other, PDict):
        for k, v in list(other.d.values()):
            I.dict_set(d, k, v)
    else:
        for pair in list(I.iterate(other)):
            k, v = list(I.iterate(pair))
            I.dict_set(d, k, v)


def dict_copy(I, d):
    n = PDict()
    n.d = dict(d.d)
    n.default = d.default
    if hasattr(d, 'kind'):
        n.kind = d.kind
    return n


def dict_fromkeys(I, a):
    d = PDict()
    for k in I.iterate(a[0]):
        I.dict_set(d, k, a[1] if len(a) > 1 else None)
    return d


class DictView:
    """live view of a dictionary"""

    def __init__(self, d, what):
        self.d, self.what = d, what

    def __repr__(self):
        return 'dict_%s(%r)' % (self.what, self.d)


def dict_method(I, d, name):
    def m(fn):
        return BuiltinF('dict.' + name, fn)
    if name == 'get':
        def f(I, a, k):
            argn(I, a, 1, 2, 'get')
            found, v = I.dict_get(d, a[0])
            return v if found else (a[1] if len(a) > 1 else None)
        return m(f)
    if name in ('keys', 'values', 'items'):
        return m(lambda I, a, k: DictView(d, name))
    if name == 'pop':
        def f(I, a, k):
            argn(I, a, 1, 2, 'pop')
            found, v = I.dict_del(d, a[0])
            if found:
                return v
            if len(a) > 1:
                return a[1]
            I.throw('KeyError', a[0])
        return m(f)
    if name == 'popitem':
        def f(I, a, k):
            if not d.d:
                I.throw('KeyError', 'popitem(): dictionary is empty')
            d.touch()
            t = list(d.d)[-1]
            return d.d.pop(t)
        return m(f)
    if name == 'setdefault':
        def f(I, a, k):
            found, v = I.dict_get(d, a[0])
            if found:
                return v
            v = a[1] if len(a) > 1 else None
            I.dict_set(d, a[0], v)
            return v
        return m(f)
    if name == 'update':
        def f(I, a, k):
            if a:
                if getattr(d, 'kind', None) == 'Counter':
                    counter_add(I, d, a[0])
                else:
                    dict_update(I, d, a[0])
            for kk, v in k.items():
                I.dict_set(d, kk, v)
        return m(f)
    if name in ('copy', '__copy__'):
        return m(lambda I, a, k: dict_copy(I, d))
    if name == 'clear':
        def f(I, a, k):
            d.touch()
            d.d.clear()
        return m(f)
    if name == '__contains__':
        return m(lambda I, a, k: I.contains(d, a[0]))
    if name == '__getitem__':
        return m(lambda I, a, k: getitem(I, d, a[0]))
    if name == '__setitem__':
        return m(lambda I, a, k: setitem(I, d, a[0], a[1]))
    if name == '__len__':
        return m(lambda I, a, k: len(d.d))
    if name == '__iter__':
        return m(lambda I, a, k: IterV(iterate(I, d)))
    if name == '__class__':
        return type_of(I, d)
    if name == 'most_common' and getattr(d, 'kind', None) == 'Counter':
        def f(I, a, k):
            r = b_sorted(I, [DictView(d, 'items')], {'key': BuiltinF('neg', lambda I, a, k: -a[0][1])})
            n = concretise(a[0] if a else k.get('n'))
            return r if n is None else PList(r.items[:n])
        return m(f)
    if name == 'move_to_end':
        def f(I, a, k):
            found, v = I.dict_del(d, a[0])
            if not found:
                I.throw('KeyError', a[0])
            I.dict_set(d, a[0], v)
        return m(f)
    if name == '__eq__':
        return m(lambda I, a, k: I.eq(d, a[0]))
    I.throw('AttributeError', "'dict' object has no attribute '%s'" % name)


def set_copy(s, frozen=None):
    n = PSet(s.frozen if frozen is None else frozen)
    n.d = dict(s.d)
    return n


def to_set(I, v):
    v = deref(v)
    if isinstance(v, PSet):
        return v
    s = PSet()
    for x in I.iterate(v):
        I.set_add(s, x)
    return s


def as_set(I, v):
    if isinstance(v, DictView):
        r = PSet(False)
        for x in iterate(I, v):
            I.set_add(r, x)
        return r
    return v


def set_op(I, t, a, b):
    r = PSet(a.frozen)
    if t is ast.BitOr:
        r.d = dict(a.d)
        for v in list(b.d.values()):
            I.set_add(r, v)
    elif t is ast.BitAnd:
        for k, v in list(a.d.items()):
            if I.set_has(b, v):
                r.d[k] = v
    elif t is ast.Sub:
        for k, v in list(a.d.items()):
            if not I.set_has(b, v):
                r.d[k] = v
    elif t is ast.BitXor:
        for k, v in list(a.d.items()):
            if not I.set_has(b, v):
                r.d[k] = v
        for k, v in list(b.d.items()):
            if not I.set_has(a, v):
                I.set_add(r, v)
    else:
        I.throw('TypeError', 'unsupported set operation')
    return r


def set_method(I, s, name):
    def m(fn):
        return BuiltinF('set.' + name, fn)
    if name in ('add', 'discard', 'remove', 'pop', 'update', 'clear', 'difference_update', 'intersection_update') and s.frozen:
        I.throw('AttributeError', "'frozenset' object has no attribute '%s'" % name)
    if name == 'add':
        return m(lambda I, a, k: I.set_add(s, a[0]))
    if name in ('discard', 'remove'):
        def f(I, a, k):
            t = I.find_key(s, a[0])
            if t is _NO:
                if name == 'remove':
                    I.throw('KeyError', a[0])
                return None
            if isinstance(t, tuple) and t and t[0] == 'fval':
                t = concretise(t[1])
            s.touch()
            del s.d[t]
        return m(f)
    if name == 'pop':
        def f(I, a, k):
            if not s.d:
                I.throw('KeyError', 'pop from an empty set')
            ks = list(s.d)
            t = ks[choose(len(ks), 'set order')]
            s.touch()
            return s.d.pop(t)
        return m(f)
    if name in ('update', 'union'):
        def f(I, a, k):
            r = s if name == 'update' else set_copy(s)
            for o in a:
                for x in list(I.iterate(o)):
                    I.set_add(r, x)
            return None if name == 'update' else r
        return m(f)
    ops = {'intersection': ast.BitAnd, 'difference': ast.Sub, 'symmetric_difference': ast.BitXor}
    if name in ops:
        def f(I, a, k):
            r = s
            for o in a:
                r = set_op(I, ops[name], r, to_set(I, o))
            return r if r is not s else set_copy(s)
        return m(f)
    if name in ('difference_update', 'intersection_update'):
        def f(I, a, k):
            r = s
            for o in a:
                r = set_op(I, ast.Sub if name[0] == 'd' else ast.BitAnd, r, to_set(I, o))
            s.touch()
            s.d = dict(r.d)
        return m(f)
    if name == 'isdisjoint':
        def f(I, a, k):
            o = to_set(I, a[0])
            return not any(I.set_has(s, v) for v in list(o.d.values()))
        return m(f)
    if name == 'issubset':
        return m(lambda I, a, k: all(I.set_has(to_set(I, a[0]), v) for v in list(s.d.values())))
    if name == 'issuperset':
        return m(lambda I, a, k: all(I.set_has(s, v) for v in list(to_set(I, a[0]).d.values())))
    if name in ('copy', '__copy__'):
        return m(lambda I, a, k: set_copy(s))
    if name == 'clear':
        def f(I, a, k):
            s.touch()
            s.d.clear()
        return m(f)
    if name == '__contains__':
        return m(lambda I, a, k: I.set_has(s, a[0]))
    if name == '__len__':
        return m(lambda I, a, k: len(s.d))
    if name == '__class__':
        return type_of(I, s)
    I.throw('AttributeError', "'set' object has no attribute '%s'" % name)


def value_attr(I, o, name):
    if isinstance(o, FVal) and type(o.fn[o.var.dom[0]]) is not str:
        o = concretise(o)
    if isinstance(o, WORDS):
        return str_method(I, o, name)
    if isinstance(o, PList):
        return list_method(I, o, name)
    if isinstance(o, PDict):
        if name == 'default_factory':
            return o.default
        return dict_method(I, o, name)
    if isinstance(o, PSet):
        return set_method(I, o, name)
    if isinstance(o, DictView):
        if name in ('isdisjoint', '__contains__', '__len__', '__iter__'):
            if name == '__contains__':
                return BuiltinF(name, lambda I, a, k: I.contains(o, a[0]))
            return set_method(I, to_set(I, o), name)
    if isinstance(o, tuple):
        l = PList(o)
        if name in ('index', 'count', '__len__', '__contains__', '__iter__', '__getitem__'):
            return list_method(I, l, name)
        if name == '__class__':
            return I.types['tuple']
        I.throw('AttributeError', "'tuple' object has no attribute '%s'" % name)
    if isinstance(o, (FuncV, CacheF)):
        f = o.f if isinstance(o, CacheF) else o
        if isinstance(o, CacheF):
            if name == 'cache_clear':
                def cc(I, a, k):
                    P.touch(o.store)
                    o.store.d.clear()
                return BuiltinF('cache_clear', cc)
            if name == '__wrapped__':
                return o.f
            if name == 'cache_info':
                return BuiltinF('cache_info', lambda I, a, k: Opaque('cache_info'))
        if isinstance(f, FuncV):
            if name in f.attrs.d:
                return f.attrs.d[name][1]
            if name == '__name__':
                return f.name
            if name == '__qualname__':
                return f.qualname
            if name == '__doc__':
                return None
            if name == '__module__':
                return f.module.vars.get('__name__')
            if name == '__dict__':
                return f.attrs
            if name == '__defaults__':
                return tuple(f.defaults) or None
            if name == '__get__':
                return BuiltinF('__get__', lambda I, a, k: BoundM(o, a[0]))
            if name == '__call__':
                return o
            if name == '__annotations__':
                return PDict()
            if name == '__code__':
                return Opaque('code')
        I.throw('AttributeError', "'function' object has no attribute '%s'" % name)
    if isinstance(o, BoundM):
        if name == '__self__':
            return o.self_
        if name == '__func__':
            return o.func
        return I.getattr(o.func, name)
    if isinstance(o, BuiltinF):
        if name in ('__name__', '__qualname__'):
            return o.name.split('.')[-1]
        if o.name == 'chain' and name == 'from_iterable':
            def fi(I, a, k):
                def g():
                    for x in I.iterate(a[0]):
                        yield from I.iterate(x)
                return IterV(g())
            return BuiltinF('chain.from_iterable', fi)
        if o.name == 'join' or True:
            raise Incomplete('attribute %s of %r' % (name, o))
    if isinstance(o, IterV):
        if name == '__next__':
            return BuiltinF('__next__', lambda I, a, k: b_next(I, [o], {}))
        if name == '__iter__':
            return BuiltinF('__iter__', lambda I, a, k: o)
        if name == 'close':
            return BuiltinF('close', lambda I, a, k: None)
        I.throw('AttributeError', name)
    if isinstance(o, PropertyV):
        if name == 'setter':
            return BuiltinF('setter', lambda I, a, k: PropertyV(o.fget, a[0]))
        if name == 'getter':
            return BuiltinF('getter', lambda I, a, k: PropertyV(a[0], o.fset))
        if name == 'fget':
            return o.fget
        if name == 'deleter':
            return BuiltinF('deleter', lambda I, a, k: o)
    if isinstance(o, PartialV):
        if name == 'func':
            return o.f
        if name == 'args':
            return tuple(o.args)
    if isinstance(o, bytes):
        if hasattr(o, name):
            return BuiltinF('bytes.' + name, lambda I, a, k: I.pointwise(
                lambda *x: getattr(o, name)(*x, **{kk: to_host(I, v) for kk, v in k.items()}), *[concretise(y) for y in a]))
    if o is None or isinstance(o, (int, float, SInt, LinInt, SVar, slice, range)):
        if isinstance(o, int) and name in ('real', 'numerator'):
            return o
        if isinstance(o, int) and hasattr(o, name) and not name.startswith('__'):
            return BuiltinF('int.' + name, lambda I, a, k: I.from_host(getattr(o, name)(*[to_host(I, x) for x in a])))
        if name == '__class__':
            return type_of(I, o)
        I.throw('AttributeError', "'%s' object has no attribute '%s'" % (typename(I, o), name))
    if isinstance(o, FileV):
        return file_attr(I, o, name)
    if isinstance(o, (StaticM, ClassM)):
        return I.getattr(o.f, name)
    r = I.S.extra_attr(I, o, name)
    if r is not _NO:
        return r
    raise Incomplete('attribute %s of %s' % (name, show(o)))


# ---------------------------------------------------------------- containers
def iterate(I, v):
    """host iterator over an abstract iterable"""
    v = deref(v)
    if isinstance(v, PList):
        return iter_list(v)
    if isinstance(v, tuple):
        return iter(v)
    if isinstance(v, IterV):
        return v.gen
    if isinstance(v, PDict):
        return iter_dict(I, v, 'keys')
    if isinstance(v, DictView):
        return iter_dict(I, v.d, v.what)
    if isinstance(v, PSet):
        return iter_dict(I, v, 'set')
    if isinstance(v, range):
        return iter(v)
    if isinstance(v, FVal):
        if type(v.fn[v.var.dom[0]]) is not str:
            I.throw('TypeError', 'object is not iterable')
        return iter(I.pointwise(list, v).items)
    if isinstance(v, str):
        return iter(v)
    if isinstance(v, (SStr, SCat)):
        return iter(open_chars(I, v))
    if isinstance(v, Obj):
        if v.cls.namedtuple:
            return iter(nt_tuple(v))
        m = v.cls.lookup('__iter__')[0]
        if m is not None:
            it = deref(I.call(m, [v], {}))
            if isinstance(it, Obj) and it.cls.lookup('__next__')[0] is not None:
                return iter_next(I, it)
            return iterate(I, it)
        m = v.cls.lookup('__next__')[0]
        if m is not None:
            return iter_next(I, v)
        m = v.cls.lookup('__getitem__')[0]
        if m is not None:
            return iter_getitem(I, v)
        if v.cls.is_enum and v.cls.mixin == 'str':
            return iterate(I, v.get('_value_'))
        I.throw('TypeError', "'%s' object is not iterable" % v.cls.name)
    if isinstance(v, ClassV) and v.is_enum and v.members is not None:
        return iter(list(v.members.values()))
    if isinstance(v, bytes):
        return iter(v)
    if isinstance(v, FileV):
        return iter(file_lines(I, v))
    if isinstance(v, Opaque):
        raise Incomplete('iteration over %r' % v)
    if isinstance(v, RangeS):
        return v.iterate(I)
    I.throw('TypeError', "'%s' object is not iterable" % typename(I, v))


def iter_list(l):
    i = 0
    while i < len(l.items):
        yield l.items[i]
        i += 1
        if i > 20000:
            raise Diverges('list grows while it is iterated at %s:%s (%s)' % P.location)


def set_backward(I, s):
    """the order of a set of words is another one in every run: two orders stand for all"""
    if I.set_order > 0 or not P.active or all(isinstance(e, int) for e in s.d.values()):
        return False
    if I.set_order < 0:
        return True
    memo = I.path_memo()
    if 'set order' not in memo:
        memo['set order'] = choose(2, 'order of sets')
    return memo['set order'] == 1


def iter_dict(I, d, what):
    n = len(d.d)
    order = list(d.d)
    if what == 'set' and n > 1 and set_backward(I, d):
        order.reverse()
    for t in order:
        if len(d.d) != n:
            I.throw('RuntimeError', 'changed size during iteration')
        if t not in d.d:
            I.throw('RuntimeError', 'keys changed during iteration')
        e = d.d[t]
        if what == 'set':
            yield e
        elif what == 'keys':
            yield e[0]
        elif what == 'values':
            yield e[1]
        else:
            yield (e[0], e[1])
    if len(d.d) != n:
        I.throw('RuntimeError', 'changed size during iteration')


def iter_next(I, v):
    m = v.cls.lookup('__next__')[0]
    n = 0
    while True:
        try:
            x = I.call(m, [v], {})
        except PyExc as ex:
            if I.exc_is(ex, 'StopIteration'):
                return
            raise
        yield x
        n += 1
        if n > 5000:
            raise Diverges('iterator does not end at %s:%s (%s)' % P.location)


def iter_getitem(I, v):
    m = v.cls.lookup('__getitem__')[0]
    i = 0
    while True:
        try:
            x = I.call(m, [v, i], {})
        except PyExc as ex:
            if I.exc_is(ex, 'IndexError'):
                return
            raise
        yield x
        i += 1


def getitem(I, o, k):
    o, k = deref(o), deref(k)
    if isinstance(o, (PList, tuple)):
        items = o if isinstance(o, tuple) else o.items
        if isinstance(k, slice):
            r = items[host_slice(I, k, len(items))]
            return r if isinstance(o, tuple) else PList(r)
        return items[as_index(I, k, len(items), typename(I, o))]
    if isinstance(o, PDict):
        found, v = I.dict_get(o, k)
        if found:
            return v
        if o.default is not None:
            v = I.call(o.default, [], {})
            I.dict_set(o, k, v)
            return v
        if getattr(o, 'kind', None) == 'Counter':
            return 0
        I.throw('KeyError', k)
    if isinstance(o, WORDS):
        return word_item(I, o, k)
    if isinstance(o, bytes):
        return o[host_slice(I, k) if isinstance(k, slice) else as_index(I, k, len(o))]
    if isinstance(o, Obj):
        if o.cls.namedtuple:
            return getitem(I, nt_tuple(o), k)
        m = o.cls.lookup('__getitem__')[0]
        if m is not None:
            return I.call(m, [o, k], {})
        I.throw('TypeError', "'%s' object is not subscriptable" % o.cls.name)
    if isinstance(o, ClassV):
        if o.is_enum and o.members is not None:
            k = concretise(k)
            if isinstance(k, (SStr, SCat)):
                # an open word: one partition per name
                names = list(o.members) + [n for n, x in o.ns.vars.items() if n not in o.members and isinstance(x, Obj) and x.cls is o]
                for n in names:
                    if I.word_in(k, [n]):
                        k = n
                        break
                else:
                    I.throw('KeyError', k)
            elif not isinstance(k, str):
                I.throw('KeyError', k)
            if k in o.members:
                return o.members[k]
            if k in o.ns.vars and isinstance(o.ns.vars[k], Obj):
                return o.ns.vars[k]
            I.throw('KeyError', k)
        return o
    if isinstance(o, Opaque):
        r = Opaque(o.name)
        if o.name.endswith('Union'):
            r.members = list(k) if isinstance(k, tuple) else [k]
        elif o.name.endswith('Optional'):
            r.members = [k, None]
        return r
    if isinstance(o, range):
        return o[as_index(I, k, len(o))]
    if isinstance(o, I.S.SysModules):
        return o.getitem(I, k)
    if isinstance(o, I.S.MatchV):
        return I.call(I.getattr(o, 'group'), [k])
    if isinstance(o, I.S.CmdStr):
        raise Incomplete('character of a command line')
    I.throw('TypeError', "'%s' object is not subscriptable" % typename(I, o))


def word_item(I, o, k):
    if isinstance(o, (str, FVal)):
        if isinstance(k, slice):
            hk = None
            bounds = [deref(x) for x in (k.start, k.stop, k.step)]
            if any(isinstance(x, (SInt, LinInt)) for x in bounds):
                if isinstance(o, str):
                    hk = host_slice(I, k, len(o))
                    return o[hk]
                return unknown_word(I, 'slice', o, *[x for x in bounds])
            return I.pointwise(lambda s, a, b, c: s[slice(a, b, c)], o, *bounds)
        if isinstance(k, (SInt, LinInt)):
            if isinstance(o, str):
                return o[as_index(I, k, len(o), 'string')]
            o = concretise(o)
            return word_item(I, o, k)
        if not isinstance(k, (int, FVal)):
            I.throw('TypeError', 'string indices must be integers')
        return I.pointwise(lambda s, i: s[i], o, k)
    _I[0] = I
    if isinstance(k, slice):
        a, b, c = [concretise(x) for x in (k.start, k.stop, k.step)]
        if c in (None, 1) and a in (None, 0) and b is None:
            return o
        if c in (None, 1):
            r = word_slice(I, o, a, b)
            if r is not None:
                return r
        return unknown_word(I, 'slice', o, str((a, b, c)))
    k = concretise(k)
    if not isinstance(k, int):
        if isinstance(k, (SInt, LinInt)):
            return unknown_word(I, 'char', o, k)
        I.throw('TypeError', 'string indices must be integers')
    if isinstance(o, SCat):
        if k >= 0 and isinstance(o.parts[0], str) and k < len(o.parts[0]):
            return o.parts[0][k]
        if k < 0 and isinstance(o.parts[-1], str) and -k <= len(o.parts[-1]):
            return o.parts[-1][k]
    if 0 <= k <= CHAR_LIMIT:
        for i in range(k + 1):
            r = uncons(I, o)
            if r is None:
                I.throw('IndexError', 'string index out of range')
            o = r[1]
        return r[0]
    if k == -1:
        r = unsnoc(I, o)
        if r is None:
            I.throw('IndexError', 'string index out of range')
        return r[1]
    n = word_len(I, o)
    if not int_order(I, ast.Gt, n, k if k >= 0 else -k - 1):
        I.throw('IndexError', 'string index out of range')
    return unknown_word(I, 'char%d' % k, o)


def drop(I, o, n):
    while n > 0:
        r = uncons(I, o)
        if r is None:
            return ''
        o = r[1]
        n -= 1
    return deref(o)


def take(I, o, n):
    out = []
    while n > 0:
        r = uncons(I, o)
        if r is None:
            break
        out.append(r[0])
        o = r[1]
        n -= 1
    return norm_cat(out)


def unsnoc(I, w):
    """(all but the last letter, last letter), None when empty"""
    w = deref(w)
    if isinstance(w, (str, FVal)):
        if not I.truth(w):
            return None
        w = deref(w)
        return I.pointwise(lambda s: s[:-1], w), I.pointwise(lambda s: s[-1], w)
    if isinstance(w, SCat):
        parts = list(w.parts)
        while parts:
            r = unsnoc(I, parts[-1])
            if r is not None:
                return norm_cat(parts[:-1] + [r[0]]), r[1]
            parts.pop()
        return None
    if not s_nonempty(w):
        return None
    w = deref(w)
    if not isinstance(w, SStr):
        return unsnoc(I, w)
    lo, hi = w.length()
    if hi == 1:
        if lo == 1:
            P.touch(w)
            w.minlen = w.maxlen = 1
        return '', w
    last = SStr(w.name + '[-1]', 1, 1)
    init = SStr(w.name + '[:-1]', None if hi is None else hi - 1, lo - 1)
    whole = norm_cat([init, last])
    for (k, x), b in list(w.preds.items()):
        if k not in ('startswith', 'endswith', 'contains'):
            continue
        if k == 'contains' and len(x) == 1 and not b:
            set_pred(init, k, x, False)
            set_pred(last, 'eq', x, False)
        elif k == 'endswith' and len(x) == 1:
            set_pred(last, 'eq', x, b)
        elif word_pred(I, whole, k, x) != b:
            raise Infeasible()
    if 0 < len(w.neq) <= 12 and I.word_in(whole, list(w.neq)):
        raise Infeasible()
    w.bind(norm_cat([init, last]))
    return norm_cat([init]), deref(last)


def word_slice(I, o, a, b):
    """o[a:b] where that is determined; None otherwise"""
    sym = (SInt, LinInt)
    if isinstance(a, int) and a < 0 or isinstance(b, int) and b < 0:
        if a in (None, 0) and isinstance(b, int) and b < 0 and b >= -CHAR_LIMIT:
            for _ in range(-b):
                r = unsnoc(I, o)
                if r is None:
                    return ''
                o = r[0]
            return o
        if isinstance(a, int) and -CHAR_LIMIT <= a < 0 and b is None:
            out = []
            for _ in range(-a):
                r = unsnoc(I, o)
                if r is None:
                    break
                out.insert(0, r[1])
                o = r[0]
            return norm_cat(out)
        if isinstance(a, int) and 0 < a <= CHAR_LIMIT + 3 and isinstance(b, int) and -CHAR_LIMIT <= b < 0:
            # the letters dropped at the end first
            return word_slice(I, word_slice(I, o, 0, b), a, None)
        return None
    if isinstance(a, sym) or isinstance(b, sym):
        if b is not None:
            r = cut_at(I, o, b) if not isinstance(b, int) else (take(I, o, b), None)
            if r is None:
                return None
            o2 = r[0]
        else:
            o2 = o
        if a in (None, 0):
            return o2
        r = cut_at(I, o2, a) if not isinstance(a, int) else (None, drop(I, o2, a))
        return None if r is None else r[1]
    if not all(x is None or isinstance(x, int) and x <= CHAR_LIMIT + 6 for x in (a, b)):
        return None
    if b is None:
        return drop(I, o, a or 0)
    return take(I, drop(I, o, a or 0), max(0, b - (a or 0)))


def setitem(I, o, k, v):
    o, k = deref(o), deref(k)
    if isinstance(o, PList):
        if isinstance(k, slice):
            items = list(I.iterate(v))
            o.touch()
            o.items[host_slice(I, k, len(o.items))] = items
            return
        i = as_index(I, k, len(o.items), 'list assignment')
        o.touch()
        o.items[i] = v
        return
    if isinstance(o, PDict):
        I.dict_set(o, k, v)
        return
    if isinstance(o, Obj):
        m = o.cls.lookup('__setitem__')[0]
        if m is not None:
            I.call(m, [o, k, v], {})
            return
    if isinstance(o, Opaque):
        return
    I.throw('TypeError', "'%s' object does not support item assignment" % typename(I, o))


def delitem(I, o, k):
    o, k = deref(o), deref(k)
    if isinstance(o, PList):
        if isinstance(k, slice):
            o.touch()
            del o.items[host_slice(I, k, len(o.items))]
            return
        i = as_index(I, k, len(o.items))
        o.touch()
        del o.items[i]
        return
    if isinstance(o, PDict):
        found, _ = I.dict_del(o, k)
        if not found:
            I.throw('KeyError', k)
        return
    if isinstance(o, Obj):
        m = o.cls.lookup('__delitem__')[0]
        if m is not None:
            I.call(m, [o, k], {})
            return
    I.throw('TypeError', 'object does not support item deletion')


def contains(I, c, x):
    c, x = deref(c), deref(x)
    if isinstance(c, WORDS):
        if isinstance(c, FVal) and type(c.fn[c.var.dom[0]]) is not str:
            I.throw('TypeError', 'argument is not iterable')
        if not isinstance(x, WORDS):
            I.throw('TypeError', "'in <string>' requires string as left operand")
        return word_pred(I, c, 'contains', x)
    if isinstance(c, (PDict, PSet)):
        return I.find_key(c, x) is not _NO
    if isinstance(c, DictView):
        if c.what == 'keys':
            return I.find_key(c.d, x) is not _NO
        items = list(iterate(I, c))
        return seq_contains(I, items, x)
    if isinstance(c, (PList, tuple)):
        return seq_contains(I, c if isinstance(c, tuple) else list(c.items), x)
    if isinstance(c, Obj):
        m = c.cls.lookup('__contains__')[0]
        if m is not None:
            return I.truth(I.call(m, [c, x], {}))
        if c.cls.is_enum and c.cls.mixin == 'str':
            return contains(I, c.get('_value_'), x)
        return any(I.same_or_eq(y, x) for y in iterate(I, c))
    if isinstance(c, ClassV) and c.is_enum and c.members is not None:
        if isinstance(x, Obj):
            return x in c.members.values()
        return any(I.eq(m.get('_value_'), x) for m in c.members.values())
    if isinstance(c, range):
        x = concretise(x)
        if isinstance(x, (int, float)):
            return x in c
    if isinstance(c, IterV):
        return any(I.same_or_eq(y, x) for y in c.gen)
    if isinstance(c, Opaque):
        return bool(choose(2, 'membership in %s' % c.name))
    if isinstance(c, range):
        return any(I.eq(y, x) for y in c)
    if isinstance(c, I.S.SysModules):
        return c.contains(I, x)
    I.throw('TypeError', "argument of type '%s' is not iterable" % typename(I, c))


def seq_contains(I, items, x):
    if isinstance(x, (FVal, SStr, SCat)):
        consts, rest = [], []
        for y in items:
            y = deref(y)
            if isinstance(y, Obj) and y.cls.mixin:
                y = y.get('_value_')
            if isinstance(y, HOST):
                consts.append(y)
            else:
                rest.append(y)
        if consts and I.word_in(x, consts):
            return True
        return any(I.same_or_eq(y, x) for y in rest)
    return any(I.same_or_eq(y, x) for y in items)


# ---------------------------------------------------------------- comparison
def obj_eq(I, a, b):
    a, b = deref(a), deref(b)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Obj):
            if x.cls.is_enum and not isinstance(x.cls.lookup('__eq__')[0], FuncV):
                if x is y:
                    return True
                continue
            m, mc = x.cls.lookup('__eq__')
            if isinstance(m, FuncV):
                r = I.call(m, [x, y], {})
                if r is NotImpl:
                    continue
                return I.truth(r)
            if x.cls.dataclass and x.cls.dataclass.get('eq', True):
                if isinstance(y, Obj) and y.cls is x.cls:
                    return all(I.same_or_eq(x.get(f[0]), y.get(f[0])) for f in x.cls.dataclass['fields'])
                continue
            if x.cls.namedtuple:
                t = nt_tuple(x)
                u = nt_tuple(y) if isinstance(y, Obj) and y.cls.namedtuple else y
                return isinstance(u, tuple) and I.eq(t, u)
    return a is b


def int_eq(I, a, b):
    a, b = deref(a), deref(b)
    if isinstance(b, (SInt, LinInt)) and not isinstance(a, (SInt, LinInt)):
        a, b = b, a
    if isinstance(b, FVal):
        b = concretise(b)
    if isinstance(b, bool):
        b = int(b)
    if isinstance(a, SInt):
        if isinstance(b, int):
            return a.eq(b)
        if a is b:
            return True
    if isinstance(a, LinInt):
        if isinstance(b, int):
            return a.base.eq(b - a.off)
        if isinstance(b, LinInt) and a.base is b.base:
            return a.off == b.off
        if b is a.base:
            return a.off == 0
    if isinstance(b, (SInt, LinInt)):
        return bool(choose(2, 'integers equal'))
    return False


def lin(v):
    v = deref(v)
    if isinstance(v, SInt):
        return (v, 0)
    if isinstance(v, LinInt):
        return (v.base, v.off)
    return (None, v)


def int_op(I, t, a, b):
    a, b = deref(a), deref(b)
    if isinstance(a, FVal):
        a = concretise(a)
    if isinstance(b, FVal):
        b = concretise(b)
    if not all(isinstance(x, (SInt, LinInt, int)) for x in (a, b)):
        I.throw('TypeError', 'unsupported operand types')
    (ba, oa), (bb, ob) = lin(a), lin(b)
    if t is ast.Add and not (ba is not None and bb is not None):
        base = ba if ba is not None else bb
        return LinInt(base, oa + ob)
    if t is ast.Sub:
        if bb is None:
            return LinInt(ba, oa - ob)
        if ba is bb:
            return oa - ob
    return SInt(None, None, 'int')


def int_order(I, t, a, b):
    """compare symbolic integers"""
    (ba, oa), (bb, ob) = lin(a), lin(b)
    if ba is None and bb is None:
        return {ast.Lt: oa < ob, ast.LtE: oa <= ob, ast.Gt: oa > ob, ast.GtE: oa >= ob}[t]
    if ba is bb:
        return {ast.Lt: oa < ob, ast.LtE: oa <= ob, ast.Gt: oa > ob, ast.GtE: oa >= ob}[t]
    if ba is not None and bb is not None:
        return bool(choose(2, 'order of integers'))
    if ba is None:
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        return int_order(I, flip[t], b, a)
    c = ob - oa
    if t is ast.LtE:
        return ba.le(c)
    if t is ast.Lt:
        return ba.le(c - 1)
    if t is ast.Gt:
        return not ba.le(c)
    return not ba.le(c - 1)


def order(I, t, a, b):
    a, b = deref(a), deref(b)
    fn = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y, ast.Gt: lambda x, y: x > y,
          ast.GtE: lambda x, y: x >= y}[t]
    if isinstance(a, Obj) and a.cls.mixin:
        a = a.get('_value_')
    if isinstance(b, Obj) and b.cls.mixin:
        b = b.get('_value_')
    if isinstance(a, (FVal,) + HOST) and isinstance(b, (FVal,) + HOST):
        return I.pointwise(fn, a, b)
    if isinstance(a, (SInt, LinInt, int, bool)) and isinstance(b, (SInt, LinInt, int, bool)):
        return int_order(I, t, a, b)
    if isinstance(a, PSet) and isinstance(b, PSet):
        sub = lambda x, y: all(I.set_has(y, v) for v in list(x.d.values()))
        if t is ast.LtE:
            return sub(a, b)
        if t is ast.GtE:
            return sub(b, a)
        if t is ast.Lt:
            return sub(a, b) and not sub(b, a)
        return sub(b, a) and not sub(a, b)
    if isinstance(a, (tuple, PList)) and type(a) is type(b):
        x = list(a) if isinstance(a, tuple) else a.items
        y = list(b) if isinstance(b, tuple) else b.items
        for p, q in zip(x, y):
            if not I.same_or_eq(p, q):
                return order(I, t, p, q)
        return fn(len(x), len(y))
    if isinstance(a, Obj) or isinstance(b, Obj):
        nm = {ast.Lt: '__lt__', ast.LtE: '__le__', ast.Gt: '__gt__', ast.GtE: '__ge__'}
        fl = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        for x, y, tt in ((a, b, t), (b, a, fl[t])):
            if isinstance(x, Obj):
                m = x.cls.lookup(nm[tt])[0]
                if m is not None:
                    r = I.call(m, [x, y], {})
                    if r is not NotImpl:
                        return I.truth(r)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        return bool(choose(2, 'unknown order'))
    if isinstance(a, SVar) or isinstance(b, SVar):
        if isinstance(a, (SVar, int)) and isinstance(b, (SVar, int)):
            memo = I.path_memo()
            key = ('ord', t, id(a) if isinstance(a, SVar) else a, id(b) if isinstance(b, SVar) else b)
            if key not in memo:
                memo[key] = bool(choose(2, 'order of identifiers'))
            return memo[key]
    if isinstance(a, WORDS) and isinstance(b, WORDS):
        return bool(choose(2, 'order of words'))
    I.throw('TypeError', "'%s' not supported between instances" % t.__name__)


# ----------------------------------------------------------------- functions
class RangeS:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def iterate(self, I):
        i = self.lo
        n = 0
        while I.truth(order(I, ast.Lt, i, self.hi)):
            yield i
            i = I.binop(ast.Add(), i, self.step)
            n += 1
            if n > 4:
                raise Incomplete('range over an open word')


def b_len(I, a, k):
    argn(I, a, 1, 1, 'len')
    v = deref(a[0])
    if isinstance(v, PList):
        return len(v.items)
    if isinstance(v, (PDict, PSet)):
        # symbolic members may coincide: they were separated on insertion
        return len(v.d)
    if isinstance(v, DictView):
        return len(v.d.d)
    if isinstance(v, (tuple, range, bytes)):
        return len(v)
    if isinstance(v, WORDS):
        return word_len(I, v)
    if isinstance(v, Obj):
        if v.cls.namedtuple:
            return len(v.cls.namedtuple[0])
        m = v.cls.lookup('__len__')[0]
        if m is not None:
            return I.call(m, [v], {})
    if isinstance(v, ClassV) and v.is_enum and v.members is not None:
        return len(v.members)
    if isinstance(v, Opaque):
        return SInt(0, None, 'len')
    I.throw('TypeError', "object of type '%s' has no len()" % typename(I, v))


def b_isinstance(I, a, k):
    argn(I, a, 2, 2, 'isinstance')
    return isinstance_(I, a[0], a[1])


def b_issubclass(I, a, k):
    c = deref(a[0])
    cs = a[1] if isinstance(a[1], tuple) else (a[1],)
    if not isinstance(c, ClassV):
        I.throw('TypeError', 'issubclass() arg 1 must be a class')
    return any(isinstance(x, ClassV) and c.issub(x) for x in cs)


def b_print(I, a, k):
    parts = []
    for i, x in enumerate(a):
        if i:
            parts.append(k.get('sep', ' ') or ' ')
        x = str_(I, x)
        parts.append(x.text if isinstance(x, I.S.CmdStr) else x)
    f = k.get('file')
    text = I.concat(parts) if all(isinstance(p, WORDS) for p in map(deref, parts)) else Opaque('text')
    f = deref(f)
    if isinstance(f, FileV):
        file_write(I, f, text)
        file_write(I, f, k.get('end', '\n'))
    elif isinstance(f, Obj):
        w = I.getattr(f, 'write')
        I.call(w, [text], {})
        I.call(w, [k.get('end', '\n')], {})
    else:
        I.S.outside(I, 'prints %s' % show(text))
        I.effects.append(('print', text, P.location))
    return None


def b_input(I, a, k):
    I.S.outside(I, 'reads standard input')
    return Opaque('input')


def b_repr(I, a, k):
    return repr_(I, a[0])


def b_ascii(I, a, k):
    return repr_(I, a[0])


def b_format(I, a, k):
    return format_(I, a[0], a[1] if len(a) > 1 else '')


def b_chr(I, a, k):
    v = deref(a[0])
    if isinstance(v, FVal):
        return I.pointwise(chr, v)
    v = concretise(v)
    if isinstance(v, int):
        try:
            return chr(v)
        except Exception as e:
            I.host_exc(e)
    return unknown_word(I, 'chr', v)


def b_ord(I, a, k):
    v = deref(a[0])
    if isinstance(v, (str, FVal)):
        return I.pointwise(ord, v)
    return SInt(0, None, 'ord')


def b_abs(I, a, k):
    return I.pointwise(abs, a[0])


def b_round(I, a, k):
    return I.pointwise(round, *a)


def b_divmod(I, a, k):
    return I.pointwise(divmod, *a)


def b_pow(I, a, k):
    return I.pointwise(pow, *a)


def b_hex(I, a, k):
    return I.pointwise(hex, a[0])


def b_bin(I, a, k):
    return I.pointwise(bin, a[0])


def b_oct(I, a, k):
    return I.pointwise(oct, a[0])


def b_any(I, a, k):
    for x in I.iterate(a[0]):
        if I.truth(x):
            return True
    return False


def b_all(I, a, k):
    for x in I.iterate(a[0]):
        if not I.truth(x):
            return False
    return True


def b_sum(I, a, k):
    acc = a[1] if len(a) > 1 else k.get('start', 0)
    for x in I.iterate(a[0]):
        acc = I.binop(ast.Add(), acc, x)
    return acc


def _minmax(op):
    def f(I, a, k):
        items = list(I.iterate(a[0])) if len(a) == 1 else list(a)
        key = k.get('key')
        if not items:
            if 'default' in k:
                return k['default']
            I.throw('ValueError', 'arg is an empty sequence')
        kf = (lambda x: x) if key is None else (lambda x: I.call(key, [x], {}))
        best, bk = items[0], kf(items[0])
        for x in items[1:]:
            xk = kf(x)
            if order(I, op, xk, bk):
                best, bk = x, xk
        return best
    return f


b_min = _minmax(ast.Lt)
b_max = _minmax(ast.Gt)


def b_sorted(I, a, k):
    items = list(I.iterate(a[0]))
    key = k.get('key')
    rev = I.truth(k.get('reverse', False))
    keys = [x if key is None else I.call(key, [x], {}) for x in items]
    # insertion sort, stable
    out = []
    for x, kx in zip(items, keys):
        i = len(out)
        while i > 0:
            ky = out[i - 1][1]
            less = order(I, ast.Lt, ky, kx) if rev else order(I, ast.Lt, kx, ky)
            if not less:
                break
            i -= 1
        out.insert(i, (x, kx))
    return PList([x for x, _ in out])


def b_reversed(I, a, k):
    v = deref(a[0])
    if isinstance(v, PList):
        return IterV(iter(list(reversed(v.items))))
    if isinstance(v, (tuple, range)):
        return IterV(iter(list(reversed(v))))
    if isinstance(v, (PDict, DictView)):
        return IterV(iter(list(reversed(list(iterate(I, v))))))
    if isinstance(v, WORDS):
        return IterV(iter(list(reversed(list(iterate(I, v))))))
    if isinstance(v, Obj):
        m = v.cls.lookup('__reversed__')[0]
        if m:
            return I.call(m, [v], {})
    I.throw('TypeError', 'object is not reversible')


def b_enumerate(I, a, k):
    start = concretise(a[1]) if len(a) > 1 else concretise(k.get('start', 0))
    it = I.iterate(a[0])

    def g():
        i = start
        for x in it:
            yield (i, x)
            i += 1
    return IterV(g())


def b_zip(I, a, k):
    its = [iter(I.iterate(x)) for x in a]
    strict = k.get('strict', False)

    def g():
        if not its:
            return
        while True:
            row = []
            for i, it in enumerate(its):
                try:
                    row.append(next(it))
                except StopIteration:
                    if strict:
                        if i > 0:
                            I.throw('ValueError', 'zip() arguments have different lengths')
                        for o in its[1:]:
                            try:
                                next(o)
                            except StopIteration:
                                continue
                            I.throw('ValueError', 'zip() arguments have different lengths')
                    return
            yield tuple(row)
    return IterV(g())


def b_map(I, a, k):
    f = a[0]
    its = [iter(I.iterate(x)) for x in a[1:]]

    def g():
        while True:
            row = []
            for it in its:
                try:
                    row.append(next(it))
                except StopIteration:
                    return
            yield I.call(f, row, {})
    return IterV(g())


def b_filter(I, a, k):
    f = a[0]
    it = I.iterate(a[1])

    def g():
        for x in it:
            if I.truth(x if f is None else I.call(f, [x], {})):
                yield x
    return IterV(g())


def b_iter(I, a, k):
    if len(a) == 2:
        def g():
            n = 0
            while True:
                v = I.call(a[0], [], {})
                if I.eq(v, a[1]):
                    return
                yield v
                n += 1
                if n > 5000:
                    raise Diverges('iterator does not end')
        return IterV(g())
    v = deref(a[0])
    if isinstance(v, IterV):
        return v
    if isinstance(v, Obj) and not v.cls.namedtuple:
        m = v.cls.lookup('__iter__')[0]
        if m is not None:
            return I.call(m, [v], {})
    return IterV(iter(I.iterate(v)))


def b_next(I, a, k):
    it = deref(a[0])
    if isinstance(it, Obj):
        m = it.cls.lookup('__next__')[0]
        if m is None:
            I.throw('TypeError', 'object is not an iterator')
        try:
            return I.call(m, [it], {})
        except PyExc as ex:
            if len(a) > 1 and I.exc_is(ex, 'StopIteration'):
                return a[1]
            raise
    if isinstance(it, FileV):
        it = IterV(iter(file_lines(I, it)))
    if not isinstance(it, IterV):
        I.throw('TypeError', 'object is not an iterator')
    try:
        return next(it.gen)
    except StopIteration:
        if len(a) > 1:
            return a[1]
        I.throw('StopIteration')


def b_callable(I, a, k):
    v = deref(a[0])
    return isinstance(v, (FuncV, BoundM, BuiltinF, ClassV, PartialV, CacheF)) or \
        (isinstance(v, Obj) and v.cls.lookup('__call__')[0] is not None)


def b_getattr(I, a, k):
    argn(I, a, 2, 3, 'getattr')
    name = attr_name(I, a[0], a[1])
    try:
        return I.getattr(a[0], name)
    except PyExc as ex:
        if len(a) > 2 and I.exc_is(ex, 'AttributeError'):
            return a[2]
        raise


def attr_name(I, o, name):
    name = deref(name)
    if isinstance(name, (SStr, SCat)):
        # open attribute name: one of the known attributes, or none of them
        o = deref(o)
        names = []
        if isinstance(o, ModuleV):
            names = list(o.env.vars)
        elif isinstance(o, Obj):
            names = list(o.attrs.d)
            for c in o.cls.mro:
                names += list(c.ns.vars)
        elif isinstance(o, ClassV):
            for c in o.mro:
                names += list(c.ns.vars)
        if I.word_in(name, [n for n in names if isinstance(n, str)]):
            return concretise(name) if not isinstance(deref(name), SCat) else concretise_cat(I, name)
        return '\x00unknown'
    name = concretise(name)
    if not isinstance(name, str):
        I.throw('TypeError', 'attribute name must be string')
    return name


def concretise_cat(I, w):
    r = norm_cat([concretise(p) for p in w.parts])
    if isinstance(r, str):
        return r
    raise Incomplete('open attribute name')


def b_setattr(I, a, k):
    I.setattr(a[0], attr_name(I, a[0], a[1]), a[2])


def b_delattr(I, a, k):
    I.delattr(a[0], attr_name(I, a[0], a[1]))


def b_hasattr(I, a, k):
    return I.hasattr(a[0], attr_name(I, a[0], a[1]))


def b_id(I, a, k):
    memo = I.path_memo()
    v = deref(a[0])
    key = ('pyid', id(v) if not isinstance(v, HOST) else v)
    if key not in memo:
        memo[key] = (SVar('id'), v)
    return memo[key][0]


def b_hash(I, a, k):
    I.htoken(a[0])
    return SInt(None, None, 'hash')


def b_vars(I, a, k, env=None):
    if not a:
        return b_locals(I, a, k, env)
    o = deref(a[0])
    if isinstance(o, Obj):
        return o.attrs
    if isinstance(o, ModuleV):
        return module_dict(I, o)
    if isinstance(o, ClassV):
        return class_special(I, o, '__dict__')
    I.throw('TypeError', 'vars() argument must have __dict__ attribute')


def b_dir(I, a, k, env=None):
    o = deref(a[0]) if a else None
    if o is None:
        names = list(env.vars)
    elif isinstance(o, ModuleV):
        names = list(o.env.vars)
    elif isinstance(o, Obj):
        names = list(o.attrs.d)
        for c in o.cls.mro:
            names += list(c.ns.vars)
    elif isinstance(o, ClassV):
        names = []
        for c in o.mro:
            names += list(c.ns.vars)
    else:
        raise Incomplete('dir')
    return PList(sorted(set(names)))


def b_globals(I, a, k, env=None):
    return GlobalsV.make(I, env.module)


class GlobalsV:
    @staticmethod
    def make(I, env):
        d = PDict()
        for k, v in env.vars.items():
            d.d[k] = (k, v)
        d.live = env
        return d


def b_locals(I, a, k, env=None):
    d = PDict()
    for n, v in env.vars.items():
        d.d[n] = (n, v)
    return d


def b_exec(I, a, k, env=None):
    src = exec_source(I, a[0])
    try:
        tree = ast.parse(src)
    except SyntaxError:
        I.throw('SyntaxError', 'invalid syntax')
    target = env
    if len(a) > 1 and deref(a[1]) is not None:
        g = deref(a[1])
        if isinstance(g, PDict):
            live = getattr(g, 'live', None)
            target = Env()
            target.module = target
            target.kind = 'module'
            target.file = env.file
            target.fname = '<module>'
            target.vars = {t: e[1] for t, e in g.d.items() if isinstance(t, str)}
            before = dict(target.vars)
            I.run_body(tree.body, target)
            for n, v in target.vars.items():
                if n not in before or before[n] is not v:
                    I.dict_set(g, n, v)
                    if live is not None:
                        live.set(n, v)
            return None
        raise Incomplete('exec environment')
    if env.kind == 'func':
        # names bound by exec inside a function are not visible as locals
        t = Env(env)
        t.module = env.module
        t.kind = 'module'
        t.file, t.fname = env.file, env.fname
        t.vars['__name__'] = env.module.vars.get('__name__')
        t.module = t if False else env.module
        target = t
    for s in ast.walk(tree):
        if hasattr(s, 'lineno'):
            s.lineno = P.location[1] if P.location else 0
    for s in tree.body:
        I.exec(s, target)
    return None


def b_eval(I, a, k, env=None):
    src = exec_source(I, a[0])
    try:
        tree = ast.parse(src.strip(), mode='eval')
    except SyntaxError:
        I.throw('SyntaxError', 'invalid syntax')
    return I.eval(tree.body, env)


def exec_source(I, v):
    v = deref(v)
    if isinstance(v, FVal):
        v = concretise(v)
    if isinstance(v, SCat) or isinstance(v, SStr):
        raise Incomplete('dynamic code from an open word')
    return v


def b___import__(I, a, k):
    name = concretise(a[0])
    m = I.import_module(name)
    if len(a) > 3 or k.get('fromlist'):
        return m
    return I.modules[name.split('.')[0]]


def b_open(I, a, k):
    return open_file(I, a, k)


def b_property(I, a, k):
    return PropertyV(*a[:2])


def b_super(I, a, k):
    return SuperV(a[0], a[1])


def b_type(I, a, k):
    return construct_type(I, a, k)


def b_breakpoint(I, a, k):
    return None


def b_exit(I, a, k):
    I.throw('SystemExit', *a)


b_quit = b_exit


# -------------------------------------------------------------- constructors
def construct_type(I, a, k):
    if len(a) == 1:
        t = type_of(I, a[0])
        if t is None:
            raise Incomplete('type of %s' % show(a[0]))
        return t
    name, bases, ns = concretise(a[0]), list(I.iterate(a[1])), deref(a[2])
    env = Env()
    env.kind = 'class'
    env.ann = []
    env.file = None
    env.module = None
    for kk, v in ns.d.values():
        env.vars[kk] = v
    return make_class(I, name, bases, k, env)


def c_str(I, a, k):
    if not a:
        return ''
    if isinstance(a[0], bytes):
        if len(a) > 1 or 'encoding' in k:
            return a[0].decode(*[concretise(x) for x in a[1:]])
    return str_(I, a[0])


def c_int(I, a, k):
    if not a:
        return 0
    v = deref(a[0])
    if isinstance(v, (FVal, str, float, bool, int)):
        rest = [concretise(x) for x in a[1:]] + ([concretise(k['base'])] if 'base' in k else [])
        return I.pointwise(lambda x: int(x, *rest), v)
    if isinstance(v, (SInt, LinInt, SVar)):
        return v
    if isinstance(v, (SStr, SCat)):
        if choose(2, 'numeric word'):
            return unknown_int(I, v)
        I.throw('ValueError', 'invalid literal for int()')
    if isinstance(v, Obj):
        for nm in ('__int__', '__index__'):
            m = v.cls.lookup(nm)[0]
            if m is not None:
                return I.call(m, [v], {})
        if v.cls.mixin == 'int':
            return v.get('_value_')
    if isinstance(v, Opaque):
        return SInt(None, None, 'int')
    I.throw('TypeError', 'int() argument')


def unknown_int(I, v):
    memo = I.path_memo()
    key = ('int', id(v))
    if key not in memo:
        memo[key] = (SInt(None, None, 'int'), v)
    return memo[key][0]


def c_bool(I, a, k):
    return I.truth(a[0]) if a else False


def c_list(I, a, k):
    return PList(I.iterate(a[0])) if a else PList()


def c_tuple(I, a, k):
    return tuple(I.iterate(a[0])) if a else ()


def c_set(I, a, k):
    s = PSet()
    if a:
        for x in I.iterate(a[0]):
            I.set_add(s, x)
    return s


def c_frozenset(I, a, k):
    s = c_set(I, a, k)
    s.frozen = True
    return s


def c_dict(I, a, k):
    d = PDict()
    if a:
        o = deref(a[0])
        if isinstance(o, (PDict, PList, tuple, IterV, DictView)) or not isinstance(o, Obj):
            if isinstance(o, DictView) and o.what == 'items':
                for kk, v in list(o.d.d.values()):
                    I.dict_set(d, kk, v)
            else:
                dict_update(I, d, o)
        else:
            for kk, v in dict_items(I, o):
                I.dict_set(d, kk, v)
    for kk, v in k.items():
        I.dict_set(d, kk, v)
    return d


def c_float(I, a, k):
    return I.pointwise(float, a[0]) if a else 0.0


def c_bytes(I, a, k):
    return I.pointwise(bytes, *a)


def c_range(I, a, k):
    vals = [deref(x) for x in a]
    vals = [concretise(x) if isinstance(x, FVal) else x for x in vals]
    vals = [x.lo if isinstance(x, SInt) and x.const() else x for x in vals]
    if all(isinstance(x, int) for x in vals):
        try:
            return range(*vals)
        except Exception as e:
            I.host_exc(e)
    if all(isinstance(x, (int, SInt, LinInt)) for x in vals):
        if len(vals) == 1:
            return RangeS(0, vals[0], 1)
        if len(vals) == 2:
            return RangeS(vals[0], vals[1], 1)
    I.throw('TypeError', 'range() integer argument expected')


def c_object(I, a, k):
    return Obj(I.types['object'])


def c_slice(I, a, k):
    return slice(*a)


def c_staticmethod(I, a, k):
    return StaticM(a[0])


def c_classmethod(I, a, k):
    return ClassM(a[0])


def c_property(I, a, k):
    return PropertyV(a[0] if a else k.get('fget'), a[1] if len(a) > 1 else k.get('fset'))


def c_deque(I, a, k):
    return PDeque(I.iterate(a[0]) if a else [])


def c_defaultdict(I, a, k):
    d = c_dict(I, a[1:], k)
    d.default = a[0] if a else None
    return d


def c_ordered(I, a, k):
    d = c_dict(I, a, k)
    d.kind = 'OrderedDict'
    return d


def counter_add(I, d, it):
    it = deref(it)
    if isinstance(it, PDict):
        for kk, v in list(it.d.values()):
            found, old = I.dict_get(d, kk)
            I.dict_set(d, kk, I.binop(ast.Add(), old if found else 0, v))
        return
    for x in I.iterate(it):
        found, old = I.dict_get(d, x)
        I.dict_set(d, x, I.binop(ast.Add(), old if found else 0, 1))


def c_counter(I, a, k):
    d = PDict()
    d.kind = 'Counter'
    if a:
        counter_add(I, d, a[0])
    return d


def c_namespace(I, a, k):
    o = Obj(I.types['SimpleNamespace'])
    for kk, v in k.items():
        o.set(kk, v)
    return o


CONSTRUCT = {'str': c_str, 'int': c_int, 'bool': c_bool, 'list': c_list, 'tuple': c_tuple, 'set': c_set,
             'frozenset': c_frozenset, 'dict': c_dict, 'float': c_float, 'bytes': c_bytes, 'range': c_range,
             'object': c_object, 'slice': c_slice, 'type': construct_type, 'staticmethod': c_staticmethod,
             'classmethod': c_classmethod, 'property': c_property, 'deque': c_deque,
             'defaultdict': c_defaultdict, 'OrderedDict': c_ordered, 'Counter': c_counter,
             'SimpleNamespace': c_namespace}


def call_cached(I, f, args, kw):
    key = tuple(args) + tuple((k, kw[k]) for k in sorted(kw))
    I.htoken(key)
    found, v = I.dict_get(f.store, key)
    if found:
        return v
    v = I.call(f.f, args, kw)
    I.dict_set(f.store, key, v)
    return v


# ------------------------------------------------------------------ deepcopy
def deepcopy(I, v, memo):
    v = deref(v)
    if v is None or isinstance(v, HOST) or isinstance(v, (FVal, SStr, SCat, SInt, LinInt, SVar, ClassV, FuncV, BuiltinF,
                                                          ModuleV, range, CacheF, Opaque)) or v is Ellipsis:
        return v
    if id(v) in memo:
        return memo[id(v)][0]
    if isinstance(v, tuple):
        r = tuple(deepcopy(I, x, memo) for x in v)
        memo[id(v)] = (r, v)
        return r
    if isinstance(v, PList):
        r = type(v)()
        memo[id(v)] = (r, v)
        r.items = [deepcopy(I, x, memo) for x in v.items]
        return r
    if isinstance(v, PDict):
        r = PDict()
        r.default = v.default
        if hasattr(v, 'kind'):
            r.kind = v.kind
        memo[id(v)] = (r, v)
        for t, (k, x) in v.d.items():
            k2 = deepcopy(I, k, memo)
            tok = I.htoken(k2) if not (isinstance(t, tuple) and t and t[0] == 'sym') else t
            r.d[tok] = (k2, deepcopy(I, x, memo))
        return r
    if isinstance(v, PSet):
        r = PSet(v.frozen)
        memo[id(v)] = (r, v)
        for t, k in v.d.items():
            k2 = deepcopy(I, k, memo)
            r.d[I.htoken(k2) if not (isinstance(t, tuple) and t and t[0] == 'sym') else t] = k2
        return r
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return v
        m = v.cls.lookup('__deepcopy__')[0]
        if m is not None:
            r = I.call(m, [v, PDict()], {})
            memo[id(v)] = (r, v)
            return r
        if v.cls.lookup('__reduce__')[0] or v.cls.lookup('__getstate__')[0] or v.cls.lookup('__reduce_ex__')[0]:
            raise Incomplete('deepcopy with __reduce__')
        r = Obj(v.cls)
        memo[id(v)] = (r, v)
        for t, (k, x) in v.attrs.d.items():
            r.attrs.d[t] = (k, deepcopy(I, x, memo))
        return r
    if isinstance(v, BoundM):
        return BoundM(v.func, deepcopy(I, v.self_, memo))
    if isinstance(v, PartialV):
        return PartialV(v.f, deepcopy(I, tuple(v.args), memo), v.kwargs)
    if isinstance(v, (IterV, FileV, DictView)):
        I.throw('TypeError', 'cannot pickle object')
    raise Incomplete('deepcopy of %s' % show(v))


def shallow_copy(I, v):
    v = deref(v)
    if isinstance(v, PList):
        return type(v)(v.items)
    if isinstance(v, PDict):
        return dict_copy(I, v)
    if isinstance(v, PSet):
        return set_copy(v)
    if isinstance(v, Obj) and not v.cls.is_enum:
        m = v.cls.lookup('__copy__')[0]
        if m is not None:
            return I.call(m, [v], {})
        r = Obj(v.cls)
        for t, e in v.attrs.d.items():
            r.attrs.d[t] = e
        return r
    return v


# ------------------------------------------------------------- files, context
class FileV:
    def __init__(self, path, mode, content=None):
        self.path, self.mode, self.content = path, mode, content
        self.closed = False

    def __repr__(self):
        return '<file %s %s>' % (show(self.path), self.mode)


def host_path_exists(I, path):
    import os
    return any(path.startswith(r) for r in I.path_roots) and os.path.exists(path)


def open_file(I, a, k):
    import os
    path = deref(a[0])
    if isinstance(path, Obj) and path.cls.lookup('__fspath__')[0] is not None:
        path = I.call(path.cls.lookup('__fspath__')[0], [path], {})
    mode = concretise(a[1] if len(a) > 1 else k.get('mode', 'r'))
    if I.ambient is not None:
        if not isinstance(mode, str) or set(mode) & set('wax+'):
            I.ambient('opens %s for writing' % show(path))
        I.S.path_use(I, path, 'opens %s')
    if isinstance(path, FVal):
        split(path.var, lambda d: host_path_exists(I, path.fn[d]), 'file exists')
        path = concretise(path)
    if isinstance(path, SCat) or isinstance(path, SStr):
        path = resolve_repo_path(I, path, I.fs is None)
    if isinstance(path, str) and I.fs is None:
        if 'r' in mode and '+' not in mode:
            if not host_path_exists(I, path) or not os.path.isfile(path):
                try:
                    inside = any(path.startswith(r) for r in I.path_roots) and os.stat(path)
                    if inside and os.path.isdir(path):
                        I.throw('IsADirectoryError', 21, 'Is a directory')
                except ValueError:
                    I.throw('ValueError', 'embedded null byte')
                except OSError as e:
                    I.throw(type(e).__name__, e.errno, e.strerror)
                I.throw('FileNotFoundError', 2, 'No such file or directory')
            with open(path, 'rb') as fh:
                data = fh.read()
            I.sources.add(os.path.relpath(path, I.repo)) if hasattr(I, 'sources') else None
            return FileV(path, mode, data if 'b' in mode else data.decode('utf-8'))
        raise Incomplete('write to %r outside the file model' % (path,))
    if I.fs is None:
        # an open path that is no file of the repository
        if 'r' in mode:
            name_too_long(I, path)
            I.throw('FileNotFoundError', 2, 'No such file or directory')
        raise Incomplete('write to an open path outside the file model')
    return I.fs.open(I, path, mode)


def resolve_repo_path(I, path, opening=False):
    """an open path inside the analysed package: which existing file is it?"""
    import os
    pre = path.parts[0] if isinstance(path, SCat) and isinstance(path.parts[0], str) else ''
    cands = []
    for r in I.path_roots:
        d = os.path.dirname(pre)
        if pre and os.path.isdir(d):
            cands += [os.path.join(d, f) for f in sorted(os.listdir(d))]
    if cands and I.word_in(path, cands):
        return concretise(norm_cat([concretise(p) for p in path.parts]))
    if cands and any(not isinstance(p, str) and I.truth(I.contains(p, '/')) for p in path.parts[1:]):
        # names with several components: ./x, ../directory/x, x/y
        files = [c for c in cands if os.path.isfile(c)]
        n = choose(len(files) + 2, 'where the path leads')
        if n < len(files):
            return files[n]
        if n == len(files) and opening:
            I.throw('NotADirectoryError', 20, 'Not a directory')
    return path


def name_too_long(I, path):
    if isinstance(path, SCat) and any(isinstance(p, SStr) for p in path.parts[1:]) and \
            choose(2, 'name longer than a file name may be'):
        I.throw('OSError', 36, 'File name too long')


def file_attr(I, f, name):
    def m(fn):
        return BuiltinF('file.' + name, fn)
    if name == 'read':
        return m(lambda I, a, k: f.content if f.content is not None else unknown_word(I, 'content', f))
    if name == 'readlines':
        return m(lambda I, a, k: PList(file_lines(I, f)))
    if name == 'write':
        return m(lambda I, a, k: file_write(I, f, a[0]))
    if name == 'writelines':
        def wl(I, a, k):
            for x in I.iterate(a[0]):
                file_write(I, f, x)
        return m(wl)
    if name in ('close', 'flush', 'fileno'):
        return m(lambda I, a, k: None)
    if name == '__enter__':
        return m(lambda I, a, k: f)
    if name == '__exit__':
        return m(lambda I, a, k: None)
    if name == 'name':
        return f.path
    if name == 'closed':
        return f.closed
    I.throw('AttributeError', name)


def file_lines(I, f):
    if isinstance(f.content, str):
        return f.content.splitlines(True)
    raise Incomplete('lines of an unknown file')


def file_write(I, f, text):
    I.S.outside(I, 'writes to %s' % show(f.path))
    I.effects.append(('write', f.path, f.mode, text, P.location))
    return None


def context_manager(I, m):
    m = deref(m)
    if isinstance(m, FileV):
        return (lambda: m), (lambda ex: False)
    if isinstance(m, Opaque):
        return (lambda: Opaque(m.name + '.enter')), (lambda ex: False)
    if isinstance(m, Obj):
        en = m.cls.lookup('__enter__')[0]
        ex_ = m.cls.lookup('__exit__')[0]
        if en is None or ex_ is None:
            I.throw('AttributeError', '__enter__')
        return (lambda: I.call(en, [m], {})), \
            (lambda ex: I.call(ex_, [m] + ([None] * 3 if ex is None else [ex.obj.cls, ex.obj, None]), {}))
    if isinstance(m, CtxV):
        return m.enter, m.exit
    raise Incomplete('context manager %s' % show(m))


class CtxV:
    def __init__(self, enter, exit_):
        self.enter, self.exit = enter, exit_
