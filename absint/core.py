"""Core of the abstract interpreter: trace partitioning, the undoable abstract
heap, and the value domains.

Nothing in here imports, executes or evaluates a line of the analysed
repository.  Values are abstract:

  * host immutables                    -- program constants
  * FVal (finite valuation)            -- a word known to lie in a finite set of
                                          spellings; all operations are applied
                                          pointwise and *partition* the set
  * SStr (open word)                   -- any word whatsoever, refined by
                                          disequalities and prefix/substring
                                          predicates
  * SInt                               -- interval
  * SVar                               -- an opaque stream identifier
  * heap objects                       -- lists, dicts, sets, instances ...
"""
import sys

sys.setrecursionlimit(20000)


class Infeasible(Exception):
    """The current partition is empty."""


class Incomplete(Exception):
    """The analysis cannot interpret a construct: no verdict is possible."""


class PathLimit(Incomplete):
    pass


class Diverges(Exception):
    """A loop of the analysed program does not leave a finite input."""


class PyExc(Exception):
    """An exception raised by the analysed program."""

    def __init__(self, obj, site=None):
        Exception.__init__(self)
        self.obj = obj
        self.site = site
        self.trace = []


class ReturnEx(Exception):
    def __init__(self, value):
        self.value = value


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


# --------------------------------------------------------------------------
# trace partitioning: decisions are enumerated depth first, every partition is
# re-derived from the shared base state with an undo journal
# --------------------------------------------------------------------------
class Path:
    def __init__(self):
        self.prefix = []
        self.taken = []
        self.pending = []
        self.journal = []
        self.epoch = 0
        self.labels = []
        self.location = None
        self.active = False
        self.branch_log = []
        self.steps = 0
        self.fresh = 0
        self.n_choose = 0
        self.watch = None

    def begin(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pending = []
        self.labels = []
        self.branch_log = []
        self.steps = 0
        self.active = True
        self.fresh = 0

    def choose(self, n, label=None):
        if n <= 0:
            raise Infeasible()
        if n == 1:
            return 0
        self.n_choose += 1
        if self.watch is not None and self.n_choose % 64 == 0:
            self.watch()
        if not self.active:
            raise Incomplete('undetermined value outside a partitioned run: %s' % (label,))
        k = len(self.taken)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(self.taken + [j])
        self.taken.append(c)
        self.labels.append((label, c, self.location))
        return c

    # ---- undo journal
    def mark(self):
        self.epoch += 1
        return len(self.journal), self.epoch

    def rollback(self, mark):
        n, _ = mark
        while len(self.journal) > n:
            obj, saved, ep = self.journal.pop()
            obj._restore(saved)
            obj._epoch = ep
        self.epoch += 1

    def touch(self, obj):
        """Record the content of obj before it is changed."""
        if obj._epoch != self.epoch:
            self.journal.append((obj, obj._save(), obj._epoch))
            obj._epoch = self.epoch

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Diverges('no exit within the step limit at %s:%s (%s)' % self.location)


P = Path()


class Stop(BaseException):
    """The verdict is settled (or the time is used up): explore no further."""


def choose(n, label=None):
    return P.choose(n, label)


class Explorer:
    """Enumerate every partition of a harness."""

    def __init__(self, max_paths=200000):
        self.max_paths = max_paths
        self.paths = 0
        self.infeasible = 0
        self.choices = 0

    def run(self, harness, on_path=None):
        stack = [[]]
        while stack:
            prefix = stack.pop()
            if self.paths >= self.max_paths:
                raise PathLimit('more than %d partitions' % self.max_paths)
            mark = P.mark()
            P.begin(prefix)
            try:
                harness()
                self.paths += 1
                if on_path:
                    on_path()
            except Infeasible:
                self.infeasible += 1
            finally:
                stack.extend(P.pending)
                self.choices += len(P.taken)
                P.active = False
                P.rollback(mark)


# --------------------------------------------------------------------------
# finite valuations
# --------------------------------------------------------------------------
class FinVar:
    """A variable ranging over a finite set of host strings."""
    _epoch = -1

    def __init__(self, dom, name='w'):
        self.dom = tuple(dict.fromkeys(dom))
        self.name = name
        self._epoch = P.epoch

    def _save(self):
        return self.dom

    def _restore(self, s):
        self.dom = s

    def narrow(self, dom):
        dom = tuple(dom)
        if not dom:
            raise Infeasible()
        if len(dom) != len(self.dom):
            P.touch(self)
            self.dom = dom

    def __repr__(self):
        d = list(self.dom)
        return '%s in {%s}' % (self.name, ', '.join(map(repr, d[:12])) + (', ...' if len(d) > 12 else ''))


class FVal:
    """mapping from the current domain of a FinVar to host values."""

    def __init__(self, var, fn):
        self.var = var
        self.fn = fn            # dict host -> host value

    def vals(self):
        fn = self.fn
        return [fn[d] for d in self.var.dom]

    def const(self):
        """(True, value) when the valuation is constant."""
        it = iter(self.var.dom)
        v0 = self.fn[next(it)]
        for d in it:
            v = self.fn[d]
            if v != v0 or type(v) is not type(v0):
                return False, None
        return True, v0

    def __repr__(self):
        vs = list(dict.fromkeys(map(repr, self.vals())))
        return 'one-of{' + ', '.join(vs[:10]) + (', ...' if len(vs) > 10 else '') + '}'


def fval(var, fn):
    f = FVal(var, fn)
    ok, v = f.const()
    return v if ok else f


def fin(dom, name='w'):
    """A fresh word ranging over dom."""
    dom = list(dict.fromkeys(dom))
    if not dom:
        raise Infeasible()
    if len(dom) == 1:
        return dom[0]
    return FVal(FinVar(dom, name), {d: d for d in dom})


def split(var, classify, label=None):
    """Partition var's domain by classify(d); return the class chosen."""
    groups = {}
    for d in var.dom:
        groups.setdefault(classify(d), []).append(d)
    keys = list(groups)
    k = keys[choose(len(keys), label)]
    var.narrow(groups[k])
    return k


def concretise(v, label=None):
    """Enumerate the values of a finite valuation (trace partitioning)."""
    v = deref(v)
    if isinstance(v, FVal):
        def key(d):
            x = v.fn[d]
            return (type(x), x)
        return split(v.var, key, label or 'value')[1]
    return v


# --------------------------------------------------------------------------
# open words
# --------------------------------------------------------------------------
class SStr:
    """An arbitrary string.  bound: becomes another value once refined."""
    count = 0

    def __init__(self, name='s', maxlen=None, minlen=0):
        SStr.count += 1
        self.name = name
        self.bound = None
        self.neq = frozenset()
        self.preds = {}          # (kind, const) -> bool
        self.alias_neq = frozenset()     # words it is known to differ from
        self.derived = {}
        self.minlen = minlen
        self.maxlen = maxlen
        self._epoch = P.epoch

    def _save(self):
        return (self.bound, self.neq, dict(self.preds), self.alias_neq, dict(self.derived), self.minlen, self.maxlen)

    def _restore(self, s):
        self.bound, self.neq, self.preds, self.alias_neq, self.derived, self.minlen, self.maxlen = \
            s[0], s[1], dict(s[2]), s[3], dict(s[4]), s[5], s[6]

    def __repr__(self):
        if self.bound is not None:
            return repr(self.bound)
        extra = ''
        if self.neq:
            extra += ' not in {%s}' % ', '.join(sorted(map(repr, self.neq))[:8])
        for (k, c), b in self.preds.items():
            extra += ' %s%s(%r)' % ('' if b else 'not ', k, c)
        return '<%s%s>' % (self.name, extra)

    def length(self):
        """bounds of the length of the word"""
        lo, hi = self.minlen, self.maxlen
        n = self.derived.get(('len',))
        if isinstance(n, SInt):
            lo = max(lo, n.lo or 0)
            if n.hi is not None:
                hi = n.hi if hi is None else min(hi, n.hi)
        for (k, a), b in self.preds.items():
            if b and a and k in ('startswith', 'endswith', 'contains'):
                lo = max(lo, len(a))
        if lo == 0 and '' in self.neq:
            lo = 1
        return lo, hi

    # consistency of a constant with what is known
    def admits(self, c):
        if not isinstance(c, str) or c in self.neq:
            return False
        lo, hi = self.length()
        if len(c) < lo or (hi is not None and len(c) > hi):
            return False
        for (k, a), b in self.preds.items():
            if host_pred(k, a, c) != b:
                return False
        return True

    def bind(self, value):
        P.touch(self)
        self.bound = value
        if self.alias_neq:
            value = deref(value)
            for o in self.alias_neq:
                x = deref(o)
                if isinstance(value, str):
                    if x == value:
                        raise Infeasible()
                    if isinstance(x, SStr):
                        P.touch(x)
                        x.neq = x.neq | {value}
                elif isinstance(value, SStr):
                    if x is value:
                        raise Infeasible()
                    P.touch(value)
                    value.alias_neq = value.alias_neq | {o}


def host_pred(kind, arg, c):
    if kind == 'startswith':
        return c.startswith(arg)
    if kind == 'endswith':
        return c.endswith(arg)
    if kind == 'contains':
        return arg in c
    return bool(getattr(c, kind)())


class SCat:
    """concatenation of words"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return 'cat(%s)' % ', '.join(map(show, self.parts))


def deref(v):
    while isinstance(v, SStr) and v.bound is not None:
        v = v.bound
    if isinstance(v, FVal):
        ok, c = v.const()
        if ok:
            return c
    elif isinstance(v, SCat):
        for p in v.parts:
            if isinstance(p, SStr) and p.bound is not None or isinstance(p, (FVal, SCat)) and deref(p) is not p:
                return norm_cat(v.parts)
    return v


def norm_cat(parts):
    out = []
    for p in parts:
        p = deref(p)
        for q in (p.parts if isinstance(p, SCat) else (p,)):
            if isinstance(q, str):
                if q == '':
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return ''
    if len(out) == 1:
        return out[0]
    if all(isinstance(p, (str, FVal)) for p in out):
        fvs = {id(p.var) for p in out if isinstance(p, FVal)}
        if len(fvs) == 1:
            var = [p.var for p in out if isinstance(p, FVal)][0]
            return fval(var, {d: ''.join(p if isinstance(p, str) else p.fn[d] for p in out) for d in var.dom})
    return SCat(tuple(out))


def s_in(s, consts, label=None):
    """Is the open word s one of consts?  Partitions."""
    cands = [c for c in consts if isinstance(c, str) and s.admits(c)]
    cands = list(dict.fromkeys(cands))
    if not cands:
        return False
    k = choose(2, label or '%s in %s' % (s.name, cands[:6]))
    if k == 0:
        P.touch(s)
        s.neq = s.neq | frozenset(cands)
        return False
    s.bind(fin(cands, s.name))
    check_derived(s)
    return True


def check_derived(s):
    # a bound word fixes the words derived from it
    v = s.bound
    for key, d in list(s.derived.items()):
        if isinstance(d, SStr) and d.bound is None and isinstance(v, str):
            try:
                c = derive_host(v, key)
            except Exception:
                raise Infeasible()
            if not d.admits(c):
                raise Infeasible()
            d.bind(c)
        elif isinstance(d, SInt) and isinstance(v, str):
            c = derive_host(v, key)
            if not d.admits(c):
                raise Infeasible()
            d.fix(c)


def derive_host(v, key):
    kind = key[0]
    if kind == 'item':
        return v[key[1]]
    if kind == 'slice':
        return v[slice(*key[1])]
    if kind == 'len':
        return len(v)
    if kind == 'meth':
        return getattr(v, key[1])(*key[2])
    raise Incomplete('derived word %r' % (key,))


def s_known(s, kind, arg):
    """what is known of a prefix/suffix/substring fact: True, False or None"""
    known = s.preds.get((kind, arg))
    if known is not None:
        return known
    if kind in ('startswith', 'endswith', 'contains'):
        if arg == '':
            return True
        for (k, a), b in s.preds.items():
            if b:
                # positive facts
                if k == kind == 'startswith' and (a.startswith(arg)):
                    return True
                if k == kind == 'startswith' and not arg.startswith(a):
                    return False
                if k == kind == 'endswith' and a.endswith(arg):
                    return True
                if k == kind == 'endswith' and not arg.endswith(a):
                    return False
                if kind == 'contains' and k in ('startswith', 'endswith', 'contains') and arg in a:
                    return True
            else:
                if k == 'contains' and a in arg:
                    return False
                if k == kind == 'startswith' and arg.startswith(a):
                    return False
                if k == kind == 'endswith' and arg.endswith(a):
                    return False
        hi = s.length()[1]
        if hi is not None and len(arg) > hi:
            return False
    return None


def s_pred(s, kind, arg, label=None):
    """Truth of a predicate on an open word; partitions, remembers, and applies
    the obvious implications between prefix/suffix/substring facts."""
    known = s_known(s, kind, arg)
    if known is not None:
        return known
    if kind in ('startswith', 'endswith', 'contains'):
        lo, hi = s.length()
        if hi is not None and hi == len(arg):
            # the word is at most as long: everything is equality
            return s_in(s, [arg], label)
    k = choose(2, label or '%s(%s,%r)' % (kind, s.name, arg))
    P.touch(s)
    s.preds[(kind, arg)] = bool(k)
    return bool(k)


def s_nonempty(s):
    """truthiness of an open word"""
    if s.length()[0] >= 1:
        return True
    return not s_in(s, [''], 'is %s empty' % s.name)


class SInt:
    """An integer in [lo, hi] (hi None = unbounded)."""

    def __init__(self, lo, hi, name='n'):
        self.lo, self.hi, self.name = lo, hi, name
        self._epoch = P.epoch

    def _save(self):
        return (self.lo, self.hi)

    def _restore(self, s):
        self.lo, self.hi = s

    def admits(self, c):
        return (self.lo is None or c >= self.lo) and (self.hi is None or c <= self.hi)

    def fix(self, c):
        P.touch(self)
        self.lo = self.hi = c

    def const(self):
        return self.lo is not None and self.lo == self.hi

    def le(self, c, label=None):
        """self <= c ?"""
        if self.hi is not None and self.hi <= c:
            return True
        if self.lo is not None and self.lo > c:
            return False
        P_touch = P.touch
        if choose(2, label or '%s <= %d' % (self.name, c)):
            P_touch(self)
            self.hi = c
            return True
        P_touch(self)
        self.lo = c + 1
        return False

    def eq(self, c):
        if not self.admits(c):
            return False
        if not self.le(c):
            return False
        return not self.le(c - 1)

    def __repr__(self):
        return '%s in [%s,%s]' % (self.name, self.lo, '..' if self.hi is None else self.hi)


class LinInt:
    """base + offset for an SInt"""

    def __init__(self, base, off):
        self.base, self.off = base, off

    def __repr__(self):
        return '%r%+d' % (self.base, self.off)


class SVar:
    """An opaque stream identifier (an int in the analysed program)."""
    n = 0

    def __init__(self, name):
        SVar.n += 1
        self.name = name
        self.zero = None
        self._epoch = P.epoch

    def _save(self):
        return self.zero

    def _restore(self, s):
        self.zero = s

    def __repr__(self):
        return '#%s' % self.name


class Opaque:
    """A value about which nothing is known (results of unmodelled libraries)."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '<opaque %s>' % self.name


# --------------------------------------------------------------------------
# heap objects
# --------------------------------------------------------------------------
class Heap:
    _epoch = -1
    site = None
    tag = None

    def _init_heap(self):
        self._epoch = P.epoch
        self.site = P.location


class PList(Heap):
    def __init__(self, items=()):
        self.items = list(items)
        self._init_heap()

    def _save(self):
        return list(self.items)

    def _restore(self, s):
        self.items = s

    def touch(self):
        P.touch(self)

    def __repr__(self):
        return '[' + ', '.join(map(show, self.items)) + ']'


class PDeque(PList):
    pass


class PDict(Heap):
    """keys: token -> (key, value)"""
    default = None      # defaultdict factory

    def __init__(self):
        self.d = {}
        self._init_heap()

    def _save(self):
        return dict(self.d)

    def _restore(self, s):
        self.d = s

    def touch(self):
        P.touch(self)

    def __repr__(self):
        return '{' + ', '.join('%s: %s' % (show(k), show(v)) for k, v in self.d.values()) + '}'


class PSet(Heap):
    def __init__(self, frozen=False):
        self.d = {}
        self.frozen = frozen
        self._init_heap()

    def _save(self):
        return dict(self.d)

    def _restore(self, s):
        self.d = s

    def touch(self):
        P.touch(self)

    def __repr__(self):
        return '{' + ', '.join(show(k) for k in self.d.values()) + '}'


class Obj(Heap):
    payload = None

    def __init__(self, cls, attrs=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else PDict()
        self._init_heap()

    def _save(self):
        return (self.cls, self.attrs, self.payload)

    def _restore(self, s):
        self.cls, self.attrs, self.payload = s

    def get(self, name):
        e = self.attrs.d.get(name)
        return None if e is None else e[1]

    def has(self, name):
        return name in self.attrs.d

    def set(self, name, value):
        P.touch(self.attrs)
        self.attrs.d[name] = (name, value)

    def __repr__(self):
        if self.cls.is_enum and self.has('_name_'):
            return '%s.%s' % (self.cls.name, self.get('_name_'))
        return '%s(%s)' % (self.cls.name, ', '.join('%s=%s' % (k, show(v)) for k, v in self.attrs.d.values()))


class Env(Heap):
    def __init__(self, parent=None, module=None):
        self.vars = {}
        self.parent = parent
        self.module = module
        self._init_heap()

    def _save(self):
        return dict(self.vars)

    def _restore(self, s):
        self.vars = s

    def set(self, k, v):
        P.touch(self)
        self.vars[k] = v

    def delete(self, k):
        P.touch(self)
        del self.vars[k]


class ClassV(Heap):
    def __init__(self, name, bases, ns, module=None):
        self.name = name
        self.qualname = name
        self.bases = bases
        self.ns = ns                # Env-like dict holder (Heap)
        self.module = module
        self.mro = None
        self.is_enum = False
        self.members = None
        self.abstract = frozenset()
        self.host_exc = None        # for builtin exception classes
        self.dataclass = None
        self.namedtuple = None
        self.mixin = None
        self.has_opaque_base = False
        self.is_frozen = False
        self.slots = None
        self.is_abc = False
        self.builtin_base = None
        self.ann = []
        self.subs = []
        self.builtin = None         # name of the builtin type it stands for
        self.node = None
        self._init_heap()

    def _save(self):
        return None

    def _restore(self, s):
        pass

    def lookup(self, name):
        for c in self.mro:
            if name in c.ns.vars:
                return c.ns.vars[name], c
        return None, None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return '<class %s>' % self.name


class FuncV(Heap):
    def __init__(self, name, node, env, module, defaults, kwdefaults, cls=None):
        self.name = name
        self.node = node
        self.env = env
        self.module = module
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = False
        self.attrs = PDict()
        self.locals = None
        self._init_heap()

    def _save(self):
        return None

    def _restore(self, s):
        pass

    def __repr__(self):
        return '<function %s>' % self.name


class BoundM:
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_

    def __repr__(self):
        return '<bound %r of %s>' % (self.func, show(self.self_))


class BuiltinF:
    def __init__(self, name, fn, owner=None):
        self.name = name
        self.fn = fn
        self.owner = owner

    def __repr__(self):
        return '<builtin %s>' % self.name


class ModuleV(Heap):
    def __init__(self, name, env, path=None):
        self.name = name
        self.env = env
        self.path = path
        self.opaque = False
        self._init_heap()

    def _save(self):
        return None

    def _restore(self, s):
        pass

    def __repr__(self):
        return '<module %s>' % self.name


class PropertyV:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class CachedPropertyV:
    def __init__(self, f, name):
        self.f, self.name = f, name


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class PartialV:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class CacheF(Heap):
    """functools.lru_cache / cache wrapper"""

    def __init__(self, f):
        self.f = f
        self.store = PDict()
        self._init_heap()

    def _save(self):
        return None

    def _restore(self, s):
        pass

    @property
    def name(self):
        return getattr(self.f, 'name', '?')


class IterV:
    """A lazy iterator: wraps a host generator of abstract values."""

    def __init__(self, gen):
        self.gen = gen
        self.done = False
        self.result = None

    def next(self):
        return next(self.gen)


class MethodWrap:
    pass


def show(v):
    v = deref(v)
    if isinstance(v, tuple):
        return '(' + ', '.join(map(show, v)) + (',)' if len(v) == 1 else ')')
    return repr(v)
