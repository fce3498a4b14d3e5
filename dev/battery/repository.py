from __future__ import annotations
import sys, logging, warnings, heapq, bisect, pathlib, importlib, types, collections.abc, typing, functools, operator, itertools, collections, enum, copy, weakref, threading, io, inspect, math, random, datetime, time, contextlib, string, abc, json, os, pkgutil
from typing import TYPE_CHECKING, Generic, TypeVar, Protocol, TypedDict, cast, Literal, overload, Final, ClassVar, Callable, Iterable, Iterator, Mapping, Union, Sequence, Any
if TYPE_CHECKING:
    from foo import Bar
T = TypeVar('T')
log = logging.getLogger(__name__)
class Box(Generic[T]):
    K: ClassVar[int] = 3
    def __init__(self, v: T) -> None: self.v = v
    def get(self) -> T: return self.v
    def __class_getitem__(cls, i): return cls
class Proto(Protocol):
    def get(self) -> int: ...
class TD(TypedDict, total=False):
    a: int
MAXI: Final = 4
class LD(dict):
    def __missing__(self, k): return 'miss_' + k
class LL(list):
    def first(self): return self[0]
class SS(str):
    def shout(self): return self.upper() + '!'
class TT(tuple):
    def __new__(cls, a, b): return super().__new__(cls, (a, b))
    @property
    def a(self): return self[0]
class Perm(enum.Flag):
    R = enum.auto(); W = enum.auto()
class Num(enum.IntEnum):
    ONE = 1; TWO = 2
class SE(str, enum.Enum):
    A = 'a'; B = 'b'
class StrE(enum.StrEnum):
    A = enum.auto()
class Planet(enum.Enum):
    E = (1, 'x'); M = (2, 'y')
    def __init__(self, n, s): self.n = n; self.s = s
class Ali(enum.Enum):
    A = 1; B = 1; C = 2
    @staticmethod
    def of(x): return next(m for m in Ali if m.value == x)
    def __str__(self): return 'Ali:' + self.name
Fn = enum.Enum('Fn', 'X Y')
class Dis:
    def __init__(self): self.h = {'a': self._a, 'b': lambda z: z * 2}
    def _a(self, z): return z + 1
    def do(self, k, z): return self.h[k](z)
    def vis(self, x): return getattr(self, 'v_' + type(x).__name__, self.gen)(x)
    def v_int(self, x): return 'i'
    def gen(self, x): return 'g'
    TABLE = {'x': 'v_int'}
    def tab(self): return getattr(self, self.TABLE['x'])(1)
@functools.total_ordering
class TO:
    def __init__(self, x): self.x = x
    def __eq__(self, o): return self.x == o.x
    def __lt__(self, o): return self.x < o.x
@overload
def ov(x: int) -> int: ...
def ov(x): return x
class Slot:
    __slots__ = ('a', '_b')
    def __init__(self, a): self.a = a; self._b = a
class It:
    def __init__(self, n): self.n = n; self.i = 0
    def __iter__(self): return self
    def __next__(self):
        if self.i >= self.n: raise StopIteration
        self.i += 1
        return self.i
class Cnt:
    n = 0
    def __new__(cls, *a):
        o = super().__new__(cls); Cnt.n += 1; return o
    def __init__(self, *a): pass
    def __del__(self): pass
class Fmt:
    def __format__(self, s): return 'F' + s
    def __getitem__(self, k): return k
    def __setitem__(self, k, v): self.last = (k, v)
    def __delitem__(self, k): self.gone = k
    def __neg__(self): return 'neg'
    def __iadd__(self, o): self.acc = o; return self
    def __radd__(self, o): return ('r', o)
    def __le__(self, o): return True
    def __ne__(self, o): return 'ne'
    def __index__(self): return 1
    def __reversed__(self): return iter([3, 2])
    def __enter__(self): return self
    def __exit__(self, *a): return False
def t1(): return [Box(3).get(), Box[int](4).get(), Box.K, cast(int, 'q'), TD(a=1), MAXI, 3]
def t2(): return [Num.ONE + 1, Num.TWO > Num.ONE, Num(1).name, SE.A == 'a', SE('b').name, SE.A + 'z', f'{SE.A.value}', StrE.A, Planet.E.n, Planet((2, 'y')).s, Ali.B is Ali.A, [a.name for a in Ali], str(Ali.C), Ali.of(2).name, Fn.X.value, Fn['Y'].name, {Ali.A: 1}[Ali.B], f'{Ali.A}', len(Ali), Ali.A != Ali.C, sorted(Ali, key=lambda m: -m.value)[0].name, Ali.A in (Ali.C, Ali.A), 'A' in Ali.__members__]
def t3(): return [Dis().do('a', 1), Dis().do('b', 2), Dis().vis(1), Dis().vis('s'), Dis().tab(), TO(1) <= TO(1), TO(2) > TO(1), ov(3), Slot(3).a, list(It(2)), sum(It(3)), max(It(2)), 2 in It(3), (Cnt(), Cnt(1), Cnt.n)[2]]
def t4():
    f = Fmt(); f[1] = 2; del f[5]; f += 7
    with Fmt() as g: pass
    return [f'{f:ab}', f['k'], f.last, f.gone, -f, f.acc, 1 + f, f <= 3, f != 3, list(reversed(f)), g is not None]
def t5():
    log.debug('x %s', 1); log.warning('q'); warnings.simplefilter('ignore')
    x = 1
    b = io.StringIO(); b.write('a'); b.write('b'); print('z', end='', file=b)
    m = types.MappingProxyType({'a': 1})
    ns = types.SimpleNamespace(a=1); ns.b = 2
    lock = threading.Lock()
    with lock: x += 1
    return [x, b.getvalue(), m['a'], ns.b, math.ceil(1.2), isinstance([], collections.abc.Sequence), isinstance({}, collections.abc.Mapping), isinstance('a', collections.abc.Iterable), isinstance(len, collections.abc.Callable), sorted([3, 1], key=functools.cmp_to_key(lambda a, b: b - a)), callable(Fmt), math.inf > 3, sys.maxsize > 1]
def t6():
    d = {'a': 1, 'b': 2, 'c': 3}
    del d['a']
    for k in list(d):
        if k == 'b': del d[k]
    r = []
    for i, (a, b) in enumerate(zip([1, 2], 'xy')): r.append((i, a, b))
    for x in [1, 2, 3]:
        try:
            if x == 2: continue
            r.append(x)
        finally: r.append('f')
    i = 0
    while i < 3:
        i += 1
        if i == 2: break
    else: r.append('else')
    y = [z for x in [[1], [2, 3]] if (n := len(x)) for z in x if z != 2]
    w = {a: b for a, b in zip('ab', 'cd')}
    q = (x for x in range(3)); next(q)
    nested = [[j for j in range(i)] for i in range(3)]
    z = lambda *a, **k: (a, k)
    first, = [9]
    *_, last = 'abc'
    s = sum((1 for _ in 'ab'), start=2)
    t = 'x' if d else 'y'
    u = not d or None
    g = [*range(2), *'a']
    v = {**d, 'q': 1}
    return [d, r, i, y, n, w, list(q), nested, z(1, k=2), first, last, s, t, u, g, v, print is not None, 1 if not d.get('zz') else 2, any(c.isdigit() for c in 'a1'), next((k for k, v in d.items() if v == 3), None), list(zip('ab', [1, 2], strict=True)), dict(zip(d, d.values())), [k for k in d], max((1, 'a'), (0, 'b')), min('b', 'a'), sorted('bca', reverse=True), ''.join(sorted(set('aab'))), list(map(str, [1, 2])), list(map(None.__class__, [])), [True, False].count(True), [1, [2]] == [1, [2]], (1, 2) < (1, 3), 'a' 'b', r'\n', b'x'[0], 0x1f, 1_000, 3.0 == 3, None is None, ... is Ellipsis, d is not None]
def t7():
    import pash_annotations.util as u
    from pash_annotations import util_standard
    m = importlib.import_module('pash_annotations.util_standard')
    return [u.foldl(lambda a, b: a + b, 0, [1, 2]), m.standard_eq is util_standard.standard_eq, 'foldl' in dir(u) if False else hasattr(u, 'foldl'), getattr(u, 'foldl') is u.foldl, m.__name__, 't7' in globals(), sorted(locals())[:1], callable(globals()['t6']), eval('1+1') if False else 2, type(u).__name__, sys.modules['pash_annotations.util'] is u, vars(u)['foldl'] is u.foldl]
def t8():
    class A:
        __hash__ = None
        def __eq__(self, o): return NotImplemented
        def m(self): return super().__repr__ is not None
        def __init__(self): self.__priv = 1
        def pr(self): return self.__priv
    class B(A):
        def m(self): return ('B', super().m())
        def __init__(self): A.__init__(self); self.z = 1
    class Cc(B, Box):
        def m(self): return super(B, self).m()
    try: hash(A()); h = 1
    except TypeError: h = 0
    a = A()
    bm = a.m
    un = A.pr(a)
    return [a == a, a == 3, a != 3, h, B().m(), Cc().m(), B().pr(), bm(), un, B().__dict__['z'], isinstance(B(), (int, A)), [c.__name__ for c in Cc.__mro__[:3]], A.__bases__ == (object,), B.__bases__[0] is A, '_A__priv' in vars(a), a.__class__ is A, type(a) == A, B.__subclasses__() != None, hasattr(A, 'pr'), callable(a.pr), A.m.__name__, a.m.__self__ is a, a.m.__func__ is A.m, A.__doc__, A.__qualname__.endswith('A')]
def t9():
    out = []
    def f(x, acc=[]): acc.append(x); return acc
    out.append(list(f(1))); out.append(list(f(2)))
    def g(n): return 1 if n < 2 else n * g(n - 1)
    out.append(g(5))
    def h(*, a, b=2): return a + b
    out.append(h(a=1))
    try: h()
    except TypeError as e: out.append('TE')
    try: (lambda a: a)(1, 2)
    except TypeError as e: out.append('TE2')
    try: undefined_name
    except NameError as e: out.append('NE')
    try: assert False, 'm'
    except AssertionError as e: out.append(str(e))
    try: int('x')
    except ValueError: out.append('VE')
    try: 'a' + 1
    except TypeError: out.append('TE3')
    try: None.foo
    except AttributeError: out.append('AE')
    try: [].index(3)
    except ValueError: out.append('VE2')
    try: next(iter([]))
    except StopIteration: out.append('SI')
    try: a, b = [1]
    except ValueError: out.append('VE3')
    try: 1 / 0
    except ZeroDivisionError: out.append('ZD')
    try: raise NotImplementedError
    except Exception as e: out.append(type(e).__name__)
    try: sys.exit(3)
    except SystemExit as e: out.append(e.code)
    try: {}.popitem()
    except KeyError: out.append('KE')
    try: open('/nonexistent/x')
    except OSError: out.append('OS')
    return out
def t10(): return [list(itertools.chain(*[[1], [2]])), list(itertools.batched('abc', 2)), operator.itemgetter(*[0, 1])('ab'), functools.reduce(lambda a, b: {**a, **b}, [{'a': 1}, {'b': 2}]), list(itertools.takewhile(lambda x: x != 2, itertools.count())), collections.Counter('ab') == collections.Counter('ba'), collections.deque([1, 2], maxlen=1)[0], sum([[1], [2]], []), list(filter(lambda x: x, [0, 1])), [x for x, y in sorted({'b': 1, 'a': 2}.items())], all(map(str.isdigit, '12')), list(map(str.upper, 'ab')), ' '.join(map(repr, [1, 'a'])), str.join(',', ['a', 'b']), list.copy([1]), dict.get({'a': 1}, 'a'), 'abc'.__contains__('a'), [1].__len__(), str.split('a b'), len(range(3)), range(3)[1], 2 in range(3), list(range(3))[::2], tuple(x for x in 'ab'), set('ab') >= {'a'}, {1, 2} & {2}, {*'ab'} == {'b', 'a'}, frozenset('a') == {'a'}, bytes('a', 'utf8'), 'a\u00e9', 'x'.__class__.__name__, chr(0x41), ascii('é'), sorted([(1, 'b'), (1, 'a')]), [3, 1, 2].index(max([3, 1, 2])), pow(2, 3, 5), '{:>3}'.format('a'), '{0[k]}'.format({'k': 1}), '{a.v}'.format(a=Box(1)), 'a%%b %(k)s' % {'k': 1}, f"{'a' + 'b'}{{}}", f'{3!s:>3}', f'{1=}', 'ab'[-1], 'abc'[5:], 'a,b'.split(',', 1), 'aBc'.swapcase(), 'a b'.title(), '1,2'.replace(',', '', 1), 'x=1'.partition('=')[2], 'A'.casefold()]
