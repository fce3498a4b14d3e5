import itertools, functools, operator, collections, enum, copy, json, os, re, dataclasses, typing, abc, contextlib, string, shlex, textwrap, types
from typing import NamedTuple, Optional, List
from enum import Enum, auto, IntEnum
from dataclasses import dataclass, field
from collections import OrderedDict, defaultdict, namedtuple, Counter, deque, ChainMap
from functools import reduce, partial, lru_cache, cache, cached_property, singledispatch, wraps, total_ordering
from itertools import chain, takewhile, dropwhile, islice, groupby, zip_longest, accumulate, product, count, repeat, starmap, tee, cycle, filterfalse, compress, permutations, combinations, pairwise

class Base:
    x = 1
    def __init__(self, a, *rest, k=2, **kw):
        self.a = a; self.rest = rest; self.k = k; self.kw = kw
    def __repr__(self): return f'B({self.a!r},{self.rest},{self.k},{self.kw})'
    @property
    def p(self): return self.a
    @p.setter
    def p(self, v): self.a = v
    @classmethod
    def mk(cls, *a): return cls(*a)
    @staticmethod
    def st(a): return a * 2
    def __len__(self): return len(self.rest)
    def __iter__(self): return iter(self.rest)
    def __contains__(self, x): return x in self.rest
    def __getitem__(self, i): return self.rest[i]
    def __eq__(self, o): return isinstance(o, Base) and self.a == o.a
    def __hash__(self): return hash(self.a)
    def __call__(self, z): return z + self.a
    def __bool__(self): return bool(self.a)
    def __add__(self, o): return Base(self.a + o.a)
    def __lt__(self, o): return self.a < o.a
class Sub(Base):
    x = 2
    def __init__(self, a): super().__init__(a, 7, 8, k=5, q=9)
    def __str__(self): return 'sub ' + super().__repr__()
class Color(Enum):
    RED = 1
    BLUE = 'b'
    def low(self): return self.name.lower()
    @classmethod
    def parse(cls, s): return cls[s.upper()]
    @property
    def v2(self): return str(self.value) * 2
class Au(Enum):
    A = auto(); B = auto()
@dataclass
class D:
    a: int
    b: list = field(default_factory=list)
    c: Optional[str] = None
@dataclass(frozen=True)
class F:
    a: int = 1
    b: str = 'x'
@dataclass(order=True)
class O:
    a: int
    b: int = 0
    def __post_init__(self): self.b += 1
class NT(NamedTuple):
    a: int
    b: str = 'q'
P = namedtuple('P', 'x y')
def t1(): return [Base(1, 2, 3, k=4, z=5), Sub(2), str(Sub(2)), Base.mk(1, 2), Base.st(3), len(Base(1, 2)), list(Base(1, 2, 3)), 2 in Base(1, 2), Base(1, 5)[0], Base(1) == Sub(1), Base(1)(4), bool(Base(0)), (Base(1) + Base(2)).a, sorted([Base(2), Base(1)]), {Base(1): 2}[Base(1)]]
def t2(): return [Color.RED.name, Color('b').low(), Color.parse('red').v2, [c.value for c in Color], Color.RED is Color(1), Color.RED == 1, Au.B.value, list(Au), Color.RED in {Color.RED}, str(Color.RED), repr(Color.BLUE), Color.__members__.keys(), isinstance(Color.RED, Color)]
def t3():
    d = D(1); e = D(1); d.b.append(2)
    return [d, e, d == D(1, [2]), F() == F(1), F(2) != F(), hash(F()) == hash(F()), O(1) < O(2), O(3).b, dataclasses.replace(F(), a=5), dataclasses.asdict(d), dataclasses.astuple(F()), [f.name for f in dataclasses.fields(D)]]
def t4(): return [NT(1), NT(1).b, NT(1)._replace(a=2), P(1, 2), P(1, 2).x, P(x=1, y=2)._asdict(), tuple(NT(3)), NT._fields, P(1, 2) == (1, 2)]
def t5():
    def g(n):
        for i in range(n):
            r = yield i
        return 'done'
    def h():
        x = yield from g(2)
        yield x
    return [list(g(3)), list(h()), sum(g(4)), next(g(2)), next(g(0), 'none'), [*g(2), 9], max(g(3)), list(zip(g(2), 'ab')), dict(enumerate(g(2)))]
def t6(): return [list(chain([1], (2,))), list(chain.from_iterable([[1], [2]])), list(takewhile(lambda x: x < 3, [1, 2, 3, 1])), list(dropwhile(lambda x: x < 3, [1, 2, 3, 1])), list(islice([1, 2, 3], 1, None)), [(k, list(v)) for k, v in groupby('aab')], list(zip_longest([1, 2], 'a', fillvalue='-')), list(accumulate([1, 2, 3])), list(product('ab', [1])), list(islice(count(2), 2)), list(repeat(1, 2)), list(starmap(pow, [(2, 3)])), list(filterfalse(None, [0, 1])), list(compress('abc', [1, 0, 1])), list(permutations([1, 2])), list(combinations([1, 2, 3], 2)), list(pairwise([1, 2, 3]))]
def t7():
    @lru_cache(maxsize=None)
    def f(x): calls.append(x); return x + 1
    calls = []
    @cache
    def g(x): return [x]
    def deco(fn):
        @wraps(fn)
        def w(*a, **k): return ('w', fn(*a, **k))
        return w
    @deco
    def h(a, b=2): return a + b
    return [f(1), f(1), calls, g(1) is g(1), h(1), h(1, b=3), h.__name__, reduce(lambda a, b: a * b, [1, 2, 3], 1), reduce(operator.add, ['a', 'b']), partial(h, 5)(), partial(int, base=2)('101')]
def t8():
    dd = defaultdict(list); dd['a'].append(1); dd['b']
    c = Counter('aab'); c.update('b')
    q = deque([1, 2]); q.appendleft(0); q.append(3); q.popleft(); q.extend([4]); q.rotate(1)
    od = OrderedDict([('a', 1), ('b', 2)]); od.move_to_end('a')
    return [dict(dd), c['a'], c['z'], c.most_common(1), list(q), q[0], len(q), list(od), ChainMap({'a': 1}, {'b': 2})['b'], od.popitem()]
def t9(x=5):
    out = []
    match x:
        case 1: out.append('one')
        case 5 | 6: out.append('five')
    for v in [[1, 2], {'k': 3}, 'str', ('a', 'b', 'c'), None, D(1), 7, [], Color.RED]:
        match v:
            case [a, b]: out.append(('two', a, b))
            case {'k': z}: out.append(('map', z))
            case str(s): out.append(('s', s))
            case (a, *r): out.append(('star', a, r))
            case None: out.append('none')
            case D(a=q): out.append(('D', q))
            case int(n) if n > 5: out.append(('big', n))
            case Color.RED: out.append('red')
            case _: out.append('other')
    return out
def t10():
    out = []
    try:
        out.append(1)
        raise ValueError('bad', 2)
    except (KeyError, ValueError) as e:
        out.append(e.args); out.append(str(e)); out.append(type(e).__name__)
    else: out.append('else')
    finally: out.append('fin')
    try: {}['x']
    except KeyError as e: out.append(repr(e)); out.append(str(e))
    try: [][1]
    except LookupError as e: out.append(str(e))
    class My(Exception):
        def __init__(self, m): super().__init__(m); self.m = m
    try:
        try: raise My('inner')
        except My as e: raise RuntimeError('outer') from e
    except RuntimeError as e: out.append(e.__cause__.m)
    with contextlib.suppress(KeyError): {}['z']
    @contextlib.contextmanager
    def cm(x):
        out.append('enter'); yield x; out.append('exit')
    with cm(3) as y: out.append(y)
    class CM:
        def __enter__(self): return self
        def __exit__(self, t, v, tb): out.append(t.__name__ if t else None); return True
    with CM(): raise ValueError
    for i in range(3):
        if i == 1: continue
        if i == 2: break
    else: out.append('noelse')
    while True:
        try: break
        finally: out.append('brk')
    return out
def t11():
    a, *b = [1, 2, 3]; (c, d), e = [1, 2], 3; *f, g = 'abc'
    x = {'a': 1, **{'b': 2}}; y = {**x, 'a': 3} | {'z': 1}
    if (n := len(b)) > 1: b.append(n)
    l = [1, 2, 3, 4]; l[1:3] = [9]; del l[0]; l += [7]; l *= 2
    s = {1, 2} | {3}; s -= {1}; s.discard(5); s.add(9)
    t = (1,) + (2,) * 2
    z = [i * j for i in range(3) if i for j in range(2)]
    return [a, b, c, d, e, f, g, x, y, n, l, sorted(s), t, z, {k: v for k, v in x.items()}, {i % 2 for i in range(4)}, l.index(9), l.count(7), l[::-1], l[-1], x.pop('a'), x.get('q', 0), x.setdefault('r', []), list(reversed(l)), sorted(y.items(), key=lambda kv: -kv[1]), [1, 2] < [1, 3], 1 < 2 <= 2, not [], 3 if l else 4, None or 'x', 0 and 1]
def t12(): return ['a,b,,c'.split(','), ' a b '.split(), 'a b'.partition(' '), 'abc'.rpartition('b'), 'abc'.find('c'), 'abc'.replace('b', 'x'), 'AbC'.lower().upper().title().swapcase(), ' x '.strip(), 'xxax'.lstrip('x'), 'ab'.startswith(('b', 'a')), 'ab'.endswith('b'), 'abc'[1:], 'abc'[::-1], '-'.join('abc'), 'a'.isalpha(), '1'.isdigit(), 'ab'.ljust(4) + '|', 'a'.rjust(3), 'a'.center(3), '7'.zfill(3), '%s-%d-%r' % ('a', 1, 'b'), '{}{x}{0!r}'.format(1, x=2) if False else '{}-{x}'.format(1, x=2), f'{1:>4}|{2.5:.2f}|{"a"!r:5}|{3:03d}', 'abc'.removeprefix('a').removesuffix('c'), 'a\tb'.expandtabs(4), 'a\nb\n'.splitlines(), 'aXbX'.rsplit('X', 1), 'abc'.translate(str.maketrans('ab', 'xy')), 'abc'.translate({ord('b'): None}), ord('a'), chr(98), 'a' in 'abc', 'abc'.index('b'), 'aab'.count('a'), 'x'.encode(), b'ab'.decode(), 'ab' * 2, 'é'.casefold(), 'a' < 'b', max('abc'), list('ab'), sorted('ba'), 'abc'.isidentifier(), 'a-b'.isalnum(), 'A'.isupper(), ' '.isspace()]
def t13(): return [list(map(lambda a, b: a + b, [1], [2])), list(filter(None, [0, 1])), any(x > 1 for x in [1, 2]), all([]), sum([1, 2], 3), min([3, 1], key=lambda v: -v), max([], default=0), abs(-1), divmod(7, 2), round(2.6), isinstance(1, (int, str)), isinstance(True, int), type(1) is int, callable(len), hasattr(Base(1), 'a'), getattr(Base(1), 'zz', 3), list(vars(Base(1)).keys()), Base(1).__class__.__name__, type(Sub(1)).__mro__[1].__name__, issubclass(Sub, Base), list(zip(*[(1, 2), (3, 4)])), dict(zip('ab', [1, 2])), set([1]) == {1}, frozenset([1]) | {2}, tuple([1]), int('3') + 1, str(None), bool('x'), list(range(5, 0, -2)), list(enumerate('ab', 1)), hash('a') == hash('a'), repr('a\n'), format(3, '03d'), 3 // 2, 2 ** 3, 7 % 3, ~1, 1 | 2, 6 & 3, 5 ^ 1, 1 << 3, -7 // 2, 1.5 + 1, hex(255), bin(5), next(iter([1])), slice(1, 2), id(1) == id(1)]
def t14():
    def outer():
        n = 0
        def inc():
            nonlocal n
            n += 1
            return n
        inc(); return inc()
    fs = [lambda i=i: i for i in range(3)]
    global GG
    GG = 4
    def kwonly(a, /, b, *, c=3): return (a, b, c)
    def va(*args, **kw): return (args, sorted(kw.items()))
    return [outer(), [f() for f in fs], GG, kwonly(1, b=2), va(1, *[2], k=1, **{'z': 2}), (lambda *a: a)(1, 2), kwonly.__name__, (lambda: (yield))is not None]
GG = 0
def t15(): return [operator.itemgetter(1)([1, 2]), operator.attrgetter('a')(Base(4)), operator.methodcaller('upper')('a'), operator.eq(1, 1), operator.not_(1), operator.contains([1], 1), operator.itemgetter('a', 'b')({'a': 1, 'b': 2}), sorted([('b', 1), ('a', 2)], key=operator.itemgetter(0)), [1, 2, 3][slice(1, None)], copy.copy([1, [2]]), copy.deepcopy({'a': [1]}), json.loads('{"a": [1, null, true]}'), json.dumps({'a': 1}), os.path.join('a', 'b'), os.path.basename('/a/b'), os.path.splitext('a.b'), os.sep, shlex.split("a 'b c'"), shlex.quote('a b'), string.ascii_lowercase[:3], textwrap.dedent('  a\n  b')]
class Meta(abc.ABC):
    @abc.abstractmethod
    def f(self): ...
    def g(self): return self.f() + 1
class Impl(Meta):
    def f(self): return 1
class Mixin:
    def hello(self): return 'hi ' + self.name
class Named(Mixin, Impl):
    name = 'n'
    __slots__ = ()
    @functools.cached_property
    def cp(self): return 5
    @classmethod
    @property
    def q(cls): return 1
class Reg:
    subs = {}
    def __init_subclass__(cls, key=None, **kw): super().__init_subclass__(**kw); Reg.subs[key] = cls.__name__
class R1(Reg, key='one'): pass
class Lazy:
    def __getattr__(self, n): return 'dyn_' + n
    def __setattr__(self, n, v): object.__setattr__(self, n, v)
class Desc:
    def __get__(self, obj, owner): return 'desc'
class HasD: d = Desc()
def t16():
    try: Meta(); r = 'no'
    except TypeError: r = 'abstract'
    z = Lazy(); z.q = 3
    setattr(z, 'w', 4); delattr(z, 'w')
    return [r, Impl().g(), Named().hello(), isinstance(Named(), Meta), Reg.subs, z.foo, z.q, HasD().d, z.w, [c.__name__ for c in Named.__mro__[:-1]], Impl.__name__, Impl.f.__qualname__, Impl.__module__ is not None, type('Dyn', (Base,), {'y': 3})(1).y]
@singledispatch
def sd(x): return 'obj'
@sd.register
def _(x: int): return 'int'
@sd.register(str)
def _(x): return 'str'
def t17(): return [sd(1), sd('a'), sd(None), re.match(r'-(\w)', '-a').group(1), bool(re.fullmatch('a+', 'aa')), re.sub('a', 'b', 'aa'), re.split(',', 'a,b'), re.findall('[ab]', 'xaxb'), re.compile('^-').match('x')]
def t18():
    x: int = 3
    y: 'List[int]'
    assert x, 'msg'
    l = [3, 1, 2]; l.sort(reverse=True); l.insert(0, 5); l.remove(1); l.extend((1, 1)); p = l.pop(0)
    d = dict(a=1); d.update(b=2); d |= {'c': 3}; k = list(d.keys() & {'a'}); d2 = d.copy(); d2.clear()
    fk = dict.fromkeys(['a', 'b'], 0)
    it = iter([1, 2]); n = next(it); rest = list(it)
    st = {1, 2}.symmetric_difference({2, 3}); sub = {1} <= {1, 2}; dj = {1}.isdisjoint({2})
    return [x, l, p, d, k, d2, fk, n, rest, sorted(st), sub, dj, list(d.values()), ('a', 1) in d.items(), len(d), max(d, key=d.get), [*d], {**d}, tuple(d), list(dict(sorted(d.items(), reverse=True)))]
