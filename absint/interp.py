"""Path-sensitive abstract evaluator for Python syntax trees.

The evaluator walks the syntax tree of the analysed package; it never imports
or runs it.  Every branch whose condition is not determined by the abstract
values partitions the abstract state (see core.py).
"""
import ast
import os

from .core import *
from . import core

_NO = object()


def could_match(parts, c):
    """can the concatenation be the constant c (necessary condition)"""
    if not parts:
        return c == ''
    p, rest = deref(parts[0]), parts[1:]
    if isinstance(p, SCat):
        return could_match(list(p.parts) + list(rest), c)
    if isinstance(p, str):
        return c.startswith(p) and could_match(rest, c[len(p):])
    if isinstance(p, FVal):
        return any(c.startswith(x) and could_match(rest, c[len(x):]) for x in set(p.vals()))
    if not rest:
        return p.admits(c)
    return any(p.admits(c[:i]) and could_match(rest, c[i:]) for i in range(len(c) + 1))


def first_letter(parts):
    """(letter, remaining parts) when the first part has a known length >= 1"""
    p = deref(parts[0])
    if isinstance(p, str):
        return p[0], [p[1:]] + list(parts[1:])
    if isinstance(p, SStr) and p.minlen == 1 and p.maxlen == 1:
        return p, list(parts[1:])
    return None


class Interp:
    def __init__(self, repo, package='pash_annotations'):
        self.repo = repo
        self.package = package
        self.modules = {}
        self.loading = []
        self.cov_functions = set()
        self.cov_nodes = set()
        self.depth = 0
        self.effects = []           # output / file effects of the current partition
        self.fs = None              # file system model (for the CLI)
        self.cli = None             # command-line model
        self.ambient = None         # told of every use of something outside the program (C40)
        self.set_order = 0          # sets of words are gone through: 1 forward, -1 backward, 0 either way
        self.stack = []
        self.calls = 0
        self.parsed = {}
        self.trees = {}
        from . import builtins as B
        from . import stdmods as S
        self.B = B
        self.S = S
        self.builtins = {}
        self.types = {}
        B.setup(self)
        self.path_roots = [repo]
        self._exec = {}
        self._eval = {}
        for k in dir(self):
            if k.startswith('x_'):
                self._exec[getattr(ast, k[2:])] = getattr(self, k)
            elif k.startswith('e_'):
                self._eval[getattr(ast, k[2:])] = getattr(self, k)

    # ------------------------------------------------------------------ util
    def throw(self, excname, *args):
        cls = self.types[excname]
        raise PyExc(self.make_exc(cls, args), P.location)

    def make_exc(self, cls, args):
        o = Obj(cls)
        o.set('args', tuple(args))
        return o

    def exc_is(self, exc, name):
        return exc.obj.cls.issub(self.types[name])

    # --------------------------------------------------------------- modules
    def find_module(self, name):
        """-> (path, is_package) or None"""
        for root in self.path_roots:
            base = os.path.join(root, *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                return os.path.join(base, '__init__.py'), True
            if os.path.isfile(base + '.py'):
                return base + '.py', False
            if os.path.isdir(base):
                return base, True
        return None

    def parse_file(self, path):
        t = self.trees.get(path)
        if t is None:
            with open(path, encoding='utf-8') as f:
                src = f.read()
            t = ast.parse(src, path)
            self.trees[path] = t
        return t

    def import_module(self, name):
        if name in self.modules:
            m = self.modules[name]
            return m
        if '.' in name:
            parent = self.import_module(name.rsplit('.', 1)[0])
        else:
            parent = None
        loc = self.find_module(name)
        if loc is None:
            m = self.S.std_module(self, name)
            if m is None:
                self.throw('ModuleNotFoundError', "No module named '%s'" % name)
            self.modules[name] = m
            return m
        path, is_pkg = loc
        env = Env()
        env.module = env
        env.kind = 'module'
        env.file = os.path.relpath(path, self.repo)
        env.fname = '<module>'
        env.modname = name
        m = ModuleV(name, env, path)
        env.modv = m
        env.vars['__name__'] = name
        env.vars['__file__'] = path
        env.vars['__package__'] = name if is_pkg else name.rpartition('.')[0]
        env.vars['__doc__'] = None
        env.vars['__builtins__'] = Opaque('builtins')
        if is_pkg:
            env.vars['__path__'] = PList([os.path.dirname(path)])
        self.modules[name] = m
        try:
            if os.path.isfile(path):
                tree = self.parse_file(path)
                self.cov_functions.add((env.file, '<module>'))
                self.run_body(tree.body, env)
        except PyExc:
            del self.modules[name]
            raise
        if parent is not None and not parent.opaque:
            parent.env.set(name.rsplit('.', 1)[1], m)
        return m

    def run_body(self, body, env):
        for s in body:
            sig = self.exec(s, env)
            if sig is not None:
                raise Incomplete('control flow signal at module level')

    def run_script(self, path, name='__main__'):
        """Interpret a file as a script."""
        env = Env()
        env.module = env
        env.kind = 'module'
        env.file = os.path.relpath(path, self.repo)
        env.fname = '<module>'
        env.modname = name
        m = ModuleV(name, env, path)
        env.modv = m
        env.vars.update({'__name__': name, '__file__': path, '__package__': None, '__doc__': None})
        self.cov_functions.add((env.file, '<module>'))
        self.run_body(self.parse_file(path).body, env)
        return m

    # ------------------------------------------------------------ statements
    def exec(self, node, env):
        P.steps += 1
        if P.steps > 600000:
            raise Diverges('no exit within the step limit at %s:%s (%s)' % P.location)
        P.location = (env.file, node.lineno, env.fname)
        try:
            f = self._exec[type(node)]
        except KeyError:
            raise Incomplete('statement %s at %s' % (type(node).__name__, P.location))
        return f(node, env)

    def block(self, stmts, env):
        for s in stmts:
            sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def x_Expr(self, node, env):
        if isinstance(node.value, ast.Constant):
            return None
        self.eval(node.value, env)

    def x_Pass(self, node, env):
        return None

    def x_Assign(self, node, env):
        v = self.eval(node.value, env)
        for t in node.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, node, env):
        if env.kind == 'class' and isinstance(node.target, ast.Name):
            env.ann.append((node.target.id, node.annotation))
        if node.value is not None:
            self.assign(node.target, self.eval(node.value, env), env)

    def x_AugAssign(self, node, env):
        t = node.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            self.store_name(t.id, self.augop(node.op, old, self.eval(node.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(node.op, old, self.eval(node.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval_index(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augop(node.op, old, self.eval(node.value, env)))
        else:
            raise Incomplete('augmented assignment target')

    def augop(self, op, a, b):
        a = deref(a)
        if isinstance(op, ast.Add) and isinstance(a, PList):
            items = list(self.iterate(b))
            a.touch()
            a.items.extend(items)
            return a
        if isinstance(op, ast.BitOr) and isinstance(a, PDict):
            self.B.dict_update(self, a, b)
            return a
        if isinstance(a, PSet) and not a.frozen:
            r = self.binop(op, a, b)
            a.touch()
            a.d = dict(r.d)
            return a
        if isinstance(a, Obj):
            nm = {ast.Add: '__iadd__', ast.BitOr: '__ior__', ast.Sub: '__isub__'}.get(type(op))
            if nm and a.cls.lookup(nm)[0] is not None:
                return self.call(self.getattr(a, nm), [b], {})
        return self.binop(op, a, b)

    def x_If(self, node, env):
        if self.truth(self.eval(node.test, env)):
            return self.block(node.body, env)
        return self.block(node.orelse, env)

    def x_While(self, node, env):
        n = 0
        while True:
            P.location = (env.file, node.lineno, env.fname)
            P.tick()
            if not self.truth(self.eval(node.test, env)):
                return self.block(node.orelse, env)
            sig = self.block(node.body, env)
            if sig is not None:
                if sig == 'break':
                    return None
                if sig != 'continue':
                    return sig
            n += 1
            if n > 5000:
                raise Diverges('loop does not terminate at %s:%s (%s)' % (env.file, node.lineno, env.fname))

    def x_For(self, node, env):
        it = self.iterate(self.eval(node.iter, env))
        for v in it:
            P.tick()
            self.assign(node.target, v, env)
            sig = self.block(node.body, env)
            if sig is not None:
                if sig == 'break':
                    return None
                if sig != 'continue':
                    return sig
        return self.block(node.orelse, env)

    def x_Break(self, node, env):
        return 'break'

    def x_Continue(self, node, env):
        return 'continue'

    def x_Return(self, node, env):
        v = None if node.value is None else self.eval(node.value, env)
        return ('return', v, P.location)

    def x_Raise(self, node, env):
        if node.exc is None:
            if not self.exc_stack:
                self.throw('RuntimeError', 'No active exception to reraise')
            raise PyExc(self.exc_stack[-1], P.location)
        e = self.eval(node.exc, env)
        if isinstance(e, ClassV):
            e = self.call(e, [], {})
        cause = self.eval(node.cause, env) if node.cause is not None else None
        if isinstance(e, Opaque):
            raise Incomplete('raise of %r' % e)
        if isinstance(e, Obj) and node.cause is not None:
            if isinstance(cause, ClassV):
                cause = self.call(cause, [], {})
            e.set('__cause__', cause)
        if isinstance(e, Obj) and self.exc_stack and e is not self.exc_stack[-1] and '__context__' not in e.attrs.d:
            e.set('__context__', self.exc_stack[-1])
        if not (isinstance(e, Obj) and e.cls.issub(self.types['BaseException'])):
            self.throw('TypeError', 'exceptions must derive from BaseException')
        raise PyExc(e, P.location)

    exc_stack = []

    def x_Try(self, node, env):
        sig = None
        try:
            try:
                sig = self.block(node.body, env)
                if sig is None and node.orelse:
                    # exceptions of the else block are not caught here
                    sig = _NO
            except PyExc as ex:
                sig = self.handle(node, ex, env)
            if sig is _NO:
                sig = self.block(node.orelse, env)
        except PyExc:
            if node.finalbody:
                fs = self.block(node.finalbody, env)
                if fs is not None:
                    return fs
            raise
        if node.finalbody:
            fs = self.block(node.finalbody, env)
            if fs is not None:
                return fs
        return sig

    def handle(self, node, ex, env):
        for h in node.handlers:
            if h.type is None:
                match = True
            else:
                t = self.eval(h.type, env)
                ts = t if isinstance(t, tuple) else (t,)
                match = False
                for c in ts:
                    if isinstance(c, Opaque):
                        raise Incomplete('except %r' % c)
                    if isinstance(c, ClassV) and ex.obj.cls.issub(c):
                        match = True
            if match:
                if h.name:
                    self.store_name(h.name, ex.obj, env)
                self.exc_stack = self.exc_stack + [ex.obj]
                try:
                    return self.block(h.body, env)
                finally:
                    self.exc_stack = self.exc_stack[:-1]
        raise ex

    def x_With(self, node, env):
        return self.with_items(node, list(node.items), env)

    def with_items(self, node, items, env):
        if not items:
            return self.block(node.body, env)
        it = items[0]
        mgr = self.eval(it.context_expr, env)
        enter, exit_ = self.B.context_manager(self, mgr)
        v = enter()
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, env)
        try:
            sig = self.with_items(node, items[1:], env)
        except PyExc as ex:
            if self.truth(exit_(ex)):
                return None
            raise
        exit_(None)
        return sig

    def x_Assert(self, node, env):
        if not self.truth(self.eval(node.test, env)):
            args = [] if node.msg is None else [self.eval(node.msg, env)]
            self.throw('AssertionError', *args)

    def x_Global(self, node, env):
        return None

    x_Nonlocal = x_Global

    def x_Delete(self, node, env):
        for t in node.targets:
            self.delete(t, env)

    def delete(self, t, env):
        if isinstance(t, ast.Name):
            e = self.scope_of(t.id, env)
            if t.id not in e.vars:
                self.throw('NameError', t.id)
            e.delete(t.id)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.delattr(o, t.attr)
        elif isinstance(t, ast.Subscript):
            self.delitem(self.eval(t.value, env), self.eval_index(t.slice, env))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.delete(x, env)
        else:
            raise Incomplete('del target')

    def x_Import(self, node, env):
        for a in node.names:
            m = self.import_module(a.name)
            if a.asname:
                self.store_name(a.asname, m, env)
            else:
                self.store_name(a.name.split('.')[0], self.modules[a.name.split('.')[0]], env)

    def x_ImportFrom(self, node, env):
        name = node.module or ''
        if node.level:
            pkg = env.module.vars.get('__package__') or ''
            parts = pkg.split('.') if pkg else []
            if node.level > 1:
                parts = parts[:len(parts) - (node.level - 1)]
            name = '.'.join(parts + ([name] if name else []))
        if name == '__future__':
            return
        m = self.import_module(name)
        for a in node.names:
            if a.name == '*':
                if m.opaque:
                    raise Incomplete('star import from %s' % name)
                all_ = m.env.vars.get('__all__')
                names = [k for k in m.env.vars if not k.startswith('_')] if all_ is None else \
                    list(self.iterate(all_))
                for k in names:
                    self.store_name(k, m.env.vars[k], env)
                continue
            v = m.env.vars.get(a.name, _NO) if not m.opaque else self.S.opaque_attr(self, m, a.name)
            if v is _NO:
                if not m.opaque and self.find_module(name + '.' + a.name):
                    v = self.import_module(name + '.' + a.name)
                else:
                    self.throw('ImportError', "cannot import name '%s' from '%s'" % (a.name, name))
            self.store_name(a.asname or a.name, v, env)

    def x_FunctionDef(self, node, env):
        f = self.make_function(node, env)
        for d in reversed(node.decorator_list):
            f = self.call(self.eval(d, env), [f], {})
        self.store_name(node.name, f, env)

    def x_ClassDef(self, node, env):
        bases = []
        for b in node.bases:
            if isinstance(b, ast.Starred):
                bases.extend(self.iterate(self.eval(b.value, env)))
            else:
                bases.append(self.eval(b, env))
        kw = {k.arg: self.eval(k.value, env) for k in node.keywords}
        c = self.B.build_class(self, node, bases, kw, env)
        for d in reversed(node.decorator_list):
            c = self.call(self.eval(d, env), [c], {})
        self.store_name(node.name, c, env)

    def x_Match(self, node, env):
        v = self.eval(node.subject, env)
        for case in node.cases:
            if self.pattern(case.pattern, v, env) and \
                    (case.guard is None or self.truth(self.eval(case.guard, env))):
                return self.block(case.body, env)
        return None

    def pattern(self, p, v, env):
        v = deref(v)
        if isinstance(p, ast.MatchValue):
            return self.eq(v, self.eval(p.value, env))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, env):
                return False
            if p.name:
                self.store_name(p.name, v, env)
            return True
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, PList)):
                return False
            items = list(v) if isinstance(v, tuple) else list(v.items)
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if not stars:
                return len(items) == len(p.patterns) and all(
                    self.pattern(q, x, env) for q, x in zip(p.patterns, items))
            i = stars[0]
            after = len(p.patterns) - i - 1
            if len(items) < len(p.patterns) - 1:
                return False
            for q, x in zip(p.patterns[:i], items):
                if not self.pattern(q, x, env):
                    return False
            if p.patterns[i].name:
                self.store_name(p.patterns[i].name, PList(items[i:len(items) - after]), env)
            return all(self.pattern(q, x, env)
                       for q, x in zip(p.patterns[i + 1:], items[len(items) - after:]))
        if isinstance(p, ast.MatchMapping):
            if not isinstance(v, PDict):
                return False
            for k, q in zip(p.keys, p.patterns):
                found, x = self.dict_get(v, self.eval(k, env))
                if not found or not self.pattern(q, x, env):
                    return False
            return True
        if isinstance(p, ast.MatchClass):
            cls = self.eval(p.cls, env)
            if not self.B.isinstance_(self, v, cls):
                return False
            if p.patterns:
                if cls.builtin in ('str', 'int', 'float', 'bytes', 'list', 'tuple', 'dict', 'bool') \
                        and len(p.patterns) == 1:
                    if not self.pattern(p.patterns[0], v, env):
                        return False
                else:
                    ma = list(self.iterate(self.getattr(cls, '__match_args__')))
                    for nm, q in zip(ma, p.patterns):
                        if not self.pattern(q, self.getattr(v, nm), env):
                            return False
            for nm, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.hasattr(v, nm) or not self.pattern(q, self.getattr(v, nm), env):
                    return False
            return True
        raise Incomplete('match pattern %s' % type(p).__name__)

    # ---------------------------------------------------------------- scopes
    def lookup(self, name, env):
        e = env
        if env.kind == 'func' and name in env.globals_:
            e = env.module
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            if e.kind == 'func' and name in e.locals_ and name not in e.nonlocals_:
                if e is env:
                    self.throw('UnboundLocalError', name)
                self.throw('NameError', name)
            e = e.parent
            while e is not None and e.kind == 'class':
                e = e.parent
        m = env.module
        if name in m.vars:
            return m.vars[name]
        if name in self.builtins:
            return self.builtins[name]
        self.throw('NameError', "name '%s' is not defined" % name)

    def scope_of(self, name, env):
        if env.kind == 'comp':
            if name in env.locals_:
                return env
            return self.scope_of(name, env.parent or env.module)
        if env.kind == 'func':
            if name in env.globals_:
                return env.module
            if name in env.nonlocals_:
                e = env.parent
                while e is not None:
                    if e.kind in ('func',) and name in e.locals_:
                        return e
                    e = e.parent
                raise Incomplete('nonlocal %s' % name)
        if env.kind == 'class' and name in getattr(env, 'globals_', ()):
            return env.module
        return env

    def store_name(self, name, v, env):
        self.scope_of(name, env).set(name, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.scope_of(t.id, env).set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, env), self.eval_index(t.slice, env), v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, PList(self.iterate(v)), env)
        else:
            raise Incomplete('assignment target')

    def unpack(self, elts, v, env):
        v = deref(v)
        if v is None or isinstance(v, (int, float)) or isinstance(v, (FuncV, SVar, SInt)):
            self.throw('TypeError', 'cannot unpack non-iterable object')
        if isinstance(v, Opaque):
            for e in elts:
                self.assign(e, Opaque(v.name + '[]'), env)
            return
        items = list(self.iterate(v))
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if not stars:
            if len(items) != len(elts):
                self.throw('ValueError', 'wrong number of values to unpack')
            for e, x in zip(elts, items):
                self.assign(e, x, env)
            return
        i = stars[0]
        after = len(elts) - i - 1
        if len(items) < len(elts) - 1:
            self.throw('ValueError', 'not enough values to unpack')
        for e, x in zip(elts[:i], items):
            self.assign(e, x, env)
        self.assign(elts[i].value, PList(items[i:len(items) - after]), env)
        for e, x in zip(elts[i + 1:], items[len(items) - after:]):
            self.assign(e, x, env)

    # ----------------------------------------------------------- expressions
    def eval(self, node, env):
        try:
            f = self._eval[type(node)]
        except KeyError:
            raise Incomplete('expression %s at %s' % (type(node).__name__, P.location))
        return f(node, env)

    def e_Constant(self, node, env):
        return node.value

    def e_Name(self, node, env):
        return self.lookup(node.id, env)

    def e_Attribute(self, node, env):
        return self.getattr(self.eval(node.value, env), node.attr)

    def e_Tuple(self, node, env):
        return tuple(self.eval_elts(node.elts, env))

    def eval_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.iterate(self.eval(e.value, env)))
            else:
                out.append(self.eval(e, env))
        return out

    def e_List(self, node, env):
        return PList(self.eval_elts(node.elts, env))

    def e_Set(self, node, env):
        s = PSet()
        for v in self.eval_elts(node.elts, env):
            self.set_add(s, v)
        return s

    def e_Dict(self, node, env):
        d = PDict()
        for k, v in zip(node.keys, node.values):
            if k is None:
                self.B.dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                self.dict_set(d, kk, self.eval(v, env))
        return d

    def e_BoolOp(self, node, env):
        isand = isinstance(node.op, ast.And)
        for i, v in enumerate(node.values):
            r = self.eval(v, env)
            if i == len(node.values) - 1:
                return r
            t = self.truth(r)
            if t != isand:
                return r if not isinstance(r, Opaque) else t

    def e_UnaryOp(self, node, env):
        v = self.eval(node.operand, env)
        if isinstance(node.op, ast.Not):
            return not self.truth(v)
        v = deref(v)
        if isinstance(v, (int, float)):
            if isinstance(node.op, ast.USub):
                return -v
            if isinstance(node.op, ast.UAdd):
                return +v
            return ~v
        if isinstance(v, FVal):
            return self.pointwise(lambda x: -x, v)
        if isinstance(v, Opaque):
            return v
        if isinstance(v, (str, PList, PDict, tuple, type(None))):
            self.throw('TypeError', 'bad operand type for unary operator')
        if isinstance(v, Obj):
            nm = {ast.USub: '__neg__', ast.UAdd: '__pos__', ast.Invert: '__invert__'}[type(node.op)]
            m = v.cls.lookup(nm)[0]
            if m is not None:
                return self.call(self.bind(m, v, v.cls), [], {})
            if not v.cls.mixin and not v.cls.builtin_base:
                self.throw('TypeError', 'bad operand type for unary operator')
        raise Incomplete('unary op on %s' % show(v))

    def e_BinOp(self, node, env):
        a = self.eval(node.left, env)
        b = self.eval(node.right, env)
        return self.binop(node.op, a, b)

    def e_Compare(self, node, env):
        left = self.eval(node.left, env)
        for op, r in zip(node.ops, node.comparators):
            right = self.eval(r, env)
            res = self.compare(op, left, right)
            if not res:
                return False
            left = right
        return True

    def e_IfExp(self, node, env):
        return self.eval(node.body if self.truth(self.eval(node.test, env)) else node.orelse, env)

    def e_Lambda(self, node, env):
        return self.make_function(node, env)

    def e_NamedExpr(self, node, env):
        v = self.eval(node.value, env)
        e = env
        while e.kind == 'comp':
            e = e.parent or e.module
        self.scope_of(node.target.id, e).set(node.target.id, v)
        return v

    def e_JoinedStr(self, node, env):
        parts = []
        for p in node.values:
            if isinstance(p, ast.Constant):
                parts.append(p.value)
            else:
                parts.append(self.e_FormattedValue(p, env))
        return self.concat(parts)

    def e_FormattedValue(self, node, env):
        v = self.eval(node.value, env)
        if node.conversion == ord('r'):
            v = self.B.repr_(self, v)
        elif node.conversion in (ord('s'), ord('a')):
            v = self.B.str_(self, v)
        spec = '' if node.format_spec is None else self.eval(node.format_spec, env)
        return self.B.format_(self, v, spec)

    def concat(self, parts):
        ps = []
        for p in parts:
            p = deref(p)
            if isinstance(p, FVal):
                p = self.refresh(p)
            elif isinstance(p, self.S.CmdStr):
                p = p.text
            ps.append(p)
        if all(isinstance(p, str) for p in ps):
            return ''.join(ps)
        return norm_cat(ps)

    def e_Subscript(self, node, env):
        v = self.eval(node.value, env)
        return self.getitem(v, self.eval_index(node.slice, env))

    def eval_index(self, node, env):
        if isinstance(node, ast.Slice):
            return slice(*[None if x is None else deref(self.eval(x, env))
                           for x in (node.lower, node.upper, node.step)])
        return self.eval(node, env)

    def e_Slice(self, node, env):
        return self.eval_index(node, env)

    def e_Starred(self, node, env):
        raise Incomplete('starred expression')

    def e_ListComp(self, node, env):
        out = PList()
        for v in self.comp(node.elt, node.generators, env):
            out.items.append(v)
        return out

    def e_SetComp(self, node, env):
        s = PSet()
        for v in self.comp(node.elt, node.generators, env):
            self.set_add(s, v)
        return s

    def e_DictComp(self, node, env):
        d = PDict()
        for k, v in self.comp((node.key, node.value), node.generators, env):
            self.dict_set(d, k, v)
        return d

    def e_GeneratorExp(self, node, env):
        first = self.iterate(self.eval(node.generators[0].iter, env))
        return IterV(self.comp(node.elt, node.generators, env, first))

    def comp(self, elt, gens, env, first=None):
        cenv = Env(env)
        cenv.module = env.module
        cenv.kind = 'comp'
        cenv.file = env.file
        cenv.fname = env.fname
        cenv.fn = getattr(env, 'fn', None)
        names = set()
        for g in gens:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cenv.locals_ = names
        cenv.globals_ = ()
        cenv.nonlocals_ = ()
        if env.kind == 'class':
            # comprehension bodies do not see class scope, except the first iterable
            if first is None:
                first = self.iterate(self.eval(gens[0].iter, env))

        def rec(i):
            if i == len(gens):
                if isinstance(elt, tuple):
                    yield self.eval(elt[0], cenv), self.eval(elt[1], cenv)
                else:
                    yield self.eval(elt, cenv)
                return
            g = gens[i]
            if i == 0 and first is not None:
                it = first
            else:
                it = self.iterate(self.eval(g.iter, env if i == 0 else cenv))
            for v in it:
                P.tick()
                self.assign(g.target, v, cenv)
                ok = True
                for c in g.ifs:
                    if not self.truth(self.eval(c, cenv)):
                        ok = False
                        break
                if ok:
                    yield from rec(i + 1)

        return rec(0)

    def e_Call(self, node, env):
        # zero-argument super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args \
                and not self.name_bound_user('super', env):
            e = env
            while e is not None and not (e.kind == 'func' and e.fn is not None and e.fn.cls is not None):
                e = e.parent
            if e is None:
                raise Incomplete('super() outside a method')
            a = e.fn.node.args
            first = (a.posonlyargs + a.args)[0].arg
            return SuperV(e.fn.cls, e.vars[first])
        f = self.eval(node.func, env)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iterate(self.eval(a.value, env)))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in node.keywords:
            if k.arg is None:
                m = self.eval(k.value, env)
                for kk, vv in self.B.dict_items(self, m):
                    kw[deref(kk)] = vv
            else:
                kw[k.arg] = self.eval(k.value, env)
        loc = P.location
        if isinstance(f, BuiltinF):
            if f.name in ('exec', 'eval', 'globals', 'locals', 'vars', 'dir'):
                return f.fn(self, args, kw, env)
        r = self.call(f, args, kw)
        P.location = loc
        return r

    def name_bound_user(self, name, env):
        e = env
        while e is not None:
            if name in e.vars:
                return True
            e = e.parent
        return name in env.module.vars

    def e_Await(self, node, env):
        raise Incomplete('await')

    def e_Yield(self, node, env):
        raise Incomplete('yield in an unsupported position at %s' % (P.location,))

    e_YieldFrom = e_Yield

    # ------------------------------------------------------------- functions
    def fn_scope(self, node):
        """(locals, globals, nonlocals, is_generator) of a function node"""
        info = getattr(node, '_scope', None)
        if info is not None:
            return info
        loc, glo, non = set(), set(), set()
        gen = [False]
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            loc.add(x.arg)
        if a.vararg:
            loc.add(a.vararg.arg)
        if a.kwarg:
            loc.add(a.kwarg.arg)

        def visit(n, incomp=False):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                loc.add(n.name)
                for d in n.decorator_list:
                    visit(d)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for c in ast.walk(n):
                    if isinstance(c, ast.NamedExpr):
                        loc.add(c.target.id)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, ast.Global):
                glo.update(n.names)
            elif isinstance(n, ast.Nonlocal):
                non.update(n.names)
            elif isinstance(n, (ast.Yield, ast.YieldFrom)):
                gen[0] = True
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    if al.name != '*':
                        loc.add((al.asname or al.name).split('.')[0])
            elif isinstance(n, ast.ExceptHandler) and n.name:
                loc.add(n.name)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                loc.add(n.name)
            for c in ast.iter_child_nodes(n):
                visit(c)

        body = node.body if isinstance(node.body, list) else [node.body]
        for s in body:
            visit(s)
        info = (frozenset(loc - glo - non), frozenset(glo), frozenset(non), gen[0])
        node._scope = info
        return info

    def make_function(self, node, env):
        a = node.args
        defaults = [self.eval(d, env) for d in a.defaults]
        kwd = {}
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[k.arg] = self.eval(d, env)
        parent = env
        while parent is not None and parent.kind == 'class':
            parent = parent.parent
        if parent is not None and parent.kind == 'module':
            parent = None
        name = getattr(node, 'name', '<lambda>')
        f = FuncV(name, node, parent, env.module, defaults, kwd)
        f.is_gen = self.fn_scope(node)[3]
        f.defenv = env
        prefix = env.fname + '.' if env.fname != '<module>' else ''
        f.qualname = prefix + name
        f.file = env.file
        return f

    def call(self, f, args, kw=None):
        kw = kw or {}
        f = deref(f)
        if isinstance(f, FuncV):
            return self.call_function(f, args, kw)
        if isinstance(f, BoundM):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, BuiltinF):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.B.instantiate(self, f, args, kw)
        if isinstance(f, PartialV):
            k = dict(f.kwargs)
            k.update(kw)
            return self.call(f.f, list(f.args) + list(args), k)
        if isinstance(f, CacheF):
            return self.B.call_cached(self, f, args, kw)
        if isinstance(f, Obj):
            c = f.cls.lookup('__call__')[0]
            if c is not None:
                return self.call(self.bind(c, f, f.cls), args, kw)
            self.throw('TypeError', "'%s' object is not callable" % f.cls.name)
        if isinstance(f, Opaque):
            if self.ambient is not None:
                self.S.opaque_call(self, f.name)
            return Opaque(f.name + '()')
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kw)
        if f is None or isinstance(f, (str, int, float, PList, PDict, PSet, tuple, ModuleV, SStr, FVal)):
            self.throw('TypeError', "object is not callable")
        raise Incomplete('call of %s' % show(f))

    def bind_args(self, f, args, kw):
        a = f.node.args
        pos = a.posonlyargs + a.args
        names = [x.arg for x in pos]
        vals = {}
        nargs = len(args)
        if nargs > len(names):
            if not a.vararg:
                self.throw('TypeError', '%s() takes %d positional arguments but %d were given'
                           % (f.name, len(names), nargs))
        for n, v in zip(names, args):
            vals[n] = v
        if a.vararg:
            vals[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwonly = {x.arg for x in a.kwonlyargs}
        posonly = {x.arg for x in a.posonlyargs}
        for k, v in kw.items():
            if (k in names and k not in posonly) or k in kwonly:
                if k in vals:
                    self.throw('TypeError', "%s() got multiple values for argument '%s'" % (f.name, k))
                vals[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw('TypeError', "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[n] = f.defaults[j]
                else:
                    self.throw('TypeError', "%s() missing required argument: '%s'" % (f.name, n))
        for k in kwonly:
            if k not in vals:
                if k in f.kwdefaults:
                    vals[k] = f.kwdefaults[k]
                else:
                    self.throw('TypeError', "%s() missing keyword-only argument: '%s'" % (f.name, k))
        if a.kwarg:
            d = PDict()
            for k, v in extra.items():
                d.d[k] = (k, v)
            vals[a.kwarg.arg] = d
        return vals

    def call_function(self, f, args, kw):
        self.calls += 1
        if self.depth > 120:
            self.throw('RecursionError', 'maximum recursion depth exceeded')
        vals = self.bind_args(f, args, kw)
        env = Env(f.env)
        env.module = f.module
        env.kind = 'func'
        env.file = f.file
        env.fname = f.qualname
        env.fn = f
        loc, glo, non, gen = self.fn_scope(f.node)
        env.locals_, env.globals_, env.nonlocals_ = loc, glo, non
        env.vars = vals
        self.cov_functions.add((f.file, f.qualname))
        caller = P.location
        if gen:
            it = IterV(None)
            it.gen = self.run_gen(f, env, it)
            return it
        self.depth += 1
        self.stack.append((f.file, f.qualname, caller))
        try:
            if isinstance(f.node, ast.Lambda):
                P.location = (f.file, f.node.lineno, f.qualname)
                return self.eval(f.node.body, env)
            sig = self.block(f.node.body, env)
        except PyExc as ex:
            ex.trace.append((f.file, f.qualname))
            raise
        finally:
            self.depth -= 1
            self.stack.pop()
        if sig is None:
            return None
        if isinstance(sig, tuple):
            return sig[1]
        raise Incomplete('stray loop control')

    # generator functions: a generator version of the statement walker
    def run_gen(self, f, env, it):
        r = yield from self.g_block(f.node.body, env)
        it.result = r[1] if isinstance(r, tuple) else None

    def has_yield(self, node):
        h = getattr(node, '_hasy', None)
        if h is None:
            h = False
            todo = [node]
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    h = True
                    break
                if n is not node and isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            node._hasy = h
        return h

    def g_block(self, stmts, env):
        for s in stmts:
            if self.has_yield(s):
                sig = yield from self.g_stmt(s, env)
            else:
                sig = self.exec(s, env)
            if sig is not None:
                return sig
        return None

    def g_expr(self, node, env):
        if isinstance(node, ast.Yield):
            v = None if node.value is None else self.eval(node.value, env)
            yield v
            return None
        if isinstance(node, ast.YieldFrom):
            it = deref(self.eval(node.value, env))
            for v in self.iterate(it):
                yield v
            return getattr(it, 'result', None)
        if self.has_yield(node):
            raise Incomplete('yield inside a compound expression')
        return self.eval(node, env)

    def g_stmt(self, s, env):
        P.tick()
        P.location = (env.file, s.lineno, env.fname)
        if isinstance(s, ast.Expr):
            yield from self.g_expr(s.value, env)
            return None
        if isinstance(s, ast.Assign):
            v = yield from self.g_expr(s.value, env)
            for t in s.targets:
                self.assign(t, v, env)
            return None
        if isinstance(s, ast.Return):
            v = yield from self.g_expr(s.value, env)
            return ('return', v, P.location)
        if isinstance(s, ast.If):
            return (yield from self.g_block(s.body if self.truth(self.eval(s.test, env)) else s.orelse, env))
        if isinstance(s, ast.For):
            for v in self.iterate(self.eval(s.iter, env)):
                self.assign(s.target, v, env)
                sig = yield from self.g_block(s.body, env)
                if sig == 'break':
                    return None
                if isinstance(sig, tuple):
                    return sig
            return (yield from self.g_block(s.orelse, env))
        if isinstance(s, ast.While):
            n = 0
            while self.truth(self.eval(s.test, env)):
                sig = yield from self.g_block(s.body, env)
                if sig == 'break':
                    return None
                if isinstance(sig, tuple):
                    return sig
                n += 1
                if n > 5000:
                    raise Diverges('loop does not terminate at %s:%s (%s)' % (env.file, s.lineno, env.fname))
            return (yield from self.g_block(s.orelse, env))
        if isinstance(s, ast.Try):
            sig = None
            try:
                try:
                    sig = yield from self.g_block(s.body, env)
                except PyExc as ex:
                    sig = self.handle(s, ex, env)
                else:
                    if sig is None:
                        sig = yield from self.g_block(s.orelse, env)
            finally:
                if s.finalbody:
                    self.block(s.finalbody, env)
            return sig
        if isinstance(s, ast.With):
            mgr = self.eval(s.items[0].context_expr, env)
            enter, exit_ = self.B.context_manager(self, mgr)
            v = enter()
            if s.items[0].optional_vars is not None:
                self.assign(s.items[0].optional_vars, v, env)
            try:
                sig = yield from self.g_block(s.body, env)
            except PyExc as ex:
                if self.truth(exit_(ex)):
                    return None
                raise
            exit_(None)
            return sig
        raise Incomplete('yield inside %s' % type(s).__name__)

    # ------------------------------------------------------------ attributes
    def bind(self, v, obj, cls):
        if isinstance(v, (FuncV, CacheF)):
            return BoundM(v, obj)
        if isinstance(v, BuiltinF) and v.owner == 'method':
            return BoundM(v, obj)
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return BoundM(v.f, cls)
        if isinstance(v, PropertyV):
            return self.call(v.fget, [obj], {})
        if isinstance(v, CachedPropertyV):
            r = self.call(v.f, [obj], {})
            obj.set(v.name, r)
            return r
        if isinstance(v, PartialV):
            return v
        if isinstance(v, Obj):
            get = v.cls.lookup('__get__')[0]
            if get is not None:
                return self.call(get, [v, obj, cls], {})
        return v

    def hasattr(self, o, name):
        try:
            self.getattr(o, name)
            return True
        except PyExc as ex:
            if self.exc_is(ex, 'AttributeError'):
                return False
            raise

    def getattr(self, o, name):
        o = deref(o)
        if isinstance(o, Obj):
            v, c = o.cls.lookup(name)
            if isinstance(v, (PropertyV,)) or (isinstance(v, Obj) and v.cls.lookup('__set__')[0] is not None):
                return self.bind(v, o, o.cls)
            e = o.attrs.d.get(name)
            if e is not None:
                return e[1]
            if v is not None or c is not None:
                return self.bind(v, o, o.cls)
            r = self.B.obj_special(self, o, name)
            if r is not _NO:
                return r
            ga, _ = o.cls.lookup('__getattr__')
            if ga is not None:
                return self.call(ga, [o, name], {})
            if o.cls.has_opaque_base:
                return Opaque('%s.%s' % (o.cls.name, name))
            self.throw('AttributeError', "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(o, ModuleV):
            if o.opaque:
                return self.S.opaque_attr(self, o, name)
            if name in o.env.vars:
                return o.env.vars[name]
            if name == '__dict__':
                return self.B.module_dict(self, o)
            self.throw('AttributeError', "module '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, ClassV):
            v, c = o.lookup(name)
            if c is not None:
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return BoundM(v.f, o)
                if isinstance(v, BuiltinF) and v.owner == 'classmethod':
                    return BoundM(v, o)
                if isinstance(v, Obj) and v.cls.lookup('__get__')[0] is not None:
                    return self.call(v.cls.lookup('__get__')[0], [v, None, o], {})
                return v
            r = self.B.class_special(self, o, name)
            if r is not _NO:
                return r
            if o.has_opaque_base:
                return Opaque('%s.%s' % (o.name, name))
            self.throw('AttributeError', "type object '%s' has no attribute '%s'" % (o.name, name))
        if isinstance(o, SuperV):
            obj = o.obj
            start = obj.cls if isinstance(obj, Obj) else obj
            mro = start.mro
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.ns.vars:
                    v = c.ns.vars[name]
                    if isinstance(obj, ClassV) and isinstance(v, FuncV) and name != '__new__':
                        return v
                    if name == '__new__':
                        return v.f if isinstance(v, StaticM) else v
                    return self.bind(v, obj, start)
            r = self.B.super_special(self, o, name)
            if r is not _NO:
                return r
            self.throw('AttributeError', "'super' object has no attribute '%s'" % name)
        if isinstance(o, Opaque):
            return Opaque('%s.%s' % (o.name, name))
        return self.B.value_attr(self, o, name)

    def setattr(self, o, name, v):
        o = deref(o)
        if isinstance(o, Obj):
            cv, _ = o.cls.lookup(name)
            if isinstance(cv, PropertyV):
                if cv.fset is None:
                    self.throw('AttributeError', "property '%s' has no setter" % name)
                self.call(cv.fset, [o, v], {})
                return
            if isinstance(cv, Obj) and cv.cls.lookup('__set__')[0] is not None:
                self.call(cv.cls.lookup('__set__')[0], [cv, o, v], {})
                return
            sa, c = o.cls.lookup('__setattr__')
            if isinstance(sa, FuncV):
                self.call(sa, [o, name, v], {})
                return
            if o.cls.is_frozen:
                self.throw('AttributeError', "cannot assign to field '%s'" % name)
            if o.cls.slots is not None and name not in o.cls.slots:
                self.throw('AttributeError', name)
            o.set(name, v)
            return
        if isinstance(o, ClassV):
            o.ns.set(name, v)
            return
        if isinstance(o, ModuleV):
            o.env.set(name, v)
            return
        if isinstance(o, FuncV):
            P.touch(o.attrs)
            o.attrs.d[name] = (name, v)
            return
        if isinstance(o, Opaque):
            return
        self.throw('AttributeError', "object has no attribute '%s'" % name)

    def delattr(self, o, name):
        if isinstance(o, Obj):
            if name not in o.attrs.d:
                self.throw('AttributeError', name)
            P.touch(o.attrs)
            del o.attrs.d[name]
            return
        raise Incomplete('delattr on %s' % show(o))

    # ------------------------------------------------------- items and slices
    def refresh(self, f):
        ok, c = f.const()
        return c if ok else f

    def getitem(self, o, k):
        return self.B.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.B.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.B.delitem(self, o, k)

    def iterate(self, v):
        return self.B.iterate(self, v)

    # ------------------------------------------------------------ operations
    def pointwise(self, fn, *vals):
        """Apply a host operation to finite valuations, value by value."""
        vals = [deref(v) for v in vals]
        fvs = {}
        for v in vals:
            if isinstance(v, FVal):
                fvs[id(v.var)] = v.var
        if not fvs:
            try:
                r = fn(*vals)
            except Exception as e:
                self.host_exc(e)
            return self.from_host(r)
        if len(fvs) > 1:
            keep = max(fvs.values(), key=lambda x: len(x.dom))
            vals = [concretise(v) if isinstance(v, FVal) and v.var is not keep else v for v in vals]
            return self.pointwise(fn, *vals)
        var = list(fvs.values())[0]
        res = {}
        for d in var.dom:
            try:
                res[d] = ('ok', fn(*[v.fn[d] if isinstance(v, FVal) else v for v in vals]))
            except Exception as e:
                res[d] = ('exc', e)

        def kind(d):
            tag, r = res[d]
            if tag == 'exc':
                return ('exc', type(r).__name__)
            if r is None or isinstance(r, bool):
                return ('c', type(r).__name__, r)
            if isinstance(r, (list, tuple)):
                return (type(r).__name__, len(r))
            return ('v', type(r).__name__)

        k = split(var, kind, 'operation on %s' % var.name)
        dom = var.dom
        tag, r0 = res[dom[0]]
        if tag == 'exc':
            self.host_exc(r0)
        if k[0] == 'c':
            return r0
        if k[0] in ('list', 'tuple'):
            n = len(r0)
            items = []
            for i in range(n):
                items.append(fval(var, {d: res[d][1][i] for d in dom}))
            return PList(items) if k[0] == 'list' else tuple(items)
        return fval(var, {d: res[d][1] for d in dom})

    def from_host(self, r):
        if isinstance(r, list):
            return PList([self.from_host(x) for x in r])
        if isinstance(r, tuple):
            return tuple(self.from_host(x) for x in r)
        if isinstance(r, dict):
            d = PDict()
            for k, v in r.items():
                self.dict_set(d, k, self.from_host(v))
            return d
        if isinstance(r, (set, frozenset)):
            s = PSet(isinstance(r, frozenset))
            for x in sorted(r, key=repr):
                self.set_add(s, x)
            return s
        if r is None or isinstance(r, (str, int, float, bytes, bool, complex, slice)):
            return r
        raise Incomplete('host value %r' % (r,))

    def host_exc(self, e):
        name = type(e).__name__
        if name in self.types:
            self.throw(name, *[a for a in e.args if isinstance(a, (str, int))])
        raise Incomplete('host exception %r' % (e,))

    BIN = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
           ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
           ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b,
           ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}
    DUNDER = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
              ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor',
              ast.LShift: 'lshift', ast.RShift: 'rshift', ast.MatMult: 'matmul'}

    def binop(self, op, a, b):
        a, b = deref(a), deref(b)
        t = type(op)
        if isinstance(a, self.S.CmdStr):
            a = a.text
        if isinstance(b, self.S.CmdStr):
            b = b.text
        H = (str, int, float, bytes, bool, complex)
        if isinstance(a, Obj) and a.cls.mixin:
            a = a.get('_value_')
        if isinstance(b, Obj) and b.cls.mixin:
            b = b.get('_value_')
        if isinstance(a, H) and isinstance(b, H):
            if t is ast.Mod and isinstance(a, str):
                return self.B.percent(self, a, b)
            try:
                return self.BIN[t](a, b)
            except Exception as e:
                self.host_exc(e)
        words = (str, FVal, SStr, SCat)
        if t is ast.Add and isinstance(a, words) and isinstance(b, words):
            if isinstance(a, FVal) or isinstance(b, FVal):
                if isinstance(a, (str, FVal)) and isinstance(b, (str, FVal)):
                    if not (isinstance(a, FVal) and isinstance(b, FVal) and a.var is not b.var):
                        return self.pointwise(lambda x, y: x + y, a, b)
            return self.concat([a, b])
        if isinstance(a, (FVal,) + H) and isinstance(b, (FVal,) + H):
            return self.pointwise(self.BIN[t], a, b)
        if t is ast.Mod and isinstance(a, words):
            return self.B.percent(self, a, b)
        if t is ast.Add:
            if isinstance(a, PList) and isinstance(b, PList):
                return PList(a.items + b.items)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
        if t is ast.Mult:
            for x, y in ((a, b), (b, a)):
                if isinstance(y, int) and isinstance(x, PList):
                    return PList(x.items * y)
                if isinstance(y, int) and isinstance(x, tuple):
                    return x * y
        if isinstance(a, (PSet, self.B.DictView)) and isinstance(b, (PSet, self.B.DictView)):
            return self.B.set_op(self, t, self.B.as_set(self, a), self.B.as_set(self, b))
        if isinstance(a, PDict) and isinstance(b, PDict) and t is ast.BitOr:
            d = self.B.dict_copy(self, a)
            self.B.dict_update(self, d, b)
            return d
        if isinstance(a, (SInt, LinInt)) or isinstance(b, (SInt, LinInt)):
            return self.B.int_op(self, t, a, b)
        if isinstance(a, Obj) or isinstance(b, Obj):
            n = self.DUNDER[t]
            for x, y, nm in ((a, b, '__%s__' % n), (b, a, '__r%s__' % n)):
                if isinstance(x, Obj):
                    m = x.cls.lookup(nm)[0]
                    if m is not None:
                        r = self.call(self.bind(m, x, x.cls), [y], {})
                        if not (isinstance(r, Opaque) and r.name == 'NotImplemented'):
                            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque('op')
        if t is ast.BitOr and (isinstance(a, ClassV) or a is None) and (isinstance(b, ClassV) or b is None):
            return Opaque('typing.Union')
        if t is ast.Add and isinstance(a, Obj) and a.cls.builtin_base == 'list':
            pass
        if isinstance(a, (SVar,)) or isinstance(b, (SVar,)):
            if isinstance(a, (SVar, int)) and isinstance(b, (SVar, int)):
                # arithmetic on an opaque identifier gives another identifier
                memo = self.path_memo()
                key = (t, a if isinstance(a, int) else id(a), b if isinstance(b, int) else id(b))
                if key not in memo:
                    memo[key] = SVar('%s%s%s' % (show(a), self.DUNDER[t], show(b)))
                return memo[key]
        self.throw('TypeError', 'unsupported operand types for %s: %s and %s'
                   % (t.__name__, self.B.typename(self, a), self.B.typename(self, b)))

    def path_memo(self):
        key = tuple(P.prefix), P.epoch
        m = getattr(self, '_memo', None)
        if m is None or self._memo_key != P.epoch:
            self._memo = {}
            self._memo_key = P.epoch
        return self._memo

    def compare(self, op, a, b):
        a, b = deref(a), deref(b)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            return self.ne(a, b)
        if isinstance(op, ast.Is):
            return self.is_(a, b)
        if isinstance(op, ast.IsNot):
            return not self.is_(a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a)
        if isinstance(op, ast.NotIn):
            return not self.contains(b, a)
        return self.B.order(self, type(op), a, b)

    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return bool(choose(2, 'is'))
        if a is None or b is None:
            return False
        words = (FVal, SStr, SCat, str, int, float, bytes, tuple)
        if isinstance(a, bool) or isinstance(b, bool):
            return isinstance(a, bool) and isinstance(b, bool) and a == b
        if isinstance(a, words) and isinstance(b, words):
            return type(a) is type(b) and self.eq(a, b)
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return False
        return False

    def truth(self, v):
        v = deref(v)
        if v is None or isinstance(v, (bool, int, str, float, bytes, tuple)):
            return bool(v)
        if isinstance(v, PList):
            return bool(v.items)
        if isinstance(v, (PDict, PSet)):
            return bool(v.d)
        if isinstance(v, FVal):
            return split(v.var, lambda d: bool(v.fn[d]), 'truth of %s' % v.var.name)
        if isinstance(v, SStr):
            return s_nonempty(v)
        if isinstance(v, SCat):
            if any(isinstance(p, str) and p for p in v.parts):
                return True
            return any(self.truth(p) for p in v.parts)
        if isinstance(v, SInt):
            return not v.eq(0)
        if isinstance(v, LinInt):
            return not self.eq(v, 0)
        if isinstance(v, SVar):
            if v.zero is None:
                z = bool(choose(2, 'identifier %s is 0' % v.name))
                P.touch(v)
                v.zero = z
            return not v.zero
        if isinstance(v, Obj):
            for nm in ('__bool__', '__len__'):
                m = v.cls.lookup(nm)[0]
                if m is not None:
                    return self.truth(self.call(self.bind(m, v, v.cls), [], {}))
            if v.cls.mixin:
                return self.truth(v.get('_value_'))
            return True
        if isinstance(v, Opaque):
            if v.name == 'NotImplemented':
                return True
            return bool(choose(2, 'unknown condition %s' % v.name))
        if isinstance(v, range):
            return len(v) > 0
        return True

    def ne(self, a, b):
        if isinstance(a, Obj):
            m, c = a.cls.lookup('__ne__')
            if isinstance(m, FuncV):
                return self.truth(self.call(self.bind(m, a, a.cls), [b], {}))
        return not self.eq(a, b)

    def eq(self, a, b):
        a, b = deref(a), deref(b)
        H = (str, int, float, bytes, bool, type(None), complex)
        if isinstance(a, H) and isinstance(b, H):
            return a == b
        words = (str, FVal, SStr, SCat)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            return bool(choose(2, 'unknown equality'))
        if isinstance(a, Obj) and a.cls.mixin and not isinstance(b, Obj):
            a = deref(a.get('_value_'))
            return self.eq(a, b)
        if isinstance(b, Obj) and b.cls.mixin and not isinstance(a, Obj):
            return self.eq(a, deref(b.get('_value_')))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return self.B.obj_eq(self, a, b)
        if isinstance(a, (FVal,) + H) and isinstance(b, (FVal,) + H):
            fa, fb = isinstance(a, FVal), isinstance(b, FVal)
            if fa and fb and a.var is not b.var:
                common = set(a.vals()) & set(b.vals())
                if not common:
                    return False
                if not split(a.var, lambda d: a.fn[d] in common, 'words equal'):
                    return False
                if not split(b.var, lambda d: b.fn[d] in common, 'words equal'):
                    return False
                a = concretise(a)
                return self.eq(a, b)
            v = a if fa else b
            o = b if fa else a
            if isinstance(o, FVal):
                return split(v.var, lambda d: v.fn[d] == o.fn[d], 'words equal')
            return split(v.var, lambda d: v.fn[d] == o, '%s == %r' % (v.var.name, o))
        if isinstance(a, words) and isinstance(b, words):
            return self.word_eq(a, b)
        if isinstance(a, words) or isinstance(b, words):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same_or_eq(x, y) for x, y in zip(a, b))
        if isinstance(a, PList) and isinstance(b, PList):
            return a is b or (len(a.items) == len(b.items) and
                              all(self.same_or_eq(x, y) for x, y in zip(list(a.items), list(b.items))))
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a is b:
                return True
            if len(a.d) != len(b.d):
                return False
            for k, v in list(a.d.values()):
                found, w = self.dict_get(b, k)
                if not found or not self.same_or_eq(v, w):
                    return False
            return True
        if isinstance(a, PSet) and isinstance(b, PSet):
            return len(a.d) == len(b.d) and all(self.set_has(b, k) for k in list(a.d.values()))
        if isinstance(a, (SInt, LinInt)) or isinstance(b, (SInt, LinInt)):
            return self.B.int_eq(self, a, b)
        if isinstance(a, SVar) or isinstance(b, SVar):
            if a is b:
                return True
            o = b if isinstance(a, SVar) else a
            s = a if isinstance(a, SVar) else b
            if o == 0 and isinstance(o, int):
                return not self.truth(s)
            return False
        if isinstance(a, range) and isinstance(b, range):
            return a == b
        if isinstance(a, BoundM) and isinstance(b, BoundM):
            return a.func is b.func and a.self_ is b.self_
        return a is b

    def same_or_eq(self, x, y):
        x, y = deref(x), deref(y)
        return x is y or self.eq(x, y)

    def word_eq(self, a, b):
        """equality when at least one word is open"""
        if isinstance(b, SStr) and not isinstance(a, SStr):
            a, b = b, a
        if isinstance(a, SStr):
            if a is b:
                return True
            if isinstance(b, str):
                return self.s_in(a, [b])
            if isinstance(b, FVal):
                if not self.s_in(a, b.vals()):
                    return False
                return self.eq(a, b)
            if isinstance(b, SStr):
                if any(deref(o) is b for o in a.alias_neq) or any(deref(o) is a for o in b.alias_neq):
                    return False
                for (k, c), val in a.preds.items():
                    if s_known(b, k, c) not in (val, None):
                        return False
                if choose(2, '%s == %s' % (a.name, b.name)):
                    P.touch(b)
                    b.neq = b.neq | a.neq
                    b.preds = dict(a.preds, **{}) | b.preds
                    b.minlen = max(a.minlen, b.minlen)
                    if a.maxlen is not None:
                        b.maxlen = a.maxlen if b.maxlen is None else min(a.maxlen, b.maxlen)
                    a.bind(b)
                    return True
                P.touch(a)
                P.touch(b)
                a.alias_neq = a.alias_neq | {b}
                b.alias_neq = b.alias_neq | {a}
                return False
        # SCat on the left or right
        if isinstance(b, SCat) and not isinstance(a, SCat):
            a, b = b, a
        if isinstance(b, SCat):
            if len(a.parts) == len(b.parts) and all(
                    x is y or (isinstance(x, str) and x == y) for x, y in zip(a.parts, b.parts)):
                return True
            # strip common prefix / suffix
            pa, pb = list(a.parts), list(b.parts)
            while pa and pb and (pa[0] is pb[0] or (isinstance(pa[0], str) and pa[0] == pb[0])):
                pa.pop(0)
                pb.pop(0)
            while pa and pb and (pa[-1] is pb[-1] or (isinstance(pa[-1], str) and pa[-1] == pb[-1])):
                pa.pop()
                pb.pop()
            if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
                n = min(len(pa[0]), len(pb[0]))
                if pa[0][:n] != pb[0][:n]:
                    return False
            if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
                n = min(len(pa[-1]), len(pb[-1]))
                if pa[-1][-n:] != pb[-1][-n:]:
                    return False
            if len(pa) == 1 and len(pb) == 1:
                return self.eq(pa[0], pb[0])
            if not pa or not pb:
                return all(self.eq(p, '') for p in pa + pb)
            # letter by letter where both words begin with a letter
            la, lb = first_letter(pa), first_letter(pb)
            if la is not None and lb is not None:
                return self.eq(la[0], lb[0]) and self.same_or_eq(norm_cat(la[1]), norm_cat(lb[1]))
            return self.scat_unknown(a, b)
        if isinstance(b, FVal):
            return self.eq(a, concretise(b))
        if isinstance(b, str):
            return self.cat_in(a, [b]) is not None
        if isinstance(b, SStr):
            return self.cat_is(b, a)
        raise Incomplete('word equality %r %r' % (a, b))

    def cat_is(self, s, c):
        """open word s == concatenation c"""
        if any(p is s for p in c.parts):
            return all(self.eq(p, '') for p in c.parts if p is not s)
        if any(o is c for o in s.alias_neq):
            return False
        if not choose(2, '%s == %s' % (s.name, show(c))):
            P.touch(s)
            s.alias_neq = s.alias_neq | {c}
            return False
        for (k, x), val in list(s.preds.items()):
            if k not in ('startswith', 'endswith', 'contains') or self.B.word_pred(self, c, k, x) != val:
                raise Infeasible()
        if s.neq and self.word_in(c, list(s.neq)):
            raise Infeasible()
        lo, hi = s.length()
        n = self.B.word_len(self, c)
        if lo and not self.B.int_order(self, ast.GtE, n, lo) or \
                hi is not None and not self.B.int_order(self, ast.LtE, n, hi):
            raise Infeasible()
        s.bind(c)
        return True

    def scat_unknown(self, a, b):
        memo = self.path_memo()
        key = ('cateq', repr(a), repr(b))
        if key not in memo:
            memo[key] = bool(choose(2, 'words equal'))
        return memo[key]

    def cat_in(self, a, consts):
        """True when the concatenation is one of consts (partitions), else None."""
        cs = frozenset(c for c in consts if isinstance(c, str))
        return True if self._cat_in(list(a.parts), cs) else None

    def _cat_in(self, parts, cs):
        parts = [deref(p) for p in parts]
        if any(isinstance(p, SCat) for p in parts):
            n = norm_cat(parts)
            parts = list(n.parts) if isinstance(n, SCat) else [n]
        cs = frozenset(c for c in cs if could_match(parts, c))
        if not cs:
            return False
        if not parts:
            return True
        p, rest = parts[0], parts[1:]
        if isinstance(p, str):
            return self._cat_in(rest, frozenset(c[len(p):] for c in cs))
        if not rest:
            return self.word_in(p, list(cs))
        if isinstance(p, SStr):
            pre = sorted({c[:i] for c in cs for i in range(len(c) + 1)
                          if p.admits(c[:i]) and could_match(rest, c[i:])}, key=lambda x: (len(x), x))
            if not self.s_in(p, pre):
                return False
            return self._cat_in(parts, cs)
        res = split(p.var, lambda d: frozenset(c[len(p.fn[d]):] for c in cs if c.startswith(p.fn[d])), 'word in set')
        return self._cat_in(rest, res)

    def s_in(self, s, consts):
        return self.B.open_in(self, s, consts)

    def word_in(self, w, consts):
        """Is the word one of the constants?  One partition."""
        w = deref(w)
        if isinstance(w, str):
            return w in consts
        if isinstance(w, FVal):
            cs = set(c for c in consts if isinstance(c, (str, int)))
            return split(w.var, lambda d: w.fn[d] in cs, '%s in %s' % (w.var.name, sorted(map(str, cs))[:6]))
        if isinstance(w, SStr):
            return self.s_in(w, list(consts))
        if isinstance(w, SCat):
            return self.cat_in(w, list(consts)) is not None
        return False

    def contains(self, c, x):
        return self.B.contains(self, c, x)

    # ----------------------------------------------------------- hashed data
    def htoken(self, v):
        """host-hashable token, or None when the key is symbolic"""
        v = deref(v)
        if v is None or isinstance(v, (str, int, float, bytes, bool)):
            return v
        if isinstance(v, (FVal, SStr, SCat, SInt, LinInt)):
            return None
        if isinstance(v, tuple):
            ts = tuple(self.htoken(x) for x in v)
            if any(t is None and deref(x) is not None for t, x in zip(ts, v)):
                return None
            return ('tuple',) + ts
        if isinstance(v, Obj):
            if v.cls.is_enum:
                return v.get('_value_') if v.cls.mixin else ('id', id(v))
            h, hc = v.cls.lookup('__hash__')
            e, ec = v.cls.lookup('__eq__')
            if v.cls.dataclass and v.cls.dataclass.get('eq'):
                if v.cls.dataclass.get('frozen') or v.cls.dataclass.get('unsafe_hash'):
                    return None
                self.throw('TypeError', "unhashable type: '%s'" % v.cls.name)
            if isinstance(e, FuncV):
                # a class that defines __eq__ without __hash__ is unhashable
                if isinstance(h, FuncV) and v.cls.mro.index(hc) <= v.cls.mro.index(ec):
                    self.call(self.bind(h, v, v.cls), [], {})
                    return None
                self.throw('TypeError', "unhashable type: '%s'" % v.cls.name)
            return ('id', id(v))
        if isinstance(v, PSet) and v.frozen:
            ks = [self.htoken(x) for x in v.d.values()]
            if any(k is None for k in ks):
                return None
            return ('fs', frozenset(ks))
        if isinstance(v, (PList, PDict, PSet)):
            self.throw('TypeError', "unhashable type: '%s'" % self.B.typename(self, v))
        return ('id', id(v))

    def find_key(self, d, key):
        """token under which key is stored in d (dict of token -> ...), or _NO"""
        key = deref(key)
        tok = self.htoken(key)
        getk = (lambda e: e[0]) if isinstance(d, PDict) else (lambda e: e)
        if tok is not None or key is None:
            if tok in d.d:
                return tok
            for t, e in list(d.d.items()):
                if isinstance(t, tuple) and t and t[0] == 'sym':
                    if self.eq(getk(e), key):
                        return t
            return _NO
        # symbolic key
        st = ('sym', id(key))
        if st in d.d:
            return st
        if isinstance(key, FVal):
            for t, e in d.d.items():
                k = getk(e)
                if isinstance(k, FVal) and k.var is key.var and all(k.fn.get(x) == key.fn[x] for x in key.var.dom):
                    return t
        if isinstance(key, (FVal, SStr, SCat)):
            consts = [t for t in d.d if isinstance(t, (str, int)) and not isinstance(t, bool)]
            if consts and self.word_in(key, consts):
                key = deref(key)
                if isinstance(key, SCat):
                    key = norm_cat([concretise(p) for p in key.parts])
                if isinstance(key, FVal):
                    return ('fval', key)
                if isinstance(key, SCat):
                    raise Incomplete('dictionary key %r' % key)
                return key
        for t, e in list(d.d.items()):
            if isinstance(t, tuple) and t and t[0] in ('sym',):
                if self.eq(getk(e), key):
                    return t
            elif isinstance(key, (tuple, Obj)) and not isinstance(t, (str, int)):
                if self.eq(getk(e), key):
                    return t
        return _NO

    def dict_get(self, d, key):
        t = self.find_key(d, key)
        if t is _NO:
            return False, None
        if isinstance(t, tuple) and t and t[0] == 'fval':
            k = t[1]
            vals = {x: d.d[k.fn[x]][1] for x in k.var.dom}
            vs = [deref(v) for v in vals.values()]
            if all(isinstance(v, str) for v in vs) or all(type(v) is int for v in vs):
                return True, fval(k.var, {x: deref(v) for x, v in vals.items()})
            def cls(x):
                v = deref(vals[x])
                if v is None or isinstance(v, (str, int, float, bytes, bool)):
                    return ('h', type(v).__name__, v)
                return ('id', id(v))
            split(k.var, cls, 'entry')
            return True, vals[k.var.dom[0]]
        return True, d.d[t][1]

    def dict_set(self, d, key, value):
        t = self.find_key(d, key)
        key = deref(key)
        if isinstance(t, tuple) and t and t[0] == 'fval':
            key = concretise(t[1])
            t = key
        d.touch()
        if t is not _NO:
            d.d[t] = (d.d[t][0], value)
            return
        tok = self.htoken(key)
        if tok is None and key is not None:
            tok = ('sym', id(key))
        d.d[tok] = (key, value)

    def dict_del(self, d, key):
        t = self.find_key(d, key)
        if t is _NO:
            return False, None
        if isinstance(t, tuple) and t and t[0] == 'fval':
            t = concretise(t[1])
        d.touch()
        return True, d.d.pop(t)[1]

    def set_add(self, s, v):
        v = deref(v)
        if isinstance(v, FVal):
            # keep symbolic unless it collides with a member
            pass
        t = self.find_key(s, v)
        if t is not _NO:
            return
        v = deref(v)
        tok = self.htoken(v)
        if tok is None and v is not None:
            tok = ('sym', id(v))
        s.touch()
        s.d[tok] = v

    def set_has(self, s, v):
        t = self.find_key(s, v)
        return t is not _NO
