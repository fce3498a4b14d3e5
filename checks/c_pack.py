"""C39: whatever the code of the library refers to exists in what is installed, and fits.

Syntax trees and symbol tables only: every module of the packages that setup.py
installs (and the command-line tool) is read, every scope is resolved, and every
import, every name, every attribute of self, of a class or of a module and every
call of a function of the library that can be told from the text is an
obligation.  What cannot be told (values, computed names) is no obligation.
"""
import ast
import builtins
import glob
import importlib
import json
import os
import symtable
import sys

from .base import REPO, Anchor

STD = set(sys.stdlib_module_names)
MODNAMES = {'__name__', '__file__', '__doc__', '__package__', '__path__', '__spec__', '__loader__', '__builtins__',
            '__annotations__', '__class__', '__debug__', '__dict__', '__module__', '__qualname__'}
LOOSE = {'BaseException', 'Exception'}


def setup_call(repo):
    """the literal arguments of the call of setup()"""
    path = os.path.join(repo, 'setup.py')
    if not os.path.exists(path):
        raise Anchor('setup.py is gone')
    for n in ast.walk(ast.parse(open(path, encoding='utf-8').read())):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', getattr(n.func, 'attr', '')) == 'setup':
            out = {}
            for k in n.keywords:
                try:
                    out[k.arg] = ast.literal_eval(k.value)
                except ValueError:
                    pass
            return out
    raise Anchor('setup.py does not call setup()')


class NoLocalAnnotations(ast.NodeTransformer):
    """Python does not evaluate the annotations of local variables."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        for n in ast.walk(node):
            if isinstance(n, ast.AnnAssign):
                n.annotation = ast.Constant(None)
        return node
    visit_AsyncFunctionDef = visit_FunctionDef


def dead(block):
    """(statements that are reached, statements behind one that never ends normally)"""
    for i, s in enumerate(block):
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)) or (
                isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value):
            return block[:i + 1], block[i + 1:]
    return block, []


class Dead(ast.NodeTransformer):
    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list):
                keep, drop = dead(b)
                # a name that is bound behind stays local
                bound = sorted({x.id for s in drop for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
                setattr(node, f, keep + [ast.parse('%s = None' % x).body[0] for x in bound])
        return super().generic_visit(node)


class Mod:
    def __init__(self, name, path, repo):
        self.name, self.path, self.rel = name, path, os.path.relpath(path, repo)
        self.src = open(path, encoding='utf-8').read()
        self.tree = ast.parse(self.src, path)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.script = any(isinstance(n, ast.If) and '__main__' in ast.unparse(n.test) for n in self.tree.body)
        self.live = Dead().visit(ast.parse(self.src, path))
        self.names = {}                # name -> list of binding nodes
        self.stars = []
        self.dynamic = any(isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('exec', 'globals', 'setattr', 'vars')
                           for n in ast.walk(self.tree))
        self.collect(self.tree.body)
        for f in ast.walk(self.tree):
            if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                gl = {x for n in ast.walk(f) if isinstance(n, ast.Global) for x in n.names}
                for x in gl:
                    self.names.setdefault(x, []).append(None)

    def collect(self, body):
        stack = list(body)
        while stack:
            n = stack.pop(0)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.names.setdefault(n.name, []).append(n)
                stack += n.decorator_list
                continue
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(n)
                    else:
                        self.names.setdefault(a.asname or a.name.split('.')[0], []).append((n, a))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                self.names.setdefault(n.id, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.names.setdefault(n.name, []).append(None)
            elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
                self.names.setdefault(n.name, []).append(None)
            if isinstance(n, ast.AnnAssign) and n.value is None:
                continue
            if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                stack += [x.target for x in ast.walk(n) if isinstance(x, ast.NamedExpr)]
                continue
            stack += list(ast.iter_child_nodes(n))


class Lib:
    def __init__(self, repo):
        self.repo = repo
        s = setup_call(repo)
        self.packages = s.get('packages')
        if not isinstance(self.packages, list):
            # setup() finds them: every directory with a module in it counts
            self.packages = sorted({os.path.relpath(d, repo).replace(os.sep, '.') for d, _, fs in
                                    os.walk(os.path.join(repo, 'pash_annotations')) if '__init__.py' in fs})
        self.data = s.get('package_data', {})
        self.mods = {}
        for p in self.packages:
            d = os.path.join(repo, *p.split('.'))
            for f in sorted(glob.glob(os.path.join(d, '*.py'))):
                b = os.path.basename(f)[:-3]
                n = p if b == '__init__' else p + '.' + b
                self.mods[n] = Mod(n, f, repo)
        # the table generator is no module of a package but a script next to the tables
        for f in sorted(glob.glob(os.path.join(repo, 'pash_annotations', 'parser', 'command_flag_option_info', '*.py'))):
            n = 'pash_annotations.parser.command_flag_option_info.' + os.path.basename(f)[:-3]
            if os.path.basename(f) != '__init__.py':
                self.mods.setdefault(n, Mod(n, f, repo))
        if len(self.mods) < 20:
            raise Anchor('only %d modules are installed' % len(self.mods))
        self.classes = {}
        # attributes that are set from outside of a class
        self.set = {n.attr for m in self.mods.values() for n in ast.walk(m.tree)
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and getattr(n.value, 'id', '') != 'self'}

    # ------------------------------------------------------------ modules
    def module(self, name, by):
        """the module an absolute name means in the module `by`: Mod, 'std', 'package' or None"""
        if name in self.mods:
            return self.mods[name]
        # a script finds modules next to itself
        if by.path.startswith(os.path.join(self.repo, 'pash_annotations')):
            base = by.name.rsplit('.', 1)[0] if not by.is_pkg else by.name
            if self.is_script(by) and base + '.' + name in self.mods:
                return self.mods[base + '.' + name]
            if self.is_script(by) and os.path.isdir(os.path.join(self.repo, *(base + '.' + name).split('.'))):
                return 'package'
        root = name.split('.')[0]
        if name in self.packages or os.path.isdir(os.path.join(self.repo, *name.split('.'))) and root == 'pash_annotations' and any(
                p == name or p.startswith(name + '.') for p in self.packages):
            return 'package'
        if root in STD:
            return 'std'
        return None

    def is_script(self, mod):
        """code that is run and not imported: it acts when it is executed"""
        return mod.script or 'ArgumentParser' in mod.src and 'parse_args()' in mod.src

    def resolve_from(self, node, by):
        name = node.module or ''
        if node.level:
            base = by.name.split('.') if by.is_pkg else by.name.split('.')[:-1]
            base = base[:len(base) - (node.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        return name

    def exports(self, mod, seen=()):
        """names a module defines, star imports expanded; None if they cannot be told"""
        out = set(mod.names)
        for n in mod.stars:
            t = self.module(self.resolve_from(n, mod), mod)
            if isinstance(t, Mod) and t.name not in seen:
                out |= {x for x in self.exports(t, seen + (mod.name,)) if not x.startswith('_')}
            elif t == 'std':
                out |= {x for x in dir(importlib.import_module(self.resolve_from(n, mod))) if not x.startswith('_')}
        return out

    def what(self, mod, name, depth=0):
        """what a module-level name is bound to, if to one thing only: (Mod, node), a Mod, ('std', name) or None"""
        if depth > 20:
            return None
        binds = mod.names.get(name)
        if binds is None:
            hits = []
            for n in mod.stars:
                t = self.module(self.resolve_from(n, mod), mod)
                if isinstance(t, Mod) and name in self.exports(t):
                    hits.append(self.what(t, name, depth + 1))
                elif t == 'std':
                    hits.append(None)
            return hits[-1] if hits and all(h is not None and h == hits[0] for h in hits) else None
        if len(binds) != 1 or binds[0] is None:
            return None
        b = binds[0]
        if isinstance(b, ast.AST):
            return (mod, b)
        n, a = b
        if isinstance(n, ast.Import):
            t = self.module(a.name if a.asname else a.name.split('.')[0], mod)
            if t == 'std':
                return ('std', a.name if a.asname else a.name.split('.')[0])
            return t if isinstance(t, Mod) else None
        full = self.resolve_from(n, mod)
        t = self.module(full, mod)
        if isinstance(t, Mod):
            if a.name in self.exports(t):
                return self.what(t, a.name, depth + 1)
        sub = self.module(full + '.' + a.name, mod)
        return sub if isinstance(sub, Mod) else None

    # ------------------------------------------------------------ classes
    def bases(self, mod, cls):
        """(list of (Mod, ClassDef), True if all bases are known and plain)"""
        out, closed = [], all(
            k.arg == 'metaclass' and getattr(k.value, 'id', getattr(k.value, 'attr', '')) in ('ABCMeta', 'EnumMeta', 'EnumType', 'type') for k in cls.keywords)
        for b in cls.bases:
            w = None
            if isinstance(b, ast.Name):
                w = self.what(mod, b.id)
                if w is None and b.id in ('object',):
                    continue
                if w is None and b.id == 'ABC':
                    continue
            if isinstance(w, tuple) and isinstance(w[1], ast.ClassDef):
                out.append(w)
            else:
                closed = False
        if cls.decorator_list:
            closed = False
        return out, closed

    def family(self, mod, cls):
        """ancestors of a class, itself first, and whether they are all known"""
        todo, out, closed = [(mod, cls)], [], True
        while todo:
            m, c = todo.pop(0)
            if any(c is x for _, x in out):
                continue
            out.append((m, c))
            bs, cl = self.bases(m, c)
            closed = closed and cl
            todo += bs
        return out, closed

    def members(self, cls):
        """(names of a class -> function node or None, whether others may be added)"""
        out, open_ = {}, False
        for n in cls.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                out[n.name] = n
                if n.name in ('__getattr__', '__getattribute__'):
                    open_ = True
            elif not (isinstance(n, ast.AnnAssign) and n.value is None):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        out[x.id] = None
                        if x.id == '__slots__':
                            out.update((k.value, None) for k in ast.walk(n) if isinstance(k, ast.Constant) and isinstance(k.value, str))
        for f in cls.body:
            if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            first = self.first(f)
            for x in ast.walk(f):
                if first and isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and getattr(x.value, 'id', None) == first:
                    out.setdefault(x.attr, None)
                    if isinstance(out[x.attr], ast.AST):
                        out[x.attr] = None
                if isinstance(x, ast.Attribute) and x.attr == '__dict__' or isinstance(x, ast.Call) and getattr(
                        x.func, 'id', '') in ('setattr', 'vars'):
                    open_ = True
        return out, open_

    @staticmethod
    def first(f):
        if any(getattr(d, 'id', '') in ('staticmethod', 'classmethod') for d in f.decorator_list):
            return None
        a = f.args.posonlyargs + f.args.args
        return a[0].arg if a else None

    def all_classes(self):
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    yield m, n

    def find(self, fam, name):
        for m, c in fam:
            mem, _ = self.members(c)
            if name in mem:
                return m, c, mem[name]
        return None


def fits(call, fn, skip):
    """None if the call fits the parameters of fn (after `skip` of them), and otherwise why not"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    if isinstance(fn, (ast.AsyncFunctionDef,)):
        return None
    a = fn.args
    pos = a.posonlyargs + a.args
    if len(pos) < skip and not a.vararg:
        return 'takes no arguments'
    names = [x.arg for x in pos[skip:]]
    required = names[:max(0, len(names) - len(a.defaults))]
    given = names[:len(call.args)]
    if len(call.args) > len(names) and not a.vararg:
        return 'takes %d arguments and gets %d' % (len(names), len(call.args))
    kwonly = [x.arg for x in a.kwonlyargs]
    posonly = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if (k.arg not in names or k.arg in posonly) and k.arg not in kwonly and not a.kwarg:
            return 'has no parameter %s' % k.arg
        given.append(k.arg)
    for r in required:
        if r not in given:
            return 'lacks its argument %s' % r
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None and x.arg not in given:
            return 'lacks its argument %s' % x.arg
    return None


PLAIN = {'staticmethod', 'classmethod', 'abstractmethod'}


def plain(fn):
    return all(getattr(d, 'id', None) in PLAIN for d in fn.decorator_list)


def handled(parents, node, *excs):
    """is the node in a try whose handler expects one of these?"""
    while node in parents:
        up = parents[node]
        if isinstance(up, ast.Try) and node in up.body:
            for h in up.handlers:
                t = ast.unparse(h.type) if h.type else 'Exception'
                if any(e in t for e in excs):
                    return True
        if isinstance(up, ast.With) and 'suppress' in ast.unparse(up.items[0]):
            return True
        node = up
    return False


def where(mod, node, fn=None):
    return '%s:%d %s' % (mod.rel, getattr(node, 'lineno', 1), fn or '')


def t_imports(ctx):
    lib = Lib(REPO)
    for mod in lib.mods.values():
        parents = {c: p for p in ast.walk(mod.live) for c in ast.iter_child_nodes(p)}
        for n in ast.walk(mod.live):
            if isinstance(n, ast.Import):
                for a in n.names:
                    ok = lib.module(a.name, mod) is not None or handled(parents, n, 'ImportError', 'ModuleNotFoundError')
                    ctx.require(ok, 'import:%s:%s' % (mod.name, a.name), 'no module %s is installed' % a.name, where(mod, n))
            elif isinstance(n, ast.ImportFrom):
                full = lib.resolve_from(n, mod)
                t = lib.module(full, mod)
                ok = t is not None or handled(parents, n, 'ImportError', 'ModuleNotFoundError')
                if not ctx.require(ok, 'import:%s:%s' % (mod.name, full), 'no module %s is installed' % full, where(mod, n)):
                    continue
                for a in n.names:
                    if a.name == '*':
                        continue
                    if isinstance(t, Mod):
                        ok = a.name in lib.exports(t) or a.name in MODNAMES or t.dynamic or t.is_pkg and lib.module(full + '.' + a.name, mod)
                    elif t == 'package':
                        ok = lib.module(full + '.' + a.name, mod) is not None
                    elif t == 'std':
                        m = importlib.import_module(full)
                        ok = hasattr(m, a.name) or sub(full, a.name)
                    ok = ok or handled(parents, n, 'ImportError')
                    ctx.require(ok, 'import-name:%s:%s' % (mod.name, a.name), '%s has no %s' % (full, a.name), where(mod, n))
    ctx.partitions += len(lib.mods)
    ctx.samples.append({'task': ctx.task, 'partition': ', '.join(sorted(lib.mods))[:600]})


def sub(pkg, name):
    try:
        importlib.import_module(pkg + '.' + name)
        return True
    except Exception:
        return False


def t_names(ctx):
    lib = Lib(REPO)
    scopes = 0
    for mod in lib.mods.values():
        known = lib.exports(mod) | set(dir(builtins)) | MODNAMES
        tree = NoLocalAnnotations().visit(Dead().visit(ast.parse(mod.src)))
        # what a handler of NameError expects need not exist
        table = symtable.symtable(ast.unparse(ast.fix_missing_locations(tree)), mod.rel, 'exec')
        stack = [table]
        while stack:
            t = stack.pop()
            scopes += 1
            stack += t.get_children()
            for s in t.get_symbols():
                if not s.is_referenced() or not (s.is_global() or t.get_type() == 'module'):
                    continue
                if t.get_type() == 'class' and s.is_assigned():
                    continue
                name = s.get_name()
                ok = name in known or mod.dynamic
                node = next((n for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name), None)
                if not ok and node is not None:
                    parents = {c: p for p in ast.walk(mod.tree) for c in ast.iter_child_nodes(p)}
                    ok = all(handled(parents, n, 'NameError') for n in ast.walk(mod.tree) if isinstance(n, ast.Name) and n.id == name)
                ctx.require(ok, 'name:%s:%s:%s' % (mod.name, t.get_name(), name),
                            'the name %s is used and nowhere defined' % name, where(mod, node, t.get_name()))
    ctx.partitions += scopes


def functions(mod):
    """(class or None, function) of a module, with nested ones under their outermost"""
    for n in mod.live.body:
        yield from functions_of(n, None)


def functions_of(n, cls):
    if isinstance(n, ast.ClassDef):
        for x in n.body:
            yield from functions_of(x, n)
    elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
        yield cls, n
    elif isinstance(n, (ast.If, ast.Try, ast.With)):
        for x in ast.iter_child_nodes(n):
            yield from functions_of(x, cls)


def local_names(fn):
    out = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.arg):
            out.add(n.arg)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not fn:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
    return out


OBJECT = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__class__', '__mro__', '__subclasses__',
                             '__members__', '__abstractmethods__', '__bases__', '__annotations__'}


def t_members(ctx):
    lib = Lib(REPO)
    kids = {}
    for m, c in lib.all_classes():
        for fm, fc in lib.family(m, c)[0][1:]:
            kids.setdefault((fm.name, fc.name), []).append((m, c))

    def class_has(m, c, name, below):
        fam, closed = lib.family(m, c)
        fam = list(fam)
        if below:
            for k in kids.get((m.name, c.name), []):
                kf, kc = lib.family(*k)
                fam += kf
                closed = closed and kc
        if not closed:
            return True
        for fm, fc in fam:
            mem, open_ = lib.members(fc)
            if open_ or name in mem:
                return True
        return name in OBJECT or name in lib.set

    def enum(m, c):
        return any(isinstance(b, ast.Name) and b.id in ('Enum', 'IntEnum') or isinstance(b, ast.Attribute) and b.attr in ('Enum', 'IntEnum')
                   for _, f in lib.family(m, c)[0] for b in f.bases)

    for mod in lib.mods.values():
        parents = {c: p for p in ast.walk(mod.live) for c in ast.iter_child_nodes(p)}
        units = [(None, mod.live, set())] + [(c, f, local_names(f)) for c, f in functions(mod)]
        inner = {id(x) for _, f, _ in units[1:] for x in ast.walk(f)}
        for cls, fn, locs in units:
            ctx.partitions += 1
            if fn is not mod.live:
                ctx.read.add('%s %s%s' % (mod.rel, cls.name + '.' if cls is not None else '', fn.name))
            first = lib.first(fn) if cls is not None else None
            clsnode = next((n for n in ast.walk(mod.tree) if isinstance(n, ast.ClassDef) and n.name == cls.name), None) if cls is not None else None
            if first and any(isinstance(n, ast.Name) and n.id == first and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)):
                first = None
            site = (cls.name + '.' if cls is not None else '') + getattr(fn, 'name', '<module>')
            for n in ast.walk(fn):
                if fn is mod.live and id(n) in inner:
                    continue
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name):
                    base = n.value.id
                    if base == first and clsnode is not None:
                        ok = class_has(mod, clsnode, n.attr, True) or handled(parents, n, 'AttributeError')
                        ctx.require(ok, 'member:%s.%s:%s' % (mod.name, site, n.attr),
                                    'no %s of self is ever defined' % n.attr, where(mod, n, site))
                    elif base not in locs:
                        w = lib.what(mod, base)
                        if isinstance(w, Mod):
                            ok = n.attr in lib.exports(w) or w.dynamic or n.attr in MODNAMES or w.name + '.' + n.attr in lib.mods
                            ctx.require(ok, 'module-member:%s.%s:%s' % (mod.name, site, n.attr), '%s has no %s' % (base, n.attr), where(mod, n, site))
                        elif isinstance(w, tuple) and w[0] == 'std':
                            ok = hasattr(importlib.import_module(w[1]), n.attr) or sub(w[1], n.attr)
                            ctx.require(ok, 'module-member:%s.%s:%s' % (mod.name, site, n.attr), '%s has no %s' % (base, n.attr), where(mod, n, site))
                        elif isinstance(w, tuple) and isinstance(w[1], ast.ClassDef):
                            if enum(*w):
                                fam = lib.family(*w)[0]
                                ok = any(n.attr in lib.members(c)[0] for _, c in fam) or hasattr(__import__('enum').Enum, n.attr) or n.attr in OBJECT or n.attr in lib.set
                            else:
                                ok = class_has(w[0], w[1], n.attr, False)
                            ok = ok or handled(parents, n, 'AttributeError')
                            ctx.require(ok, 'class-member:%s.%s:%s.%s' % (mod.name, site, base, n.attr),
                                        'the class %s has no %s' % (base, n.attr), where(mod, n, site))
                if isinstance(n, ast.Call):
                    target = skip = None
                    f = n.func
                    if isinstance(f, ast.Name) and f.id not in locs:
                        w = lib.what(mod, f.id)
                        if isinstance(w, tuple) and isinstance(w[1], ast.FunctionDef) and not w[1].decorator_list:
                            target, skip = w[1], 0
                        elif isinstance(w, tuple) and isinstance(w[1], ast.ClassDef):
                            fam, closed = lib.family(*w)
                            hit = lib.find(fam, '__init__')
                            if closed and not lib.find(fam, '__new__') and hit and isinstance(hit[2], ast.FunctionDef) and plain(hit[2]):
                                target, skip = hit[2], 1
                    elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                        if f.value.id == first and clsnode is not None:
                            cands = [(mod, clsnode)] + kids.get((mod.name, clsnode.name), [])
                            for k in cands:
                                fam, closed = lib.family(*k)
                                hit = lib.find(fam, f.attr)
                                if hit and isinstance(hit[2], ast.FunctionDef) and plain(hit[2]):
                                    st = any(getattr(d, 'id', '') == 'staticmethod' for d in hit[2].decorator_list)
                                    why = fits(n, hit[2], 0 if st else 1)
                                    ctx.require(why is None, 'call:%s.%s:%s' % (mod.name, site, f.attr),
                                                '%s %s' % (f.attr, why), where(mod, n, site))
                        elif f.value.id not in locs:
                            w = lib.what(mod, f.value.id)
                            if isinstance(w, tuple) and isinstance(w[1], ast.ClassDef):
                                hit = lib.find(lib.family(*w)[0], f.attr)
                                if hit and isinstance(hit[2], ast.FunctionDef) and plain(hit[2]):
                                    cm = any(getattr(d, 'id', '') == 'classmethod' for d in hit[2].decorator_list)
                                    target, skip = hit[2], 1 if cm else 0
                            elif isinstance(w, Mod):
                                g = lib.what(w, f.attr)
                                if isinstance(g, tuple) and isinstance(g[1], ast.FunctionDef) and not g[1].decorator_list:
                                    target, skip = g[1], 0
                    if target is not None:
                        why = fits(n, target, skip)
                        ctx.require(why is None or handled(parents, n, 'TypeError'), 'call:%s.%s:%s' % (mod.name, site, ast.unparse(f)),
                                    '%s %s' % (ast.unparse(f), why), where(mod, n, site))


def t_abstract(ctx):
    """classes that are instantiated have all their abstract methods"""
    lib = Lib(REPO)

    def lacking(m, c):
        fam, _ = lib.family(m, c)
        if not any(isinstance(b, ast.Name) and b.id == 'ABC' for _, f in fam for b in f.bases):
            return []
        out = []
        names = {n for _, f in fam for n in lib.members(f)[0]}
        for n in sorted(names):
            hit = lib.find(mro(lib, m, c), n)
            if hit and isinstance(hit[2], ast.FunctionDef) and any(getattr(d, 'id', '') == 'abstractmethod' for d in hit[2].decorator_list):
                out.append(n)
        return out
    for mod in lib.mods.values():
        for cls, fn in [(None, mod.live)] + list(functions(mod)):
            locs = local_names(fn) if fn is not mod.live else set()
            for n in ast.walk(fn):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id not in locs:
                    w = lib.what(mod, n.func.id)
                    if isinstance(w, tuple) and isinstance(w[1], ast.ClassDef):
                        ctx.partitions += 1
                        bad = lacking(*w)
                        ctx.require(not bad, 'abstract:%s:%s' % (mod.name, n.func.id), '%s is instantiated without %s' % (n.func.id, ', '.join(bad)),
                                    where(mod, n, getattr(fn, 'name', '')))
    # the generators are found by their names
    for m, c in lib.all_classes():
        if c.name.startswith(('InputOutputInfoGenerator', 'ParallelizabilityInfoGenerator')) and not c.name.endswith('Interface'):
            ctx.partitions += 1
            bad = lacking(m, c)
            ctx.require(not bad, 'abstract:%s' % c.name, 'the generator %s does not define %s' % (c.name, ', '.join(bad)), where(m, c))


def mro(lib, m, c):
    """depth first with the last of repeated classes kept: C3 for the hierarchies that occur"""
    def walk(m, c):
        out = [(m, c)]
        for b in lib.bases(m, c)[0]:
            out += walk(*b)
        return out
    order = walk(m, c)
    return [x for i, x in enumerate(order) if not any(y[1] is x[1] for y in order[i + 1:])]


def t_tables(ctx):
    lib = Lib(REPO)
    base = os.path.join(REPO, 'pash_annotations')
    d = os.path.join(base, 'parser', 'command_flag_option_info', 'data')
    files = sorted(glob.glob(os.path.join(d, '*')))
    if not files:
        raise Anchor('there are no flag tables')
    kinds = {n for m, c in lib.all_classes() if c.name == 'AccessKindEnum' for n in lib.members(c)[0]}
    for f in files:
        rel = os.path.relpath(f, REPO)
        if not f.endswith('.json'):
            continue
        ctx.partitions += 1
        site = rel
        pats = [(p, g) for p, gs in lib.data.items() for g in gs]
        ctx.require(any(f in glob.glob(os.path.join(REPO, *p.split('.'), g)) for p, g in pats), 'table-shipped:' + rel,
                    'the table is not installed', site)
        try:
            t = json.load(open(f, encoding='utf-8'))
        except ValueError as e:
            ctx.require(False, 'table-form:' + rel, 'the table is no JSON: %s' % e, site)
            continue
        ok = isinstance(t, dict) and isinstance(t.get('flag'), list) and isinstance(t.get('option'), list)
        if not ctx.require(ok, 'table-form:' + rel, 'the table has no lists "flag" and "option"', site):
            continue
        for e in t['flag']:
            ctx.require(isinstance(e, list) and e and all(isinstance(x, str) and x for x in e), 'table-flag:%s:%s' % (rel, e),
                        'a flag is not a list of spellings: %s' % json.dumps(e), site)
        for e in t['option']:
            ok = isinstance(e, list) and len(e) >= 2 and all(isinstance(x, str) and x.startswith(('-', '+')) for x in e[:-1])
            ok = ok and (isinstance(e[-1], str) and not e[-1].startswith('--') or isinstance(e[-1], list) and len(e[-1]) == 2 and
                         isinstance(e[-1][0], str) and e[-1][1] in kinds)
            ctx.require(ok, 'table-option:%s:%s' % (rel, json.dumps(e)), 'an option is not a list of spellings and what its argument is: %s' %
                        json.dumps(e), site)


def tasks(prop, tier='quick'):
    return [('imports', t_imports), ('names', t_names), ('members', t_members), ('abstract', t_abstract), ('tables', t_tables)]
