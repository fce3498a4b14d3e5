"""Shared machinery of the checks: abstract inputs, obligations, reports.

A check is a list of tasks.  A task interprets (abstractly) the repository's
public entry points on an abstract input and states obligations about the
abstract result; the obligations are decided on every partition of the input.
Nothing of the repository is executed: its syntax trees are interpreted over
abstract words, lists and objects (see absint/)."""
import ast
import os
import sys
import json
import time
import traceback
import multiprocessing

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)

from absint.core import (P, Explorer, FVal, SStr, SVar, PList, PDict, PSet, Obj, FuncV, BoundM, ClassV,  # noqa: E402
                         ModuleV, Env,
                         PyExc, Incomplete, Diverges, Infeasible, PathLimit, Stop, choose, fin, deref, show, concretise)
from absint.interp import Interp, SCat  # noqa: E402
from .tables import TABLES  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG = 'pash_annotations'
AG = PKG + '.annotation_generation.AnnotationGeneration'
BD = PKG + '.datatypes.BasicDatatypes'
BDIO = PKG + '.datatypes.BasicDatatypesWithIO'
BDV = PKG + '.datatypes.BasicDatatypesWithIOVar'
CII = PKG + '.datatypes.CommandInvocationInitial'
CIP = PKG + '.datatypes.CommandInvocationPrefix'
CIO = PKG + '.datatypes.CommandInvocationWithIO'
CIV = PKG + '.datatypes.CommandInvocationWithIOVars'
AK = PKG + '.datatypes.AccessKind'
PAR = PKG + '.annotation_generation.datatypes.parallelizability.'
PI = PKG + '.annotation_generation.datatypes.ParallelizabilityInfo'
IOI = PKG + '.annotation_generation.datatypes.InputOutputInfo'
INP = PKG + '.annotation_generation.datatypes.Inputs'
PARSER = PKG + '.parser.parser'
UTILP = PKG + '.parser.util_parser'
UTIL = PKG + '.util'

KINDS = ['CONFIG_INPUT', 'STREAM_INPUT', 'CONTAINER_FOR_INPUT', 'EXCLUDES_FROM_INPUT', 'OTHER_INPUT',
         'STREAM_OUTPUT', 'OTHER_OUTPUT']
INPUT_KINDS = KINDS[:5]
OUTPUT_KINDS = KINDS[5:]


def rel(path):
    path = str(path)
    return os.path.relpath(path, REPO) if os.path.isabs(path) else path


class Anchor(Exception):
    """A public name the rule is about is gone: the analysis has no answer."""


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.I = Interp(REPO)
        self.obligations = 0
        self.partitions = 0
        self.infeasible = 0
        self.choices = 0
        self.rules = {}
        self.samples = []
        self.found = {}
        self.task = ''
        self.where = None
        self.facts = None
        self.incomplete = []
        self.fail_count = 0
        self.read = set()          # functions a rule on syntax trees has read

    # ------------------------------------------------------------- anchors
    def name(self, module, name):
        try:
            m = self.I.import_module(module)
        except PyExc as ex:
            raise Anchor('%s cannot be imported: %s %s' % (module, ex.obj.cls.name, show(ex.obj)))
        if name not in m.env.vars:
            raise Anchor('%s has no %s' % (module, name))
        return m.env.vars[name]

    def client(self, source):
        """names a client module with this source defines (interpreted, like everything else)"""
        env = Env()
        env.module = env
        env.kind = 'module'
        env.file = '<client>'
        env.fname = '<module>'
        env.modname = '__client__'
        env.modv = ModuleV('__client__', env, None)
        env.vars['__name__'] = '__client__'
        try:
            self.I.run_body(ast.parse(source).body, env)
        except PyExc as ex:
            raise Anchor('a client cannot use it: %s %s' % (ex.obj.cls.name, show(ex.obj.get('args'))))
        return env.vars

    def new(self, module, cls, *args, **kw):
        return self.I.call(self.name(module, cls), list(args), kw)

    def meth(self, obj, name, *args, **kw):
        return self.I.call(self.I.getattr(obj, name), list(args), kw)

    def attr(self, obj, name):
        return deref(self.I.getattr(obj, name))

    def isa(self, obj, module, cls):
        obj = deref(obj)
        return isinstance(obj, Obj) and obj.cls.issub(self.name(module, cls))

    def site(self, f):
        f = deref(f)
        if isinstance(f, BoundM):
            f = f.func
        if isinstance(f, FuncV):
            return '%s:%d %s' % (rel(f.file), f.node.lineno, f.qualname)
        if isinstance(f, ClassV):
            return '%s class %s' % (rel(getattr(f.module, 'fname', '?')), f.name)
        return str(f)

    # --------------------------------------------------------- obligations
    def require(self, cond, key, msg, where=None):
        """One obligation of the current partition."""
        self.obligations += 1
        rule = key.split(':')[0]
        self.rules[rule] = self.rules.get(rule, 0) + 1
        if cond:
            return True
        self.report(key, msg, where)
        return False

    def report(self, key, msg, where=None):
        self.fail_count += 1
        if key not in KNOWN and FIRST is not None and not FIRST.value:
            FIRST.value = time.time()
        if key in self.found:
            self.found[key]['count'] += 1
            return
        self.found[key] = {
            'key': key, 'message': msg, 'task': self.task, 'count': 1,
            'construct': where or self.where or '?',
            'input': self.facts() if self.facts else '',
            'decisions': ['%s:%s %s: %s -> %s' % (rel(l[0]), l[1], l[2], lab, c)
                          if l else '%s -> %s' % (lab, c) for lab, c, l in P.labels][-40:],
        }

    # ---------------------------------------------------------- exploration
    def explore(self, harness, name='', max_paths=400000):
        self.task = name or self.task
        ex = Explorer(max_paths)
        n0 = len(self.samples)

        def one():
            self.facts = None
            self.where = None
            P.location = None
            watch()
            try:
                harness()
            except PyExc as e:
                if e.obj.cls.name == 'RecursionError':
                    raise Incomplete('recursion')
                self.report('exception:%s:%s' % (self.task, e.obj.cls.name),
                            'raises %s %s at %s' % (e.obj.cls.name, show(e.obj.get('args')), e.site and
                                                    '%s:%s %s' % e.site))
            except Diverges as e:
                self.report('diverges:%s' % self.task, str(e))
            if len(self.samples) - n0 < 2 and self.facts and (ex.paths % 7 == 0):
                self.samples.append({'task': self.task, 'partition': self.facts()})
        try:
            ex.run(one)
        except RecursionError:
            raise Incomplete('analysis recursion limit in %s' % self.task)
        finally:
            self.partitions += ex.paths
            self.infeasible += ex.infeasible
            self.choices += ex.choices

    def attempt(self, f, args, kw=None):
        """(value, None) or (None, exception class name)."""
        try:
            return self.I.call(f, list(args), dict(kw or {})), None
        except PyExc as e:
            self.last_exc = e
            return None, e.obj.cls.name

    # ------------------------------------------------------ abstract inputs
    def flag(self, name):
        return self.new(BD, 'Flag', name)

    def option(self, name, arg):
        return self.new(BD, 'Option', name, arg)

    def operand(self, name):
        return self.new(BD, 'Operand', name)

    def fol(self, cmd, maxlen, extra=(), minlen=0):
        """A list of flags and options of cmd; -> (PList, meta)."""
        t = TABLES.get(cmd)
        fl = sorted({g[0] for g in t.flags}) if t else []
        op = sorted({g[0] for g, _ in t.options}) if t else []
        fl += [x for x in extra if x not in fl]
        n = minlen + choose(maxlen - minlen + 1, 'number of flags and options') if fl or op else 0
        meta, els = [], []
        for i in range(n):
            isopt = bool(op) and (not fl or choose(2, 'flag or option'))
            nm = fin(op if isopt else fl, '%s%d' % ('option' if isopt else 'flag', i))
            arg = SStr('arg%d' % i) if isopt else None
            meta.append(('option' if isopt else 'flag', nm, arg))
            els.append(self.option(nm, arg) if isopt else self.flag(nm))
        return PList(els), meta

    def operands(self, maxlen, minlen=0, name='operand'):
        n = minlen + choose(maxlen - minlen + 1, 'number of operands')
        names = [SStr('%s%d' % (name, i)) for i in range(n)]
        return PList([self.operand(x) for x in names]), names

    def many(self, cmd):
        """a long invocation: many flags and options, many operands (constants, so it is one partition)"""
        t = TABLES.get(cmd)
        els = sorted({('flag', g[0]) for g in t.flags} | {('option', g[0]) for g, _ in t.options}) if t else []
        which = choose(1 + 2 * len(els[:8]), 'flags') if els else 0
        # none; one of them many times; many different ones
        if which == 0:
            chosen = []
        elif which <= len(els[:8]):
            chosen = [els[(which - 1) * len(els) // len(els[:8])]] * 40
        else:
            k = (which - 1 - len(els[:8])) * len(els) // len(els[:8])
            chosen = (els[k:] + els[:k])[:5] * 8
        meta = [(kind, n, None if kind == 'flag' else 'arg%d' % i) for i, (kind, n) in enumerate(chosen)]
        fol = PList([self.flag(n) if a is None else self.option(n, a) for k, n, a in meta])
        names = ['word%d' % i for i in range([1, 2, 33, 130][choose(4, 'number of operands')])]
        return fol, meta, PList([self.operand(x) for x in names]), names

    def late(self, cmd):
        """one flag or option that comes after several others"""
        t = TABLES.get(cmd)
        fl = sorted({g[0] for g in t.flags}) if t else []
        op = sorted({g[0] for g, _ in t.options}) if t else []
        if not fl and not op:
            raise Infeasible()
        isopt = bool(op) and (not fl or choose(2, 'flag or option'))
        nm = fin(op if isopt else fl, 'option' if isopt else 'flag')
        fill = choose(3, 'what comes before')
        before = ('option' if isopt else 'flag', nm) if fill == 0 else ('flag', fl[0]) if fill == 1 and fl else \
            ('option', op[0]) if fill == 2 and op else None
        if before is None:
            raise Infeasible()
        k, m = [(3, 0), (5, 2)][choose(2, 'position')]
        meta = [before + ('p' if before[0] == 'option' else None,)] * k
        meta = meta + [('option', nm, SStr('late')) if isopt else ('flag', nm, None)] + meta[:m]
        fol = PList([self.flag(n) if kind == 'flag' else self.option(n, a) for kind, n, a in meta])
        ops, names = self.operands(2, 1)
        return fol, meta, ops, names

    def invocation(self, cmd, fol, ops):
        return self.new(CII, 'CommandInvocationInitial', cmd, fol, ops)

    def describe(self, cmd, meta, ops):
        def f():
            return '%s %s | operands: %s' % (
                show(deref(cmd)), ' '.join('%s%s' % (show(deref(n)), '' if a is None else '=' + show(deref(a)))
                                           for k, n, a in meta), ' '.join(show(deref(o)) for o in ops))
        return f

    def has(self, meta, *names):
        return any([self.I.word_in(n, names) for k, n, a in meta])

    def count(self, meta, *names):
        return sum([1 if self.I.word_in(n, names) else 0 for k, n, a in meta])

    # ------------------------------------------------------------ observing
    def io_info(self, inv):
        return deref(self.I.call(self.name(AG, 'get_input_output_info_from_cmd_invocation'), [inv], {}))

    def par_info(self, inv):
        return deref(self.I.call(self.name(AG, 'get_parallelizability_info_from_cmd_invocation'), [inv], {}))

    def kind(self, access):
        """name of the access kind of an AccessKind object"""
        k = deref(self.I.getattr(access, 'kind'))
        return deref(k.get('_name_')) if isinstance(k, Obj) and k.cls.is_enum else show(k)

    def same(self, a, b):
        """same word (identity of abstract words, equality of constants)"""
        a, b = deref(a), deref(b)
        if a is b:
            return True
        if isinstance(a, FVal) and isinstance(b, FVal) and a.var is b.var:
            return all(a.fn[d] == b.fn[d] for d in a.var.dom)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, (FVal, SStr, SCat)) and isinstance(b, (str, FVal, SStr, SCat)) or \
                isinstance(b, (FVal, SStr, SCat)) and isinstance(a, str):
            return self.I.eq(a, b)
        return False

    def items(self, v, what='a list'):
        v = deref(v)
        if isinstance(v, PList):
            return [deref(x) for x in v.items]
        if isinstance(v, tuple):
            return [deref(x) for x in v]
        return None


# --------------------------------------------------------------------------
# Once a violation (other than a recorded finding) is found the verdict is
# settled: the exploration goes on for GRACE seconds to report others, then ends.
# LIMIT bounds a run that finds none; such a run gives no answer.
KNOWN = frozenset()
FIRST = None
STARTED = None
GRACE = 40
LIMIT = {'quick': 800, 'thorough': 6 * 3600}


def watch():
    now = time.time()
    if FIRST is not None and FIRST.value and now - FIRST.value > GRACE:
        raise Stop('settled')
    if STARTED is not None and now - STARTED[0] > STARTED[1]:
        raise Stop('time')


def _worker(arg):
    prop, tier, tasks, i = arg
    P.watch = watch
    name, fn = tasks[i]
    sys.setrecursionlimit(20000)
    ctx = Ctx(prop, tier)
    ctx.task = name
    t0 = time.time()
    err = None
    try:
        fn(ctx)
    except Stop as e:
        err = None if str(e) == 'settled' else 'not finished in %d s' % STARTED[1]
    except Anchor as e:
        err = 'anchor: %s' % e
    except (Incomplete, PathLimit) as e:
        err = 'incomplete: %s (%s)' % (e, P.location)
    except PyExc as e:
        err = 'analysis outside a partition raised %s at %s' % (e.obj.cls.name, e.site)
        ctx.report('exception:%s' % name, err)
        err = None
    except Exception as e:
        tb = traceback.format_exc()
        err = 'internal: %s: %s\n%s' % (type(e).__name__, str(e)[:300], tb[-1500:])
    return {
        'task': name, 'error': err, 'found': list(ctx.found.values()), 'obligations': ctx.obligations,
        'partitions': ctx.partitions, 'infeasible': ctx.infeasible, 'choices': ctx.choices, 'rules': ctx.rules,
        'samples': ctx.samples[:2], 'functions': sorted(functions(ctx)), 'wall': time.time() - t0,
    }


def functions(ctx):
    out = set(ctx.read)
    for f in ctx.I.cov_functions:
        out.add('%s %s' % (rel(f[0]), f[1]))
    return out


_TASKS = None


def _call(i):
    return _worker(_TASKS + (i,))


def run_tasks(prop, tier, tasks, jobs=None, known=()):
    global _TASKS, KNOWN, FIRST, STARTED
    KNOWN = frozenset(known)
    FIRST = multiprocessing.get_context('fork').Value('d', 0.0)
    STARTED = (time.time(), LIMIT[tier])
    _TASKS = (prop, tier, tasks)
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '8'))
    if jobs == 1 or len(tasks) == 1:
        return [_call(i) for i in range(len(tasks))]
    mp = multiprocessing.get_context('fork')
    with mp.Pool(min(jobs, len(tasks)), maxtasksperchild=None) as pool:
        return pool.map(_call, range(len(tasks)), chunksize=1)
