"""Answers depend on the question alone and asking has no other effect (C40)."""
import os
import re
from .base import *
from .iospec import COMMANDS
from .c_io import snapshot, same_shape, view, generator_site as io_site
from .c_misc import cli_line
from .c_parser import Words
from .tables import TABLES
from absint.stdmods import CmdStr
from absint.core import FuncV, BuiltinF, ClassV, BoundM

RULES = {
    'C40': 'no trace of the library uses anything outside the program but files of the repository found by their full path, '
           'and every trace gives the same answer when the sets of words are gone through in another order',
}


def listen(ctx):
    """every use of something outside the program is a violation"""
    def ambient(what):
        site = P.location
        where, ctx.where = ctx.where, None
        if site:
            ctx.where = '%s:%s %s' % tuple(site) if isinstance(site, tuple) else site
        ctx.require(False, 'outside:%s' % what.split(' of ')[0][:60], 'it %s (%s)' % (what, ctx.where))
        ctx.where = where
    ctx.I.ambient = ambient


def again(ctx, body):
    """run body with the modules of the package loaded anew, going through sets the other way"""
    I = ctx.I
    saved = dict(I.modules)
    for n in list(I.modules):
        if n == PKG or n.startswith(PKG + '.'):
            del I.modules[n]
    I.set_order = -1
    try:
        return body()
    finally:
        I.modules.clear()
        I.modules.update(saved)
        I.set_order = 1


def neutral(s):
    """code is told by its name"""
    if isinstance(s, list):
        return [neutral(x) for x in s]
    if isinstance(s, tuple) and s and s[0] == 'value' and not isinstance(s[1], (str, int, float, bool, type(None))):
        v = s[1]
        if isinstance(v, BoundM):
            return ('code', show(v))
        if isinstance(v, (FuncV, BuiltinF, ClassV)):
            return ('code', type(v).__name__ + ' ' + str(getattr(v, 'name', '')))
        if isinstance(v, PSet):
            return ('set', len(v.d))
        return ('other', type(v).__name__)
    if isinstance(s, tuple):
        return tuple(neutral(x) for x in s)
    return s


def t_lines(cmd, n, first=None, anew=True):
    def task(ctx):
        for m in (PARSER, AG):
            ctx.name(m, '__name__')
        listen(ctx)
        ctx.I.set_order = 1

        def answers(cl):
            inv = deref(ctx.I.call(ctx.name(PARSER, 'parse'), [cl], {}))
            out = [neutral(snapshot(ctx, inv))]
            io, par = ctx.io_info(inv), ctx.par_info(inv)
            out.append(neutral(snapshot(ctx, view(ctx, io, inv) if io is not None else None)))
            out.append(neutral(snapshot(ctx, par)))
            out.append(neutral(snapshot(ctx, ctx.meth(par, 'get_inferred_parallelizer_list') if par is not None else None)))
            if anew:
                out.append(('word', ctx.I.call(ctx.I.builtins['str'], [inv], {})))
            return out

        def harness():
            line = cli_line(ctx, cmd, n, n > 1, small=first in ('cluster', 'long'), first=first)
            cl = CmdStr([cmd] + list(line.words))
            ctx.facts = lambda: show(cl)
            ctx.where = io_site(ctx, cmd)
            a = answers(cl)
            if anew:
                b = again(ctx, lambda: answers(cl))
            else:
                ctx.I.set_order = -1
                try:
                    b = answers(cl)
                finally:
                    ctx.I.set_order = 1
            for what, x, y in zip(('parse', 'annotated invocation', 'parallelizability annotation', 'list of parallelizers', 'text'), a, b):
                ctx.require(same_shape(ctx, x, y), 'order:%s' % what,
                            'the %s depends on the order in which a set is gone through: %s / %s' % (what, x, y))
        ctx.explore(harness)
    return task


def t_quiet(fn):
    """what another property has its obligations on, done here for the effects alone"""
    def task(ctx):
        listen(ctx)
        require, explore, ambient = ctx.require, ctx.explore, ctx.I.ambient

        def off(*a, **k):
            return None

        def heard(what):
            ctx.require, ctx.report = require, report
            try:
                ambient(what)
            finally:
                ctx.require, ctx.report = check, off
        report = ctx.report

        def check(cond, key, msg, where=None):
            return bool(cond)

        def go(harness, *a, **k):
            def one():
                harness()
                require(True, 'quiet', '')
            return explore(one, *a, **k)
        ctx.require, ctx.report, ctx.explore, ctx.I.ambient = check, off, go, heard
        fn(ctx)
    return task


#: properties whose tasks reach the rest of the library
REST = ('C14', 'C18', 'C19', 'C20', 'C21', 'C22', 'C28', 'C29', 'C37')


def library(ctx):
    """the modules of the library"""
    out = []
    base = os.path.join(ctx.I.repo, PKG)
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != 'tests' and not x.startswith('__') and
                       (x != 'old_annotations') and '-' not in x)
        for f in sorted(fs):
            if f.endswith('.py') and '-' not in f:
                with open(os.path.join(d, f), encoding='utf-8') as fh:
                    if re.search('__name__ *==|ArgumentParser', fh.read()):
                        continue        # a program
                p = os.path.relpath(os.path.join(d, f), ctx.I.repo)[:-3].split(os.sep)
                out.append('.'.join(p[:-1] if p[-1] == '__init__' else p))
    return out


def t_import(ctx):
    """loading a module of the library has no effect"""
    listen(ctx)
    names = library(ctx)
    ctx.require(len(names) > 20, 'modules', 'only %d modules found' % len(names))

    def harness():
        for n in names:
            ctx.facts = lambda: 'import %s' % n
            ctx.where = n.replace('.', '/') + '.py'
            ctx.I.import_module(n)
            ctx.require(True, 'import:' + n, '')
    ctx.explore(harness)


def tasks(prop, tier='quick'):
    out = [('import', t_import)]
    for c in list(COMMANDS) + ['foo']:
        for n in range(4 if tier == 'thorough' else 3):
            firsts = [x for x in Words(c, 2).classes if x != 'other'] if n > 1 and c in TABLES else [None]
            out += [('%s %d %s' % (c, n, f or ''), t_lines(c, n, f, n < 2)) for f in firsts]
    out.sort(key=lambda t: 'cluster' not in t[0])
    from importlib import import_module
    from .registry import MODULE
    for p in REST:
        out += [('%s %s' % (p, n), t_quiet(f)) for n, f in import_module('checks.' + MODULE[p]).tasks(p, tier)]
    return out
