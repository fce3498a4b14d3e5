"""Input/output annotations (C06-C13)."""
from .base import *
from . import iospec
from .iospec import IO, COMMANDS, expected, O_OUT

# (flags and options, operands) of the abstract invocations
LEN = {'quick': [(2, 3), (1, 6)], 'thorough': [(3, 4), (2, 6), (1, 12)]}


def generator_site(ctx, cmd):
    """The construct that decides the annotation of cmd: its generate_info."""
    try:
        g = ctx.I.import_module(AG).env.vars
        reg = deref(g['DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES'])
        found, rep = ctx.I.dict_get(reg, cmd)
        c = deref(g['InputOutputInfoGenerator' + rep])
        m, _ = c.lookup('generate_info')
        return ctx.site(m)
    except Exception:
        return 'input/output annotation of %s' % cmd


def view(ctx, io, inv):
    """Apply the annotation; -> dict of observations."""
    r = deref(ctx.meth(io, 'apply_input_output_info_to_command_invocation', inv))
    return r


def std_type(ctx, o):
    t = deref(ctx.meth(o, 'get_type'))
    return deref(t.get('_name_')) if isinstance(t, Obj) and t.cls.is_enum else show(t)


def std_ok(ctx, o, which):
    """o is the standard stream `which` with the access of a stream"""
    want = 'STREAM_INPUT' if which == 'STDIN' else 'STREAM_OUTPUT'
    return ctx.isa(o, BDIO, 'StdDescriptorWithIOInfo') and std_type(ctx, o) == which and \
        ctx.kind(ctx.meth(o, 'get_access')) == want


def explore_cmd(ctx, cmd, body, lens=None, minops=0):
    for size in (lens or LEN[ctx.tier]) + [None, 'late']:
        def harness():
            if size in (None, 'late'):
                fol, meta, ops, names = ctx.many(cmd) if size is None else ctx.late(cmd)
            else:
                fol, meta = ctx.fol(cmd, size[0])
                ops, names = ctx.operands(size[1], minops)
            ctx.facts = ctx.describe(cmd, meta, names)
            ctx.where = generator_site(ctx, cmd)
            inv = ctx.invocation(cmd, fol, ops)
            io = ctx.io_info(inv)
            body(inv, meta, names, io, lambda *ns: ctx.has(meta, *ns), lambda *ns: ctx.count(meta, *ns))
        ctx.explore(harness, cmd)


def with_spec(ctx, cmd, f, **kw):
    """f(spec, inv, meta, names, io) on every annotated partition"""
    def body(inv, meta, names, io, has, count):
        e = expected(cmd, has, count, len(names))
        if e is not None and io is not None:
            f(e, inv, meta, names, io)
    explore_cmd(ctx, cmd, body, **kw)


def option_role(cmd, ctx, name):
    """documented role of the argument of an option, one partition per role"""
    t = TABLES[cmd]
    for r in sorted(set(t.role.values())):
        if ctx.I.word_in(name, [k for k, v in t.role.items() if v == r]):
            return r
    raise Infeasible()


def word_role(ctx, o):
    """role given to an annotated operand or option argument"""
    if ctx.isa(o, BD, 'ArgStringType'):
        return 'ARG'
    if ctx.isa(o, BDIO, 'FileNameWithIOInfo') or ctx.isa(o, BDIO, 'StdDescriptorWithIOInfo'):
        return ctx.kind(ctx.meth(o, 'get_access'))
    return 'nothing (%s)' % show(o)


def word_text(ctx, o, text, role):
    """the annotated word still denotes the original one"""
    if role == 'ARG':
        return ctx.isa(o, BD, 'ArgStringType') and ctx.same(ctx.meth(o, 'get_name'), text)
    if ctx.isa(o, BDIO, 'StdDescriptorWithIOInfo'):
        return ctx.I.eq(text, '-') and std_type(ctx, o) == ('STDIN' if role in INPUT_KINDS else 'STDOUT')
    if ctx.isa(o, BDIO, 'FileNameWithIOInfo'):
        return ctx.same(ctx.meth(o, 'get_name'), text) and not ctx.I.eq(text, '-')
    return False


# ------------------------------------------------------------------ C06
def t_exists(cmd):
    def task(ctx):
        def body(inv, meta, names, io, has, count):
            e = expected(cmd, has, count, len(names))
            if e is not None:
                ctx.require(io is not None, 'no-annotation:%s' % cmd, 'a valid %s gets no annotation' % cmd)
                if io is not None:
                    ctx.require(ctx.isa(io, IOI, 'InputOutputInfo'), 'annotation-type:%s' % cmd, 'got %s' % show(io))
            else:
                ctx.require(io is None, 'unsupported-annotated:%s' % cmd,
                            'an invocation whose files cannot be told from its words gets an annotation')
        explore_cmd(ctx, cmd, body)
    return task


# ------------------------------------------------------------------ C05
def t_unknown(ctx):
    """commands that are not registered, registered ones without generators"""
    for f, what in (('get_input_output_info_from_cmd_invocation', 'input/output'),
                    ('get_parallelizability_info_from_cmd_invocation', 'parallelizability')):
        fn = ctx.name(AG, f)
        known = set(COMMANDS) | {'bigram_aux_map', 'bigram_aux_reduce'}

        def harness():
            k = choose(3, 'command')
            if k == 0:
                cmd = SStr('command')
                cmd.neq = frozenset(known)
            elif k == 1:
                cmd = fin(['bigram_aux_map', 'bigram_aux_reduce'], 'command')
            else:
                cmd = fin(['ls', 'echo', 'find', 'paste', 'join', 'Interface', '_Interface', 'Cat', 'None', 'Sort', ''],
                          'command')
            n = choose(3, 'flags and options')
            els, meta = [], []
            for i in range(n):
                nm, arg = SStr('name%d' % i), SStr('arg%d' % i)
                isopt = choose(2, 'flag or option')
                meta.append(('option' if isopt else 'flag', nm, arg if isopt else None))
                els.append(ctx.option(nm, arg) if isopt else ctx.flag(nm))
            ops, names = ctx.operands(3)
            ctx.facts = ctx.describe(cmd, meta, names)
            ctx.where = ctx.site(fn)
            inv = ctx.invocation(cmd, PList(els), ops)
            r, exc = ctx.attempt(fn, [inv])
            ctx.require(exc is None, 'lookup-raises:%s' % what, 'the %s lookup of an unknown command raises %s' % (what, exc))
            if exc is None:
                ctx.require(deref(r) is None, 'unknown-annotated:%s' % what,
                            'an unknown command gets the %s annotation %s' % (what, show(r)))
        ctx.explore(harness, what)


def t_anything(cmd):
    """no lookup raises, whatever the invocation"""
    def task(ctx):
        t = TABLES.get(cmd)
        known = sorted({g[0] for g in t.flags} | {g[0] for g, _ in t.options}) if t else []
        fns = [ctx.name(AG, f) for f in ('get_input_output_info_from_cmd_invocation',
                                         'get_parallelizability_info_from_cmd_invocation')]

        def harness():
            meta, els = [], []
            for i in range(choose(3 if ctx.thorough else 2, 'flags and options')):
                isopt = choose(2, 'flag or option')
                # declared or not, with or without the declared arity
                if known and choose(2, 'declared name'):
                    nm = fin(known, 'name%d' % i)
                else:
                    nm = SStr('name%d' % i)
                arg = SStr('arg%d' % i)
                meta.append(('option' if isopt else 'flag', nm, arg if isopt else None))
                els.append(ctx.option(nm, arg) if isopt else ctx.flag(nm))
            ops, names = ctx.operands(3)
            ctx.facts = ctx.describe(cmd, meta, names)
            inv = ctx.invocation(cmd, PList(els), ops)
            for fn in fns:
                ctx.where = ctx.site(fn)
                r, exc = ctx.attempt(fn, [inv])
                ctx.require(exc is None, 'lookup-raises:%s' % cmd, 'the lookup raises %s' % exc)
                r = deref(r)
                ctx.require(exc is not None or r is None or ctx.isa(r, IOI, 'InputOutputInfo') or
                            ctx.isa(r, PI, 'ParallelizabilityInfo'), 'lookup-value:%s' % cmd, 'the lookup yields %s' % show(r))
        ctx.explore(harness, cmd)
    return task


# ------------------------------------------------------------------ C07
def snapshot(ctx, v, depth=0):
    """structure of a value; abstract words by identity"""
    v = deref(v)
    if isinstance(v, PList):
        return ['list'] + [snapshot(ctx, x, depth + 1) for x in v.items]
    if isinstance(v, tuple):
        return ['tuple'] + [snapshot(ctx, x, depth + 1) for x in v]
    if isinstance(v, PDict):
        return ['dict'] + [(snapshot(ctx, k), snapshot(ctx, x)) for k, x in v.d.values()]
    if isinstance(v, Obj):
        if v.cls.is_enum:
            return ('enum', v.cls.name, v.get('_name_'))
        return ['object', v.cls.name] + [(k, snapshot(ctx, x, depth + 1)) for k, x in sorted(v.attrs.d.values(), key=lambda e: e[0])]
    if isinstance(v, (str, FVal, SStr, SCat)):
        return ('word', v)
    return ('value', v)


def same_shape(ctx, a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        if a and a[0] == 'word':
            return b[0] == 'word' and ctx.same(a[1], b[1])
        return len(a) == len(b) and all(same_shape(ctx, x, y) for x, y in zip(a, b))
    return a is b or type(a) is type(b) and isinstance(a, (str, int, float, bool, type(None))) and a == b


def t_pure(cmd):
    def task(ctx):
        def harness():
            fol, meta = ctx.fol(cmd, 2)
            ops, names = ctx.operands(3 if ctx.thorough else 2)
            ctx.facts = ctx.describe(cmd, meta, names)
            ctx.where = generator_site(ctx, cmd)
            inv = ctx.invocation(cmd, fol, ops)
            s0 = snapshot(ctx, inv)
            views, pars = [], []
            for rnd in range(2):
                io, par = ctx.io_info(inv), ctx.par_info(inv)
                ctx.require(same_shape(ctx, s0, snapshot(ctx, inv)), 'lookup-changes-invocation:%s' % cmd,
                            'the lookup changes the invocation to %s' % show(inv))
                v = view(ctx, io, inv) if io is not None else None
                ctx.require(same_shape(ctx, s0, snapshot(ctx, inv)), 'apply-changes-invocation:%s' % cmd,
                            'applying the annotation changes the invocation to %s' % show(inv))
                views.append(snapshot(ctx, v))
                lst = None
                if par is not None:
                    # reading an annotation twice gives the same parallelizers
                    lst = snapshot(ctx, ctx.meth(par, 'get_inferred_parallelizer_list'))
                pars.append(lst)
                # a client edits what it was given: later lookups must not see that
                if v is not None:
                    for a in ('flag_option_list', 'operand_list'):
                        lst2 = ctx.attr(v, a)
                        if isinstance(lst2, PList):
                            lst2.touch()
                            lst2.items.append(ctx.flag('--edited'))
                    ctx.I.setattr(v, 'implicit_use_of_streaming_input', 'edited')
                if par is not None:
                    lst2 = ctx.meth(par, 'get_inferred_parallelizer_list')
                    if isinstance(deref(lst2), PList):
                        deref(lst2).touch()
                        deref(lst2).items.append('edited')
                    ctx.meth(par, 'append_to_parallelizer_list', 'edited')
                    ctx.meth(par, 'set_commutative')
                if rnd == 0 and choose(2, 'another lookup in between'):
                    other = ctx.invocation(cmd, PList([]), PList([ctx.operand(SStr('file'))]))
                    ctx.io_info(other)
                    ctx.par_info(other)
            ctx.require(same_shape(ctx, views[0], views[1]), 'second-annotation:%s' % cmd,
                        'the second lookup of the same invocation gives %s and not %s' % (views[1], views[0]))
            ctx.require(same_shape(ctx, pars[0], pars[1]), 'second-parallelizers:%s' % cmd,
                        'the second lookup of the same invocation gives other parallelizers: %s / %s' % (pars[1], pars[0]))
        ctx.explore(harness, cmd)
    return task


def t_history(ctx):
    """what was looked up before, of any command, does not show in a later annotation"""
    import random
    pool = []
    for cmd in COMMANDS:
        t = TABLES.get(cmd)
        fl = sorted({g[0] for g in t.flags}) if t else []
        op = sorted({g[0] for g, _ in t.options}) if t else []
        sets = [()] + [(('flag', f),) for f in fl] + [(('option', o),) for o in op]
        if len(fl) + len(op) > 1:
            sets += [tuple(('flag', f) for f in fl[:4]) + tuple(('option', o) for o in op)]
        for i, els in enumerate(sets):
            pool += [(cmd, els, n) for n in ((0, 1, 2, 4) if ctx.thorough else (i % 3, 2) if i % 3 != 2 else (2, 1))]
    ctx.where = ctx.site(ctx.name(AG, 'get_input_output_info_from_cmd_invocation'))

    def lookup(y):
        cmd, els, n = y
        fol = PList([ctx.flag(name) if kind == 'flag' else ctx.option(name, 'argument') for kind, name in els])
        inv = ctx.invocation(cmd, fol, PList([ctx.operand('word%d' % i) for i in range(n)]))
        io, par = ctx.io_info(inv), ctx.par_info(inv)
        return [snapshot(ctx, view(ctx, io, inv) if io is not None else None),
                snapshot(ctx, ctx.meth(par, 'get_inferred_parallelizer_list') if par is not None else None)]
    alone = {}
    for y in pool:
        def fresh():
            alone[y] = lookup(y)
        ctx.explore(fresh, y[0])
    rnd = random.Random(1)
    orders = [list(pool), list(reversed(pool))]
    for _ in range(6 if ctx.thorough else 2):
        o = list(pool)
        rnd.shuffle(o)
        orders.append(o)
    for order in orders:
        def harness():
            before = None
            for y in order:
                ctx.facts = lambda: '%s %s | %d operands, after %d other lookups, the last of them of %s' % (
                    y[0], ' '.join(n for _, n in y[1]), y[2], order.index(y), before and before[0])
                ctx.where = generator_site(ctx, y[0])
                got = lookup(y)
                for g, w, what in zip(got, alone[y], ('annotated invocation', 'parallelizers')):
                    ctx.require(same_shape(ctx, g, w), 'history:%s' % y[0],
                                'after other lookups, %s %s with %d operands gets other %s: %s and not %s' % (
                                    y[0], ' '.join(n for _, n in y[1]), y[2], what, g, w))
                before = y
        ctx.explore(harness, 'history')


# ------------------------------------------------------------------ C08, C09
def t_stdin(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            i = ctx.attr(view(ctx, io, inv), 'implicit_use_of_streaming_input')
            if e.stdin:
                ctx.require(i is not None, 'stdin-missing:%s' % cmd,
                            '%s reads standard input here but the annotation does not say so' % cmd)
                if i is not None:
                    ctx.require(std_ok(ctx, i, 'STDIN'), 'stdin-kind:%s' % cmd, 'implicit input is %s' % show(i))
            else:
                ctx.require(i is None, 'stdin-claimed:%s' % cmd,
                            '%s does not read standard input here but the annotation says so' % cmd)
        with_spec(ctx, cmd, f)
    return task


def t_stdout(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            o = ctx.attr(view(ctx, io, inv), 'implicit_use_of_streaming_output')
            if e.stdout:
                ctx.require(o is not None, 'stdout-missing:%s' % cmd,
                            '%s writes standard output here but the annotation does not say so' % cmd)
                if o is not None:
                    ctx.require(std_ok(ctx, o, 'STDOUT'), 'stdout-kind:%s' % cmd, 'implicit output is %s' % show(o))
            else:
                ctx.require(o is None, 'stdout-claimed:%s' % cmd,
                            '%s writes nothing to standard output here but the annotation says so' % cmd)
        with_spec(ctx, cmd, f)
    return task


# ------------------------------------------------------------------ C10, C12, C13, C11
def t_operands(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            if e.roles is None:
                return
            got = ctx.items(ctx.attr(view(ctx, io, inv), 'operand_list'))
            ctx.require(got is not None and len(got) == len(names), 'operand-count:%s' % cmd,
                        '%s annotated operands' % (got and len(got)))
            for i, (o, want) in enumerate(zip(got or [], e.roles)):
                r = word_role(ctx, o)
                ctx.require(r == want, 'operand-role:%s:%s' % (cmd, want),
                            'operand %d of %d is annotated %s and not %s' % (i + 1, len(names), r, want))
                if i in (0, len(names) - 1):
                    ctx.require(word_text(ctx, o, names[i], r), 'operand-word:%s' % cmd,
                                'the operand %s is annotated as %s' % (show(deref(names[i])), show(o)))
        with_spec(ctx, cmd, f)
    return task


def t_optargs(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            got = ctx.items(ctx.attr(view(ctx, io, inv), 'flag_option_list')) or []
            for g, (kind, name, arg) in zip(got, meta):
                if kind == 'option':
                    want = option_role(cmd, ctx, name)
                    ctx.require(ctx.isa(g, BDIO, 'OptionWithIO'), 'option-lost:%s' % cmd, '%s became %s' % (show(name), show(g)))
                    if ctx.isa(g, BDIO, 'OptionWithIO'):
                        r = word_role(ctx, deref(ctx.meth(g, 'get_arg')))
                        ctx.require(r == want, 'option-argument-role:%s:%s' % (cmd, want),
                                    'the argument of %s is annotated %s and not %s' % (show(deref(name)), r, want))
        if TABLES.get(cmd) and TABLES[cmd].options:
            with_spec(ctx, cmd, f)
    return task


def t_apply(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            v = view(ctx, io, inv)
            ctx.require(ctx.isa(v, CIO, 'CommandInvocationWithIO'), 'applied-type', 'got %s' % show(v))
            ctx.require(ctx.same(ctx.attr(v, 'cmd_name'), cmd), 'applied-command', 'the command became %s' %
                        show(ctx.attr(v, 'cmd_name')))
            fl, ops = ctx.items(ctx.attr(v, 'flag_option_list')) or [], ctx.items(ctx.attr(v, 'operand_list')) or []
            ctx.require(len(fl) == len(meta), 'applied-flags', '%d flags and options became %d' % (len(meta), len(fl)))
            ctx.require(len(ops) == len(names), 'applied-operands', '%d operands became %d' % (len(names), len(ops)))
            for g, (kind, name, arg) in zip(fl, meta):
                if kind == 'flag':
                    ctx.require(ctx.isa(g, BD, 'Flag') and ctx.same(ctx.meth(g, 'get_name'), name), 'applied-flag',
                                'the flag %s became %s' % (show(deref(name)), show(g)))
                else:
                    ok = ctx.isa(g, BDIO, 'OptionWithIO') and ctx.same(ctx.meth(g, 'get_name'), name)
                    ctx.require(ok, 'applied-option', 'the option %s became %s' % (show(deref(name)), show(g)))
                    if ok:
                        a = deref(ctx.meth(g, 'get_arg'))
                        ctx.require(word_text(ctx, a, arg, word_role(ctx, a)), 'applied-argument',
                                    'the argument %s became %s' % (show(deref(arg)), show(a)))
            for o, name in zip(ops, names):
                ctx.require(word_text(ctx, o, name, word_role(ctx, o)), 'applied-operand',
                            'the operand %s became %s' % (show(deref(name)), show(o)))
        with_spec(ctx, cmd, f, lens=[(2, 2), (1, 4)] if not ctx.thorough else None)
    return task


def t_effects(cmd):
    def task(ctx):
        def f(e, inv, meta, names, io):
            want = bool(e.roles and O_OUT in e.roles)
            if not want:
                for kind, name, arg in meta:
                    if kind == 'option' and option_role(cmd, ctx, name) == O_OUT:
                        want = True
                        break
            got = ctx.I.truth(ctx.meth(io, 'has_other_outputs'))
            ctx.require(got == want, 'effects-%s:%s' % ('missed' if want else 'claimed', cmd),
                        'the invocation %s besides its streams but the annotation says otherwise' %
                        ('changes files' if want else 'changes nothing'))
        with_spec(ctx, cmd, f)
    return task


# ------------------------------------------------------------------ C32
def t_queries(cmd):
    names_q = [('get_operands_with_stream_input', 'STREAM_INPUT'), ('get_operands_with_other_input', 'OTHER_INPUT'),
               ('get_operands_with_stream_output', 'STREAM_OUTPUT'), ('get_operands_with_other_output', 'OTHER_OUTPUT')]

    def task(ctx):
        def f(e, inv, meta, names, io):
            v = view(ctx, io, inv)
            ops = ctx.items(ctx.attr(v, 'operand_list'))
            for q, role in names_q:
                got = ctx.items(ctx.meth(v, q))
                want = [o for o in ops if word_role(ctx, o) == role]
                ctx.require(got is not None and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                            'query:%s' % q, '%s gives %s and not %s' % (q, show(got), show(want)))
            got = ctx.items(ctx.meth(v, 'get_operands_with_config_input'))
            want = [o for o in ops if word_role(ctx, o) in ('ARG', 'CONFIG_INPUT')]
            ctx.require(got is not None and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                        'query:get_operands_with_config_input', 'gives %s and not %s' % (show(got), show(want)))
            fl = ctx.items(ctx.attr(v, 'flag_option_list'))
            got = ctx.items(ctx.meth(v, 'get_options_with_other_output'))
            want = [o for o in fl if ctx.isa(o, BDIO, 'OptionWithIO') and
                    word_role(ctx, deref(ctx.meth(o, 'get_arg'))) == 'OTHER_OUTPUT']
            ctx.require(got is not None and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                        'query:get_options_with_other_output', 'gives %s and not %s' % (show(got), show(want)))
        with_spec(ctx, cmd, f, lens=[(2, 2)] if not ctx.thorough else [(2, 3)])
    return task


def t_built_queries(nfo, nops):
    """queries on an invocation a client puts together"""
    MK = {'CONFIG_INPUT': 'make_config_input', 'STREAM_INPUT': 'make_stream_input', 'CONTAINER_FOR_INPUT': 'make_container_for_input',
          'EXCLUDES_FROM_INPUT': 'make_excludes_from_input', 'OTHER_INPUT': 'make_other_input', 'STREAM_OUTPUT': 'make_stream_output',
          'OTHER_OUTPUT': 'make_other_output'}
    QUERIES = [('get_operands_with_stream_input', ('STREAM_INPUT',)), ('get_operands_with_other_input', ('OTHER_INPUT',)),
               ('get_operands_with_stream_output', ('STREAM_OUTPUT',)), ('get_operands_with_other_output', ('OTHER_OUTPUT',)),
               ('get_operands_with_config_input', ('CONFIG_INPUT', 'ARG'))]

    def task(ctx):
        def harness():
            descr = []

            def arg(i, kinds):
                """-> (object, role)"""
                w = SStr('word%d' % i)
                c = choose(2 * len(kinds) + 1, 'kind of argument')
                if c == 2 * len(kinds):
                    descr.append('string')
                    return ctx.new(BD, 'ArgStringType', w), 'ARG'
                role = kinds[c // 2]
                acc = ctx.I.call(ctx.name(AK, MK[role]), [], {})
                descr.append(role + (' descriptor' if c % 2 else ''))
                if c % 2:
                    e = ctx.I.getattr(ctx.name(BD, 'StdDescriptorEnum'), 'STDIN' if role in INPUT_KINDS else 'STDOUT')
                    return ctx.new(BDIO, 'StdDescriptorWithIOInfo', e, acc), role
                return ctx.new(BDIO, 'FileNameWithIOInfo', w, acc), role
            few = KINDS if nops + nfo < 3 else ['STREAM_INPUT', 'OTHER_INPUT', 'OTHER_OUTPUT']
            fo, ops = [], []
            for i in range(nfo):
                if choose(2, 'flag or option'):
                    o, role = arg(10 + i, few)
                    fo.append((ctx.new(BDIO, 'OptionWithIO', SStr('name%d' % i), o), role))
                else:
                    fo.append((ctx.flag(SStr('name%d' % i)), None))
            for i in range(nops):
                ops.append(arg(i, few))
            imp = [ctx.new(BDIO, 'StdDescriptorWithIOInfo', ctx.I.getattr(ctx.name(BD, 'StdDescriptorEnum'), e),
                           ctx.I.call(ctx.name(AK, MK[r]), [], {})) if choose(2, 'implicit stream') else None
                   for e, r in (('STDIN', 'STREAM_INPUT'), ('STDOUT', 'STREAM_OUTPUT'))]
            v = ctx.new(CIO, 'CommandInvocationWithIO', SStr('command'), PList([o for o, r in fo]), PList([o for o, r in ops]), *imp)
            ctx.facts = lambda: 'an invocation with %d flags and options and these arguments: %s' % (nfo, ', '.join(descr))
            for again in range(2 if ops else 1):
                s0 = snapshot(ctx, v)
                for q, roles in QUERIES + [('get_options_with_other_output', None)]:
                    m, _ = ctx.name(CIO, 'CommandInvocationWithIO').lookup(q)
                    ctx.where = ctx.site(m) if m is not None else q
                    got = ctx.items(ctx.meth(v, q))
                    want = [deref(o) for o, r in fo if r == 'OTHER_OUTPUT'] if roles is None else [deref(o) for o, r in ops if r in roles]
                    ctx.require(got is not None and len(got) == len(want) and all(x is y for x, y in zip(got, want)),
                                'built-query:%s' % q, '%s gives %s and not %s' % (q, show(got), show(want)))
                ctx.require(same_shape(ctx, s0, snapshot(ctx, v)), 'built-query-changes', 'the queries change it to %s' % show(v))
                if not again and ops:
                    # the same after the client took an operand away
                    l = deref(ctx.attr(v, 'operand_list'))
                    l.touch()
                    l.items.pop(0)
                    ops = ops[1:]
                    descr.append('; the first operand was removed after a first round of queries')
        ctx.explore(harness)
    return task


PER_CMD = {'C06': t_exists, 'C07': t_pure, 'C08': t_stdin, 'C09': t_stdout, 'C10': t_operands, 'C11': t_effects,
           'C12': t_optargs, 'C13': t_apply, 'C32': t_queries}


def tasks(prop, tier='quick'):
    if prop == 'C05':
        return [('unknown commands', t_unknown)] + [(c, t_anything(c)) for c in COMMANDS]
    order = ['diff', 'grep', 'sort', 'custom_sort']
    cmds = order + [c for c in COMMANDS if c not in order]
    from .c_misc import lines, ASPECTS
    built = [('built %d %d' % z, t_built_queries(*z)) for z in [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (0, 3)] + (
        [(2, 1), (2, 2), (1, 3), (0, 4)] if tier == 'thorough' else [])]
    return (built if prop == 'C32' else [('history', t_history)] if prop == 'C07' else []) + [(c, PER_CMD[prop](c)) for c in cmds] + (lines(prop, cmds, tier) if prop in ASPECTS else [])
