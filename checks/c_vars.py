"""Invocations over stream variables: instantiating, redirecting, querying (C22-C29, C35)."""
from .base import *
from .c_io import snapshot, same_shape
from .c_par import splitter, agg_spec, mapper_spec, agg_kind, SPLITTERS
from .parspec import CC, RR, RRU

MAKE = {'CONFIG_INPUT': 'make_config_input', 'STREAM_INPUT': 'make_stream_input',
        'CONTAINER_FOR_INPUT': 'make_container_for_input', 'EXCLUDES_FROM_INPUT': 'make_excludes_from_input',
        'OTHER_INPUT': 'make_other_input', 'STREAM_OUTPUT': 'make_stream_output', 'OTHER_OUTPUT': 'make_other_output'}
QUICK_KINDS = ['STREAM_INPUT', 'STREAM_OUTPUT', 'CONFIG_INPUT', 'OTHER_OUTPUT', 'OTHER_INPUT']
SCHEMES = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [17, 3, 12, 1, 8, 21, 5, 99, 2, 6], [9, 8, 7, 6, 5, 4, 3, 2, 1, 11]]
ORDER = [4, 1, 7, 0, 9, 2, 8, 5, 3, 6]


def fresh(base, n, scheme=0):
    """n new stream variables, in no particular order; with schemes 1 and 2 one of those that start at 100 (150) is 0"""
    out = [base + ORDER[i % 10] + 10 * (i // 10) for i in range(n)]
    if out and (scheme, base) in ((1, 100), (2, 150)):
        out[min(1, n - 1)] = 0
    return out


def access(ctx, kind):
    return ctx.I.call(ctx.name(AK, MAKE[kind]), [], {})


MANY = 'many'


class Shape:
    """an abstract invocation over stream variables and what it is made of"""
    def __init__(self, ctx, nfo, nops, kinds, cmd=None, implicit=True, valid=False):
        self.ctx = ctx
        I = ctx.I
        self.scheme = choose(len(SCHEMES), 'numbering of variables')
        ids = list(SCHEMES[self.scheme])
        many = nfo == MANY
        if many:
            # a long invocation: the choices go round instead of being explored
            turn, made = nops, [0]
            nfo = nops = 60
            ids = [1000 + (37 * i + 11) % 131 for i in range(130)]
            once = ['STREAM_INPUT', 'STREAM_OUTPUT']
            if valid:
                kinds = [k for k in kinds if k not in once]

        def pick(n, what):
            if not many:
                return choose(n, what)
            made[0] += 1
            return (made[0] // 2 + made[0] + turn) % n
        self.cmd = cmd or SStr('command')
        self.access = {}
        acc = PDict()
        self.fo, self.ops = [], []

        def var(what):
            k = once.pop(0) if many and valid and once and len(ids) < 128 else kinds[pick(len(kinds), what)]
            v = ids.pop(0)
            self.access[v] = k
            I.dict_set(acc, v, access(ctx, k))
            return v
        els = []
        for i in range(nfo):
            c = pick(3, 'flag, option with string, option with file')
            nm = SStr('name%d' % i) if not many else ['-k', '-t', '-x', '--part', '-m'][pick(5, 'name')]
            if c == 0:
                self.fo.append(('flag', nm, None))
                els.append(ctx.flag(nm))
            elif c == 1:
                a = SStr('arg%d' % i)
                self.fo.append(('option', nm, a))
                els.append(ctx.new(BDV, 'OptionWithIOVar', nm, ctx.new(BD, 'ArgStringType', a)))
            else:
                v = var('access of option argument')
                self.fo.append(('option', nm, v))
                els.append(ctx.new(BDV, 'OptionWithIOVar', nm, v))
        oels = []
        for i in range(nops):
            if pick(2, 'string or file'):
                v = var('access of operand')
                self.ops.append(v)
                oels.append(v)
            else:
                w = SStr('operand%d' % i)
                self.ops.append(w)
                oels.append(ctx.new(BD, 'ArgStringType', w))
        self.imp_in = self.imp_out = None
        if implicit and not (many and valid) and choose(2, 'implicit input'):
            self.imp_in = ids.pop(0)
            self.access[self.imp_in] = 'STREAM_INPUT'
            I.dict_set(acc, self.imp_in, access(ctx, 'STREAM_INPUT'))
        if implicit and not (many and valid) and choose(2, 'implicit output'):
            self.imp_out = ids.pop(0)
            self.access[self.imp_out] = 'STREAM_OUTPUT'
            I.dict_set(acc, self.imp_out, access(ctx, 'STREAM_OUTPUT'))
        if valid and (len(self.vars('STREAM_INPUT')) != 1 or len(self.vars('STREAM_OUTPUT')) != 1):
            raise Infeasible()
        self.given = (PList(els), PList(oels), acc)
        self.inv = ctx.new(CIV, 'CommandInvocationWithIOVars', self.cmd, self.given[0], self.given[1], self.imp_in, self.imp_out, acc)
        ctx.facts = self.show

    def fresh(self, base, n):
        return fresh(base, n, self.scheme)

    def occurring(self):
        vs = [a for k, n, a in self.fo if isinstance(a, int)] + [o for o in self.ops if isinstance(o, int)]
        return vs + [v for v in (self.imp_in, self.imp_out) if v is not None]

    def vars(self, *kinds):
        return [v for v in self.occurring() if self.access[v] in kinds]

    def show(self):
        def s(a):
            return '%s#%d' % (self.access.get(a, '?'), a) if isinstance(a, int) else show(deref(a))
        return '%s %s | %s | implicit input %s, output %s' % (
            show(deref(self.cmd)), ' '.join('%s%s' % (show(deref(n)), '' if a is None else '=' + s(a)) for k, n, a in self.fo),
            ' '.join(s(o) for o in self.ops), self.imp_in, self.imp_out)

    # what the invocation should look like
    def flags(self, m=lambda v: v, drop=()):
        return [(k, n, m(a) if isinstance(a, int) else a) for k, n, a in self.fo if not (isinstance(a, int) and a in drop)]

    def operands(self, m=lambda v: v, drop=()):
        return [m(o) if isinstance(o, int) else o for o in self.ops if not (isinstance(o, int) and o in drop)]


def expect(ctx, inv, key, cmd, flags, ops, imp_in, imp_out, acc, what, only=True):
    """inv consists of exactly these parts"""
    ctx.require(ctx.same(ctx.attr(inv, 'cmd_name'), cmd), key + ':command', '%s has the command %s' % (what, show(ctx.attr(inv, 'cmd_name'))))
    got = ctx.items(ctx.attr(inv, 'flag_option_list')) or []
    ok = len(got) == len(flags)
    for g, (k, n, a) in zip(got, flags):
        if not ok:
            break
        if k == 'flag':
            ok = ctx.isa(g, BD, 'Flag') and ctx.same(ctx.meth(g, 'get_name'), n)
        else:
            ok = ctx.isa(g, BDV, 'OptionWithIOVar') and ctx.same(ctx.meth(g, 'get_name'), n) and word(ctx, ctx.meth(g, 'get_arg'), a)
    ctx.require(ok, key + ':flags', '%s has the flags and options %s and not %s' % (what, show(got), show([f[1:] for f in flags])))
    got = ctx.items(ctx.attr(inv, 'operand_list')) or []
    ctx.require(len(got) == len(ops) and all(word(ctx, g, o) for g, o in zip(got, ops)), key + ':operands',
                '%s has the operands %s and not %s' % (what, show(got), show(ops)))
    for a, w, nm in (('implicit_use_of_streaming_input', imp_in, 'input'), ('implicit_use_of_streaming_output', imp_out, 'output')):
        g = ctx.attr(inv, a)
        ctx.require(g is w or isinstance(g, int) and isinstance(w, int) and g == w, key + ':implicit-' + nm,
                    '%s has the implicit %s %s and not %s' % (what, nm, show(g), w))
    m = {}
    d = ctx.attr(inv, 'access_map')
    for k, v in d.d.values():
        m[deref(k)] = ctx.kind(v)
    bad = {k: (m.get(k), v) for k, v in acc.items() if m.get(k) != v}
    ctx.require(not bad, key + ':access', '%s has the access kinds %s; wrong: %s' % (what, m, bad))
    if only:
        ctx.require(set(m) <= set(acc), key + ':stale-access', '%s still lists the access of variables it no longer has: %s' %
                    (what, sorted(set(m) - set(acc), key=str)))


def word(ctx, g, w):
    g = deref(g)
    if isinstance(w, int):
        return isinstance(g, int) and g == w
    return ctx.isa(g, BD, 'ArgStringType') and ctx.same(ctx.meth(g, 'get_name'), w)


def sizes(tier):
    base = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0), (1, 2), (2, 1), (0, 3)]
    return base + [(2, 2), (1, 3), (0, 4)] if tier == 'thorough' else base


def kinds(ctx, nfo, nops):
    if nfo == MANY:
        return KINDS
    n = nfo + nops
    if ctx.thorough:
        return KINDS if n <= 3 else QUICK_KINDS
    return KINDS if n <= 2 else QUICK_KINDS[:4]


def method_site(ctx, cls_mod, cls, m):
    f, _ = ctx.name(cls_mod, cls).lookup(m)
    return ctx.site(f) if f is not None else '%s.%s' % (cls, m)


# ------------------------------------------------------------------ C26
ROLE_QUERIES = [('get_operands_with_config_input', 'CONFIG_INPUT'), ('get_operands_with_stream_input', 'STREAM_INPUT'),
                ('get_operands_with_other_input', 'OTHER_INPUT'), ('get_operands_with_stream_output', 'STREAM_OUTPUT'),
                ('get_operands_with_other_output', 'OTHER_OUTPUT')]


def t_queries(nfo, nops):
    def task(ctx):
        def harness():
            s = Shape(ctx, nfo, nops, kinds(ctx, nfo, nops))
            s0 = snapshot(ctx, s.inv)
            ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'generate_inputs')
            for rnd in range(2):
                i = deref(ctx.meth(s.inv, 'generate_inputs'))
                want = s.vars('STREAM_INPUT')
                ctx.require(ctx.I.truth(ctx.meth(i, 'is_streaming')), 'inputs:streaming', 'the inputs are not streams')
                got = ctx.items(ctx.meth(i, 'get_streaming_inputs'))
                ctx.require(got == want, 'inputs:streams', 'the stream inputs are %s and not %s' % (got, want))
                ctx.require(ctx.items(ctx.meth(i, 'get_all_inputs')) == want + (ctx.items(ctx.meth(i, 'get_config_inputs')) or [])
                            or ctx.items(ctx.meth(i, 'get_all_inputs')) == (ctx.items(ctx.meth(i, 'get_config_inputs')) or []) + want,
                            'inputs:all', 'all inputs are %s' % show(ctx.meth(i, 'get_all_inputs')))
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'generate_outputs')
                got = ctx.items(ctx.meth(s.inv, 'generate_outputs'))
                want = s.vars('STREAM_OUTPUT', 'OTHER_OUTPUT')
                ctx.require(got == want, 'outputs', 'the outputs are %s and not %s' % (got, want))
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'has_other_outputs')
                got = ctx.I.truth(ctx.meth(s.inv, 'has_other_outputs'))
                ctx.require(got == bool(s.vars('OTHER_OUTPUT')), 'other-outputs', 'it claims to have %s outputs besides streams' %
                            ('' if got else 'no'))
                for q, k in ROLE_QUERIES:
                    ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', q)
                    got = ctx.items(ctx.meth(s.inv, q))
                    want = [o for o in s.ops if (s.access[o] == k if isinstance(o, int) else k == 'CONFIG_INPUT')]
                    ctx.require(got is not None and len(got) == len(want) and all(word(ctx, g, o) for g, o in zip(got, want)),
                                'operands-by-role:%s' % q, '%s gives %s and not %s' % (q, show(got), show(want)))
                q = 'get_options_with_other_output'
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', q)
                got = ctx.items(ctx.meth(s.inv, q))
                want = [(n, a) for c, n, a in s.fo if isinstance(a, int) and s.access[a] == 'OTHER_OUTPUT']
                ctx.require(got is not None and len(got) == len(want) and all(
                    ctx.isa(g, BDV, 'OptionWithIOVar') and ctx.same(ctx.meth(g, 'get_name'), n) and word(ctx, ctx.meth(g, 'get_arg'), a)
                    for g, (n, a) in zip(got, want)), 'options-by-role', '%s gives %s and not %s' % (q, show(got), show(want)))
                ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'query-changes', 'the queries change it to %s' % show(s.inv))
            ctx.require(not ctx.I.truth(ctx.meth(s.inv, 'is_aggregator_concatenate')), 'plain-aggregator', 'it claims to be an aggregator')
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C27
def t_remove(nfo, nops):
    def task(ctx):
        def harness():
            s = Shape(ctx, nfo, nops, kinds(ctx, nfo, nops))
            which = choose(3, 'inputs, outputs or both')
            drop = []
            given = snapshot(ctx, s.given[0]), snapshot(ctx, s.given[1]), snapshot(ctx, s.given[2])
            if which != 1:
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'remove_streaming_inputs')
                ctx.meth(s.inv, 'remove_streaming_inputs')
                drop += s.vars('STREAM_INPUT')
            if which != 0:
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'remove_streaming_outputs')
                ctx.meth(s.inv, 'remove_streaming_outputs')
                drop += s.vars('STREAM_OUTPUT')
            expect(ctx, s.inv, 'removed', s.cmd, s.flags(drop=drop), s.operands(drop=drop),
                   None if s.imp_in in drop else s.imp_in, None if s.imp_out in drop else s.imp_out,
                   {v: k for v, k in s.access.items() if v not in drop}, 'the invocation without its streams')
            after = snapshot(ctx, s.given[0]), snapshot(ctx, s.given[1]), snapshot(ctx, s.given[2])
            ctx.require(all(same_shape(ctx, x, y) for x, y in zip(given, after)), 'removal-shared',
                        'lists handed to the constructor are changed: %s' % show(s.given[0]))
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C35
def t_redirect(nfo, nops):
    def task(ctx):
        def harness():
            s = Shape(ctx, nfo, nops, kinds(ctx, nfo, nops))
            how = choose(5, 'what is redirected')
            ins, outs = s.vars('STREAM_INPUT'), s.vars('STREAM_OUTPUT')
            m = {}
            given = snapshot(ctx, s.given[0]), snapshot(ctx, s.given[1]), snapshot(ctx, s.given[2])
            if how == 4:
                # a single variable
                vs = s.occurring() if nfo != MANY else s.occurring()[::17]
                if not vs:
                    raise Infeasible()
                v = vs[choose(len(vs), 'variable')]
                m[v] = new = 0 if s.scheme else 200
                if choose(2, 'something recorded about the new variable'):
                    # from before, it is used nowhere
                    ctx.I.dict_set(ctx.attr(s.inv, 'access_map'), new, access(ctx, 'OTHER_OUTPUT' if s.access[v] != 'OTHER_OUTPUT' else 'STREAM_INPUT'))
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', 'replace_var')
                ctx.meth(s.inv, 'replace_var', v, new)
            else:
                off = choose(3, 'number of new streams') - 1 if how < 3 else 0      # too few, as many, too many
                new_in = s.fresh(100, len(ins) + (off if how in (0, 2) else 0)) if len(ins) + off >= 0 else None
                new_out = s.fresh(150, len(outs) + (off if how in (1, 2) else 0)) if len(outs) + off >= 0 else None
                name = {0: 'substitute_inputs_in_cmd_invocation', 1: 'substitute_outputs_in_cmd_invocation',
                        2: 'substitute_inputs_and_outputs_in_cmd_invocation',
                        3: 'substitute_inputs_and_outputs_in_cmd_invocation'}[how]
                if how == 2 and off == 0:
                    raise Infeasible()
                args = {0: [new_in], 1: [new_out], 2: [new_in, new_out], 3: [new_in, new_out]}[how]
                if any(a is None for a in args):
                    raise Infeasible()
                if not off and (len(ins) > 1 if how == 0 else len(outs) > 1 if how == 1 else ins or outs) and choose(2, 'new streams in use before'):
                    # streams are exchanged for each other
                    both = (ins if how != 1 else []) + (outs if how != 0 else [])
                    both = both[1:] + both[:1]
                    if how != 1:
                        new_in = both[:len(ins)]
                    if how != 0:
                        new_out = both[len(both) - len(outs):]
                    args = {0: [new_in], 1: [new_out], 3: [new_in, new_out]}[how]
                ctx.where = method_site(ctx, CIV, 'CommandInvocationWithIOVars', name)
                _, exc = ctx.attempt(ctx.I.getattr(s.inv, name), [PList(list(a)) for a in args])
                if off:
                    ctx.require(exc is not None, 'redirect-count', '%d streams are redirected to %s without an error' %
                                (len(ins) if how == 0 else len(outs) if how == 1 else len(ins) + len(outs), args))
                    return
                ctx.require(exc is None, 'redirect-raises', 'redirecting raises %s' % exc)
                if exc is not None:
                    return
                if how != 1:
                    m.update(zip(ins, new_in))
                if how != 0:
                    m.update(zip(outs, new_out))

            def f(v):
                return m.get(v, v) if v is not None else None
            expect(ctx, s.inv, 'redirected', s.cmd, s.flags(f), s.operands(f), f(s.imp_in), f(s.imp_out),
                   {f(v): k for v, k in s.access.items()}, 'the redirected invocation')
            after = snapshot(ctx, s.given[0]), snapshot(ctx, s.given[1]), snapshot(ctx, s.given[2])
            ctx.require(all(same_shape(ctx, x, y) for x, y in zip(given, after)), 'redirect-shared',
                        'lists handed to the constructor are changed: %s' % show(s.given[0]))
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C23
def parallelizer(ctx, mapper, agg, pipes=0, split=CC):
    return deref(ctx.I.call(ctx.name(PAR + 'Parallelizer', 'Parallelizer'), [splitter(ctx, split), mapper, agg, None, pipes], {}))


def custom_mapper(ctx, how, done):
    """a custom mapper specification -> (spec, function from the original flags to the expected ones)"""
    M, T = PAR + 'MapperSpec', PAR + 'TransformerFlagOptionList'
    mk = ctx.name(M, 'make_mapper_spec_custom')
    if how == 'same flags':
        return ctx.I.call(mk, ['map_part'], {'is_implemented': done}), lambda fl: fl
    if how == 'no flags':
        t = ctx.I.call(ctx.name(T, 'make_transformer_empty'), [], {})
        return ctx.I.call(mk, ['map_part', t], {'is_implemented': done}), lambda fl: []
    if how == 'more flags':
        t = ctx.I.call(ctx.name(T, 'make_transformer_add'), [PList([ctx.flag('--part')])], {})
        return ctx.I.call(mk, ['map_part', t], {'is_implemented': done}), \
            lambda fl: fl if any([k == 'flag' and ctx.I.eq(n, '--part') for k, n, a in fl]) else fl + [('flag', '--part', None)]
    return ctx.I.call(ctx.name(M, 'make_mapper_spec_custom_from_string_representation'), ['cat -n --squeeze-blank'],
                      {'is_implemented': done}), lambda fl: [('flag', '-n', None), ('flag', '-s', None)]


def t_mapper(nfo, nops):
    def task(ctx):
        def harness():
            s = Shape(ctx, nfo, nops, kinds(ctx, nfo, nops), valid=True)
            how = ['sequential', 'same flags', 'no flags', 'more flags', 'from string'][choose(5, 'mapper')]
            done = how == 'sequential' or bool(choose(2, 'implemented'))
            direct = choose(2, 'through the parallelizer') == 0
            if how == 'sequential':
                spec, tr = mapper_spec(ctx, 'same'), (lambda fl: fl)
            else:
                spec, tr = custom_mapper(ctx, how, done)
            fl = tr(s.flags())
            lost = [a for k, n, a in s.fo if isinstance(a, int) and a not in [x for _, _, x in fl]]
            if set(lost) & set(s.vars('STREAM_INPUT', 'STREAM_OUTPUT')):
                raise Infeasible()      # the stream is in an option that this mapper does not keep
            ctx.where = method_site(ctx, PAR + 'MapperSpec', 'MapperSpec', 'get_mapper')
            (src,), (dst,) = s.fresh(100, 1), s.fresh(150, 1)
            if direct and how in ('sequential', 'same flags'):
                # streams of the original are kept or used for something else
                a, b = s.vars('STREAM_INPUT')[0], s.vars('STREAM_OUTPUT')[0]
                src, dst = [(src, dst), (a, dst), (src, b), (b, dst), (b, a)][choose(5, 'new streams')]
            if direct:
                r = deref(ctx.meth(spec, 'get_mapper', s.inv, src, dst, PList([])))
            else:
                r = deref(ctx.meth(parallelizer(ctx, spec, agg_spec(ctx, 'CONCATENATE')), 'get_actual_mapper', s.inv, src, dst, PList([])))
            if not done:
                ctx.require(r is None, 'mapper-unfinished', 'an unimplemented mapper yields %s' % show(r))
                return
            ctx.require(r is not None and ctx.isa(r, CIV, 'CommandInvocationWithIOVars'), 'mapper-missing', 'the mapper is %s' % show(r))
            if r is None:
                return
            m = {s.vars('STREAM_INPUT')[0]: src, s.vars('STREAM_OUTPUT')[0]: dst}

            def f(v):
                return m.get(v, v) if v is not None else None
            expect(ctx, r, 'mapper', s.cmd if how == 'sequential' else 'cat' if how == 'from string' else 'map_part',
                   [(k, n, f(a) if isinstance(a, int) else a) for k, n, a in fl], s.operands(f), f(s.imp_in), f(s.imp_out),
                   {f(v): k for v, k in s.access.items() if v not in lost}, 'the mapper', only=not lost)
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C24
def t_concat(ctx):
    """cat of any number of parts"""
    def harness():
        s = Shape(ctx, 1, 1, QUICK_KINDS[:3])
        n = [0, 1, 2, 3, 4, 33, 45][choose(7, 'number of parts')]
        ins, (dst,) = s.fresh(100, n), s.fresh(150, 1)
        spec = agg_spec(ctx, 'CONCATENATE')
        given = PList(list(ins))
        ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpecNonFunc', 'get_aggregator')
        s0 = snapshot(ctx, s.inv)
        a = deref(ctx.meth(parallelizer(ctx, mapper_spec(ctx, 'same'), spec), 'get_actual_aggregator', s.inv, given, dst))
        acc = {v: 'STREAM_INPUT' for v in ins}
        acc[dst] = 'STREAM_OUTPUT'
        ctx.require(a is not None, 'cat-missing', 'there is no aggregator')
        if a is None:
            return
        expect(ctx, a, 'cat', 'cat', [], ins, None, dst, acc, 'the aggregator')
        ctx.require(ctx.I.truth(ctx.meth(a, 'is_aggregator_concatenate')), 'cat-kind', 'it does not say that it concatenates')
        ctx.require(ctx.items(given) == ins, 'cat-changes-parts', "the caller's list of parts becomes %s" % show(given))
        ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'cat-changes-invocation', 'the original becomes %s' % show(s.inv))
    ctx.explore(harness)


def t_unfinished_agg(ctx):
    """aggregators that are only placeholders give nothing"""
    def harness():
        s = Shape(ctx, 1, 1, QUICK_KINDS[:3])
        kinds_ = ['ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_2_ARY by transformer', 'CUSTOM_N_ARY',
                  'ADJ_LINES_FUNC by transformer']
        what = kinds_[choose(len(kinds_), 'aggregator')]
        n = choose(4, 'number of parts')
        if what == 'ADJ_LINES_FUNC by transformer':
            spec = ctx.I.call(ctx.name(PAR + 'AggregatorSpec', 'make_aggregator_spec_adj_lines_func_from_cmd_inv_with_transformers'), [], {})
        else:
            spec = agg_spec(ctx, what, False)
        ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpec', 'get_aggregator')
        p = parallelizer(ctx, mapper_spec(ctx, 'same'), spec)
        a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_aggregator'), [s.inv, PList(s.fresh(100, n)), s.fresh(150, 1)[0]])
        ctx.require(exc is None and deref(a) is None, 'unfinished-aggregator', 'an unimplemented aggregator (%s) yields %s' % (what, exc or show(a)))
        ctx.require(not ctx.I.truth(ctx.meth(p, 'are_all_parts_implemented')), 'unfinished-report', 'all parts are reported implemented')
    ctx.explore(harness)


def t_two_by_string(ctx):
    def harness():
        s = Shape(ctx, 1, 1, QUICK_KINDS[:3])
        nary = choose(2, 'for any number of parts')
        n = choose(4, 'number of parts')
        ins, (dst,) = s.fresh(100, n), s.fresh(150, 1)
        text, flags = [('merge_parts', []), ('sort -m --reverse', ['-m', '-r'])][choose(2, 'flags')]
        f = 'make_aggregator_spec_custom_%s_ary_from_string_representation' % ('n' if nary else '2')
        spec = ctx.I.call(ctx.name(PAR + 'AggregatorSpec', f), [text, True], {})
        ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpecFuncStringRepresentation', 'get_aggregator')
        given = PList(list(ins))
        p = parallelizer(ctx, mapper_spec(ctx, 'same'), spec)
        a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_aggregator'), [s.inv, given, dst])
        if not nary and n != 2:
            ctx.require(exc is not None, 'two-parts', 'an aggregator for two parts accepts %d' % n)
            return
        ctx.require(exc is None and deref(a) is not None, 'aggregator-missing', 'it gives %s' % (exc or 'nothing'))
        if exc is None and deref(a) is not None:
            acc = {v: 'STREAM_INPUT' for v in ins}
            acc[dst] = 'STREAM_OUTPUT'
            expect(ctx, deref(a), 'custom', text.split()[0], [('flag', x, None) for x in flags], ins, None, dst, acc, 'the aggregator')
            ctx.require(not ctx.I.truth(ctx.meth(a, 'is_aggregator_concatenate')), 'custom-kind', 'it says that it concatenates')
    ctx.explore(harness)


def t_two_by_transformer(nfo, nops):
    """the original command with other flags, reading two parts"""
    def task(ctx):
        T = PAR + 'TransformerFlagOptionList'

        def harness():
            s = Shape(ctx, nfo, nops, kinds(ctx, nfo, nops))
            n = choose(4, 'number of parts')
            made_by, legal = [('custom_2_ary', (2,)), ('custom_n_ary', range(9)), ('adj_lines_func', (1,))][choose(3, 'aggregator')]
            ins, (dst,) = s.fresh(100, n), s.fresh(150, 1)
            if n == 2 and s.vars('STREAM_OUTPUT') and choose(2, 'output of the original'):
                dst = s.vars('STREAM_OUTPUT')[0]
            how = choose(3, 'flags of the aggregator') if made_by == 'custom_2_ary' or ctx.thorough else 1
            I = ctx.I
            if how == 0:
                t, tr = None, lambda fl: fl
            elif how == 1:
                t = I.call(ctx.name(T, 'make_transformer_filter'), [PList(['-k', '-t'])], {})
                tr = lambda fl: [x for x in fl if I.word_in(x[1], ['-k', '-t'])]
            else:
                t = I.call(ctx.name(T, 'make_transformer_add'), [PList([ctx.flag('-m')])], {})
                tr = lambda fl: fl if any([x[0] == 'flag' and I.eq(x[1], '-m') for x in fl]) else fl + [('flag', '-m', None)]
            spec = I.call(ctx.name(PAR + 'AggregatorSpec', 'make_aggregator_spec_%s_from_cmd_inv_with_transformers' % made_by), [],
                          {'flag_option_list_transformer': t, 'is_implemented': True})
            ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpecFuncTransformer', 'get_aggregator')
            given = PList(list(ins))
            s0 = snapshot(ctx, s.inv)
            p = parallelizer(ctx, mapper_spec(ctx, 'same'), spec)
            a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_aggregator'), [s.inv, given, dst])
            ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'aggregator-changes-invocation', 'the original becomes %s' % show(s.inv))
            if n not in legal:
                ctx.require(exc is not None, 'two-parts', 'an aggregator for %d parts (%s) accepts %d' % (legal[0], made_by, n))
                return
            ctx.require(exc is None and deref(a) is not None, 'aggregator-missing', 'it gives %s' % (exc or 'nothing'))
            if exc is not None or deref(a) is None:
                return
            drop = s.vars('STREAM_INPUT', 'STREAM_OUTPUT')
            fl = tr(s.flags(drop=drop))
            acc = {v: 'STREAM_INPUT' for v in ins}
            acc[dst] = 'STREAM_OUTPUT'
            for k, nm, x in fl:
                if isinstance(x, int):
                    acc[x] = s.access[x]
            expect(ctx, deref(a), 'transformed', s.cmd, fl, ins, None, dst, acc, 'the aggregator', only=False)
            m = {deref(k): ctx.kind(v) for k, v in ctx.attr(deref(a), 'access_map').d.values()}
            bad = [v for v in drop if v in m and v != dst]
            ctx.require(not bad, 'transformed:stale-access', 'it still reads or writes the streams %s of the original' % bad)
            ctx.require(ctx.items(given) == ins, 'aggregator-changes-parts', "the caller's list of parts becomes %s" % show(given))
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C25
def t_aux(ctx):
    """auxiliary pipes from mappers to the aggregator"""
    def harness():
        nops = choose(3, 'number of operands')
        s = Shape(ctx, choose(2, 'number of flags'), nops, ['STREAM_INPUT', 'STREAM_OUTPUT', 'CONFIG_INPUT'], valid=True)
        if any(not isinstance(o, int) for o in s.ops) or any(isinstance(a, int) for k, n, a in s.fo):
            raise Infeasible()
        n = [1, 2, 3, 14, 4][choose(5 if ctx.thorough else 4, 'number of pipes')]
        given = choose(3, 'pipes given') - 1
        own = choose(2, 'mapper')
        spec, tr = custom_mapper(ctx, ['same flags', 'from string'][own], True)
        p = parallelizer(ctx, spec, ctx.I.call(ctx.name(PAR + 'AggregatorSpec', 'make_aggregator_spec_custom_2_ary_from_string_representation'),
                                               ['sort --merge', True], {}), n)
        aux, (src,), (dst,) = fresh(160, n + given), s.fresh(100, 1), s.fresh(150, 1)
        ctx.where = method_site(ctx, PAR + 'MapperSpec', 'MapperSpec', 'get_mapper')
        lst = PList(list(aux))
        s0 = snapshot(ctx, s.inv)
        m, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_mapper'), [s.inv, src, dst, lst])
        if given:
            ctx.require(exc is not None, 'pipes-count', 'a mapper with %d pipes accepts %d' % (n, n + given))
        else:
            ctx.require(exc is None and deref(m) is not None, 'aux-mapper-missing', 'the mapper is %s' % (exc or 'missing'))
            if exc is None and deref(m) is not None:
                acc = {v: 'STREAM_OUTPUT' for v in [dst] + aux}
                acc[src] = 'STREAM_INPUT'
                expect(ctx, deref(m), 'aux-mapper', 'cat' if own else 'map_part', tr(s.flags()), [src, dst] + aux, None, None, acc, 'the mapper')
                ctx.require(ctx.items(lst) == aux, 'aux-list', "the caller's list of pipes becomes %s" % show(lst))
        ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'aux-changes-invocation', 'the original becomes %s' % show(s.inv))
        # two parts
        k1, k2, k3 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, -1, -1)][choose(5, 'pipes of the two parts and the result')]
        f, g, h = fresh(200, n + k1), fresh(400, n + k2), fresh(300, n + k3)
        one, two = s.fresh(100, 2)
        ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpecFuncStringRepresentation', 'get_actual_2_ary_aggregator_with_aux')
        a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_2_ary_aggregator_with_aux'), [one, PList(list(f)), two, PList(list(g)), dst, PList(list(h))])
        if not (k1 == k2 == k3):
            ctx.require(exc is not None, 'aux-count', 'two parts with %d and %d pipes and %d pipes for the result are accepted' %
                        (len(f), len(g), len(h)))
            return
        ctx.require(exc is None and deref(a) is not None, 'aux-aggregator-missing', 'the aggregator is %s' % (exc or 'missing'))
        if exc is None and deref(a) is not None:
            acc = {v: 'STREAM_INPUT' for v in [one, two] + f + g}
            acc.update({v: 'STREAM_OUTPUT' for v in [dst] + h})
            expect(ctx, deref(a), 'aux-aggregator', 'sort', [('flag', '-m', None)], [one] + f + [two] + g + [dst] + h, None, None, acc,
                   'the aggregator')
    ctx.explore(harness)


def t_aux_refused(ctx):
    """aggregators without auxiliary pipes refuse them"""
    def harness():
        what = ['CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'CUSTOM_2_ARY by transformer'][choose(4, 'aggregator')]
        n = choose(3, 'pipes')
        p = parallelizer(ctx, mapper_spec(ctx, 'same'), agg_spec(ctx, what), n)
        ctx.facts = lambda: '%s with %d pipes' % (what, n)
        ctx.where = method_site(ctx, PAR + 'AggregatorSpec', 'AggregatorSpecNonFunc' if 'trans' not in what else 'AggregatorSpecFuncTransformer',
                                'get_actual_2_ary_aggregator_with_aux')
        a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_2_ary_aggregator_with_aux'),
                             [104, PList(fresh(200, n)), 101, PList(fresh(220, n)), 150, PList(fresh(210, n))])
        ctx.require(exc is not None, 'aux-accepted', 'an aggregator that knows no pipes silently drops them: %s' % show(a))
    ctx.explore(harness)


# ------------------------------------------------------------------ C22
def renumber(v, m):
    """a snapshot with other stream variables"""
    if isinstance(v, list):
        return [renumber(x, m) for x in v]
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'value' and type(v[1]) is int:
            return ('value', m.get(v[1], v[1]))
        return tuple(renumber(x, m) for x in v)
    return v


def t_isolated(nfo, nops):
    def task(ctx):
        T = PAR + 'TransformerFlagOptionList'

        def harness():
            s = Shape(ctx, nfo, nops, QUICK_KINDS[:3] if not ctx.thorough else QUICK_KINDS, valid=True)
            I = ctx.I
            how = ['conc', 'transformer', 'string', 'transformed mapper'][choose(4, 'parallelizer')]
            if how == 'conc':
                m, a = mapper_spec(ctx, 'same'), agg_spec(ctx, 'CONCATENATE')
            elif how in ('transformer', 'transformed mapper'):
                t = [I.call(ctx.name(T, 'make_transformer_filter'), [PList(['-k', '-t'])], {}),
                     I.call(ctx.name(T, 'make_transformer_add'), [PList([ctx.flag('-m')])], {}),
                     I.call(ctx.name(T, 'make_transformer_same_as_seq'), [], {}),
                     I.call(ctx.name(T, 'make_transformer_custom'), [PList([ctx.flag('-z')])], {})][choose(4, 'transformer')]
                m = mapper_spec(ctx, 'same')
                a = I.call(ctx.name(PAR + 'AggregatorSpec', 'make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers'), [],
                           {'flag_option_list_transformer': t, 'is_implemented': True})
                if how == 'transformed mapper':
                    if any(isinstance(x, int) and s.access[x] in ('STREAM_INPUT', 'STREAM_OUTPUT') for k, n, x in s.fo):
                        raise Infeasible()      # the mapper may lose the option that holds the stream
                    m = I.call(ctx.name(PAR + 'MapperSpec', 'make_mapper_spec_custom'), ['map_part', t], {'is_implemented': True})
            else:
                if any(isinstance(x, int) for k, n, x in s.fo):
                    raise Infeasible()
                m, a = custom_mapper(ctx, 'from string', True)[0], agg_spec(ctx, 'CUSTOM_2_ARY')
            p = parallelizer(ctx, m, a)
            s0, p0 = snapshot(ctx, s.inv), snapshot(ctx, p)
            first = None
            for rnd in range(3):
                ctx.where = method_site(ctx, PAR + 'MapperSpec', 'MapperSpec', 'get_mapper')
                # other streams every time
                given, out = s.fresh(100 + 200 * rnd, 2), [s.fresh(150 + 200 * rnd, 1)[0], 151 + 200 * rnd]
                mp = deref(ctx.meth(p, 'get_actual_mapper', s.inv, given[0], out[0], PList([])))
                ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'mapper-changes-invocation', 'instantiating the mapper makes it %s' % show(s.inv))
                ctx.require(same_shape(ctx, p0, snapshot(ctx, p)), 'mapper-changes-annotation', 'instantiating the mapper makes the annotation %s' % show(p))
                ctx.where = method_site(ctx, PAR + 'Parallelizer', 'Parallelizer', 'get_actual_aggregator')
                parts = PList(list(given))
                ag = deref(ctx.meth(p, 'get_actual_aggregator', s.inv, parts, out[1]))
                ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'aggregator-changes-invocation', 'instantiating the aggregator makes it %s' % show(s.inv))
                ctx.require(same_shape(ctx, p0, snapshot(ctx, p)), 'aggregator-changes-annotation', 'instantiating the aggregator makes the annotation %s' % show(p))
                ctx.require(ctx.items(parts) == given, 'parts-changed', "the caller's list of parts becomes %s" % show(parts))
                now = [snapshot(ctx, mp), snapshot(ctx, ag)]
                if first is None:
                    first, used = now, given + out
                now = renumber(now, dict(zip(given + out, used)))
                ctx.require(same_shape(ctx, first, now), 'instances-differ', 'instance %d is %s and not %s' % (rnd + 1, now, first))
                # the client rewires what it got
                for x in (mp, ag):
                    if x is None:
                        continue
                    for l in ('flag_option_list', 'operand_list'):
                        lst = ctx.attr(x, l)
                        if rnd == 0:
                            lst.touch()
                            lst.items.append(ctx.flag('--edited'))
                        else:
                            for el in list(lst.items):
                                el = deref(el)
                                if ctx.isa(el, BDV, 'OptionWithIOVar'):
                                    I.setattr(el, 'option_arg', 999)
                                elif ctx.isa(el, BD, 'Flag'):
                                    I.setattr(el, 'flag_name', '--edited')
                                elif isinstance(el, Obj) and el.cls.name == 'ArgStringType':
                                    I.setattr(el, 'name', 'edited')
                    acc = ctx.attr(x, 'access_map')
                    for k, v in list(acc.d.values()):
                        I.setattr(deref(v), 'kind', 'edited')
                    I.dict_set(acc, 777, 'edited')
                    I.setattr(x, 'cmd_name', 'edited')
                ctx.where = method_site(ctx, PAR + 'Parallelizer', 'Parallelizer', 'get_actual_mapper')
                ctx.require(same_shape(ctx, s0, snapshot(ctx, s.inv)), 'instance-shares-invocation', 'editing an instance makes the original %s' % show(s.inv))
                ctx.require(same_shape(ctx, p0, snapshot(ctx, p)), 'instance-shares-annotation', 'editing an instance makes the annotation %s' % show(p))
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C28
def t_transformers(ctx):
    T = PAR + 'TransformerFlagOptionList'
    I = ctx.I

    def make(kind, depth, n_names):
        """-> (transformer object, meaning)"""
        if kind == 'same':
            return I.call(ctx.name(T, 'make_transformer_same_as_seq'), [], {}), lambda fl: fl
        if kind == 'empty':
            return I.call(ctx.name(T, 'make_transformer_empty'), [], {}), lambda fl: []
        if kind in ('remove', 'filter'):
            ns = ['-a', '-b'][:n_names]
            t = I.call(ctx.name(T, 'make_transformer_' + kind), [PList(list(ns))], {})
            if kind == 'remove':
                return t, lambda fl: [x for x in fl if not I.word_in(x[1], ns)]
            return t, lambda fl: [x for x in fl if I.word_in(x[1], ns)]
        els = [('flag', '-m', None), ('option', '-a', '5')][:n_names]
        objs = PList([ctx.flag(n) if k == 'flag' else ctx.new(BDV, 'OptionWithIOVar', n, ctx.new(BD, 'ArgStringType', a)) for k, n, a in els])
        if kind == 'custom':
            return I.call(ctx.name(T, 'make_transformer_custom'), [objs], {}), lambda fl: els

        def there(x, fl):
            return any([x[0] == y[0] and I.eq(x[1], y[1]) and (x[2] is None or I.eq(x[2], y[2])) for y in fl])
        return I.call(ctx.name(T, 'make_transformer_add'), [objs], {}), lambda fl: fl + [x for x in els if not there(x, fl)]
    KIND = ['same', 'empty', 'remove', 'filter', 'custom', 'add']

    def flag_list(n):
        """-> (objects, meaning) of n open flags and options, or of many known ones"""
        meta, els = [], []
        for i in range(n if n is not None else 64):
            if n is None:
                nm, opt, a = ['-a', '-b', '-m', '-x', '--long', ''][(i * 5 + i // 6) % 6], i % 3 == 0, ['5', '-', 'x' * i][i % 4 % 3]
            else:
                nm, opt, a = SStr('name%d' % i), choose(2, 'flag or option'), SStr('arg%d' % i)
            if opt:
                meta.append(('option', nm, a))
                els.append(ctx.new(BDV, 'OptionWithIOVar', nm, ctx.new(BD, 'ArgStringType', a)))
            else:
                meta.append(('flag', nm, None))
                els.append(ctx.flag(nm))
        return els, meta

    def harness():
        n = choose(4 if ctx.thorough else 3, 'number of flags and options')
        els, meta = flag_list(n)
        chain = choose(4, 'length of the chain')
        if chain == 0:
            k = KIND[choose(len(KIND), 'transformer')]
            nn = choose(3, 'names') if k not in ('same', 'empty') else 0
            t, f = make(k, 0, nn)
            what = k
        else:
            ks = [KIND[choose(len(KIND), 'transformer')] for _ in range(min(chain, 2))] + (['add'] if chain == 3 else [])
            ts = [make(k, 0, 1 if k not in ('same', 'empty') else 0) for k in ks]
            t = I.call(ctx.name(T, 'ChainTransformerFlagOptionList'), [PList([x for x, _ in ts])], {})
            what = ' then '.join(ks)

            def f(fl):
                for _, g in ts:
                    fl = g(fl)
                return fl
        ctx.facts = lambda: '%s: %s' % (what, ctx.describe('', meta, [])())
        ctx.where = ctx.site(deref(t).cls.lookup('get_flag_option_list_after_transformer_application')[0])
        given = PList(list(els))
        s0 = snapshot(ctx, given)
        other, om = flag_list(None)
        # one transformer serves many invocations
        for lst, m in ((given, meta), (PList(list(other)), om), (PList(list(other[:1] + other[2:4])), om[:1] + om[2:4]), (given, meta)):
            want = f(m)
            got = ctx.items(ctx.meth(t, 'get_flag_option_list_after_transformer_application', lst))
            ok = got is not None and len(got) == len(want)
            for g, (k, nm, a) in zip(got or [], want):
                if not ok:
                    break
                if k == 'flag':
                    ok = ctx.isa(g, BD, 'Flag') and ctx.same(ctx.meth(g, 'get_name'), nm)
                else:
                    ok = ctx.isa(g, BDV, 'OptionWithIOVar') and ctx.same(ctx.meth(g, 'get_name'), nm) and word(ctx, ctx.meth(g, 'get_arg'), a)
            ctx.require(ok, 'transformed-list:%s' % (what if chain == 0 else 'chain'),
                        'it gives %s and not %s' % (show(got), show([x[1:] for x in want])))
            ctx.require(same_shape(ctx, s0, snapshot(ctx, given)), 'transformer-changes-list', 'the given list becomes %s' % show(given))
    ctx.explore(harness)


def t_default_transformers(ctx):
    """a transformer that is not given leaves the list (same) or empties it"""
    T = PAR + 'TransformerFlagOptionList'

    def harness():
        which = choose(2, 'default')
        f = ctx.name(T, ['return_transformer_flagoption_list_same_as_seq_if_none_else_itself',
                         'return_transformer_flagoption_list_empty_if_none_else_itself'][which])
        ctx.where = ctx.site(f)
        given = choose(2, 'given')
        fl = PList([ctx.flag(SStr('name'))])
        own = ctx.I.call(ctx.name(T, 'make_transformer_custom'), [PList([ctx.flag('-q')])], {})
        t = deref(ctx.I.call(f, [own if given else None], {}))
        if given:
            ctx.require(t is deref(own), 'given-transformer', 'a given transformer is replaced by %s' % show(t))
        else:
            got = ctx.items(ctx.meth(t, 'get_flag_option_list_after_transformer_application', fl))
            ctx.require(len(got) == (0 if which else 1), 'default-transformer', 'the default gives %s' % show(got))
    ctx.explore(harness)


# ------------------------------------------------------------------ C29
TRANSFORMERS = ['same_as_seq', 'empty', 'add', 'remove', 'filter', 'custom', 'chain']


def t_equality(ctx):
    I = ctx.I
    w = lambda ctx, x: x
    ak = lambda ctx, x: access(ctx, x)
    D = ['STREAM_INPUT', 'OTHER_OUTPUT']
    W = ['a', '-', 'b\n']

    def fol(ctx, x):
        return PList([ctx.flag(x), ctx.option('-k', x)])

    def ops(ctx, x):
        return PList([ctx.operand(x)])

    def vmap(ctx, x):
        d = PDict()
        I.dict_set(d, 5, access(ctx, x))
        return d
    CL = {
        'Flag': (BD, [(w, W)]), 'Option': (BD, [(w, W), (w, W)]), 'Operand': (BD, [(w, W)]), 'ArgStringType': (BD, [(w, W)]),
        'FileName': (BD, [(w, W)]),
        'FileNameWithIOInfo': (BDIO, [(w, W), (ak, D)]),
        'OptionWithIO': (BDIO, [(w, W), (lambda ctx, x: ctx.new(BD, 'ArgStringType', x), W)]),
        'OptionWithIOVar': (BDV, [(w, W), (lambda ctx, x: ctx.new(BD, 'ArgStringType', x), W)]),
        'AccessKind': (AK, [(lambda ctx, x: I.getattr(ctx.name(AK, 'AccessKindEnum'), x), KINDS)]),
        'CommandInvocationInitial': (CII, [(w, W[:2]), (fol, W[:2]), (ops, W[:2])]),
        'CommandInvocationPrefix': (CIP, [(w, W[:2]), (fol, W[:2]), (ops, W[:2])]),
        'CommandInvocationWithIO': (CIO, [(w, W[:2]), (fol, W[:2]), (ops, W[:2]), (w, [None, 'a']), (w, [None, 'a'])]),
        'CommandInvocationWithIOVars': (CIV, [(w, W[:2]), (fol, W[:2]), (lambda ctx, x: PList([x]), [5, 6]), (w, [None, 5]), (w, [None, 6]),
                                             (vmap, D)]),
        'Mapper': (PAR + 'Mapper', [(w, W[:2]), (fol, W[:2]), (lambda ctx, x: PList([x]), [5, 6]), (w, [None, 5]), (w, [None, 6]), (vmap, D)]),
        'Aggregator': (PAR + 'Aggregator', [(lambda ctx, x: I.getattr(ctx.name(PAR + 'AggregatorKind', 'AggregatorKindEnum'), x),
                                             ['CONCATENATE', 'CUSTOM_2_ARY']), (w, W[:2]), (fol, W[:2]), (lambda ctx, x: PList([x]), [5, 6]),
                                            (w, [None, 5]), (w, [None, 6]), (vmap, D)]),
        'Splitter': (PAR + 'Splitter', [(lambda ctx, x: I.getattr(ctx.name(PAR + 'Splitter', 'SplitterKindEnum'), x), [CC, RR, RRU])]),
        'StdDescriptor': (BD, [(lambda ctx, x: I.getattr(ctx.name(BD, 'StdDescriptorEnum'), x), ['STDIN', 'STDOUT', 'STDERR'])]),
        'StdDescriptorWithIOInfo': (BDIO, [(lambda ctx, x: I.getattr(ctx.name(BD, 'StdDescriptorEnum'), x), ['STDIN', 'STDOUT']), (ak, D)]),
        'Parallelizer': (PAR + 'Parallelizer', [(splitter, [CC, 'INDIV_FILES']), (mapper_spec, ['same', 'custom']),
                                                (agg_spec, ['CONCATENATE', 'ADJ_LINES_SEQ', 'CUSTOM_2_ARY']), (w, [None]), (w, [0, 2])]),
    }
    for m, c in (('MapperSpec', 'MapperSpec'), ):
        CL['MapperSpec'] = (None, [(lambda ctx, x: mapper_spec(ctx, x[0], x[1]), [('same', True), ('custom', True), ('custom', False)])])
    CL['AggregatorSpec'] = (None, [(lambda ctx, x: agg_spec(ctx, x[0], x[1]), [(a, d) for a in
                            ('CONCATENATE', 'ADJ_LINES_SEQ', 'CUSTOM_2_ARY', 'CUSTOM_2_ARY by transformer', 'CUSTOM_N_ARY', 'ADJ_LINES_FUNC')
                            for d in ((True, False) if a.startswith('CUSTOM') else (True,))])])

    T = PAR + 'TransformerFlagOptionList'

    def transformer(kind):
        def make(ctx, x):
            arg = {'add': lambda: [fol(ctx, x)], 'custom': lambda: [fol(ctx, x)], 'remove': lambda: [PList([x])],
                   'filter': lambda: [PList([x])]}.get(kind, lambda: [])()
            return ctx.I.call(ctx.name(T, 'make_transformer_' + kind), arg, {})
        return make
    for k in TRANSFORMERS[:-1]:
        CL[k] = (None, [(transformer(k), W if k in ('add', 'custom', 'remove', 'filter') else W[:1])])
    CL['chain'] = (None, [(lambda ctx, x: ctx.I.call(ctx.name(T, 'ChainTransformerFlagOptionList'),
                                                     [PList([transformer('add')(ctx, x), transformer('remove')(ctx, 'a')])], {}), W)])

    def build(name, vals):
        mod, fields = CL[name]
        args = [f(ctx, v) for (f, _), v in zip(fields, vals)]
        return args[0] if mod is None else ctx.new(mod, name, *args)
    NAMES = sorted(CL)

    def same_class():
        name = NAMES[choose(len(NAMES), 'class')]
        mod, fields = CL[name]
        v1 = [dom[choose(len(dom), 'field')] for f, dom in fields]
        # the other one differs in at most one field, or in all
        k = choose(len(fields) + 1, 'differing field')
        v2 = list(v1)
        if k < len(fields):
            dom = [x for x in fields[k][1] if x != v1[k]]
            if not dom:
                raise Infeasible()
            v2[k] = dom[choose(len(dom), 'other value')]
        a, b = build(name, v1), build(name, v2)
        ctx.facts = lambda: '%s: %s and %s' % (name, v1, v2)
        c = deref(a).cls
        ctx.where = ctx.site(c.lookup('__eq__')[0]) if c.lookup('__eq__')[0] is not None else name
        want = v1 == v2
        ctx.require(I.truth(I.eq(a, b)) == want, 'equality:%s' % name, 'two %s %s compare %s' %
                    (name, 'with the same parts' if want else 'that differ', 'unequal' if want else 'equal'))
        ctx.require(I.truth(I.eq(b, a)) == want, 'equality:%s' % name, 'the comparison is not symmetric')
        ctx.require(I.truth(I.eq(a, a)), 'equality:%s' % name, 'it does not equal itself')

    def abstract_words():
        name = ['Flag', 'Option', 'Operand', 'ArgStringType', 'FileName', 'FileNameWithIOInfo', 'OptionWithIO', 'OptionWithIOVar'][choose(8, 'class')]
        mod, fields = CL[name]
        words = []

        def val(f, dom):
            if f is ak:
                return 'STREAM_INPUT'
            s = SStr('word%d' % len(words))
            words.append(s)
            return s
        a = build(name, [val(f, d) for f, d in fields])
        n = len(words)
        b = build(name, [val(f, d) for f, d in fields])
        ctx.facts = lambda: '%s: %s' % (name, [show(deref(x)) for x in words])
        ctx.where = name
        want = all([ctx.same(x, y) or I.eq(x, y) for x, y in zip(words[:n], words[n:])])
        ctx.require(I.truth(I.eq(a, b)) == want, 'equality:%s' % name, 'they compare %s' % ('unequal' if want else 'equal'))

    def other_class():
        ONE = ['Flag', 'Operand', 'ArgStringType', 'FileName']
        TWO_ = ['Option', 'OptionWithIO', 'OptionWithIOVar', 'FileNameWithIOInfo']
        g = [ONE, TWO_, ONE + TWO_, ['CommandInvocationInitial', 'CommandInvocationPrefix', 'CommandInvocationWithIO'],
             ['StdDescriptor', 'StdDescriptorWithIOInfo', 'FileName', 'FileNameWithIOInfo'],
             ['CommandInvocationWithIOVars', 'Mapper', 'Aggregator'],
             ['Splitter', 'Parallelizer', 'AccessKind', 'MapperSpec', 'AggregatorSpec', 'StdDescriptor', 'Flag'],
             TRANSFORMERS][choose(8, 'group')]
        n1 = g[choose(len(g), 'class')]
        n2 = g[choose(len(g), 'other class')]
        if n1 == n2:
            raise Infeasible()

        def first(n):
            return [d[0] if f is not ak else 'STREAM_INPUT' for f, d in CL[n][1]]
        a, b = build(n1, first(n1)), build(n2, first(n2))
        ctx.facts = lambda: '%s and %s of the same word' % (n1, n2)
        ctx.where = n1
        ctx.require(not I.truth(I.eq(a, b)), 'equality-across:%s' % n1, 'a %s equals a %s' % (n1, n2))
        ctx.require(not I.truth(I.eq(a, None)) and not I.truth(I.eq(a, 'a')), 'equality-across:%s' % n1, 'a %s equals None or a string' % n1)
    ctx.explore(same_class, 'same class')
    ctx.explore(abstract_words, 'abstract words')
    ctx.explore(other_class, 'other class')


def tasks(prop, tier='quick'):
    def per(f, szs):
        return [('%d flags/options, %d operands' % s, f(*s)) for s in sorted(szs, key=lambda s: -sum(s))] + \
            [('long %d' % k, f(MANY, k)) for k in range(2 if tier == 'quick' else 6)]
    sz = sizes(tier)
    if prop == 'C22':
        return per(t_isolated, [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)] + ([(1, 2), (2, 1)] if tier == 'thorough' else []))
    if prop == 'C23':
        return per(t_mapper, sz)
    if prop == 'C24':
        return [('cat', t_concat), ('unimplemented', t_unfinished_agg), ('by string', t_two_by_string)] + \
            per(t_two_by_transformer, [x for x in sz if sum(x) < 3] + ([(1, 2), (2, 1), (0, 3)] if tier == 'thorough' else []))
    if prop == 'C25':
        return [('pipes', t_aux), ('no pipes', t_aux_refused)]
    if prop == 'C26':
        return per(t_queries, sz)
    if prop == 'C27':
        return per(t_remove, sz)
    if prop == 'C28':
        return [('transformers', t_transformers), ('defaults', t_default_transformers)]
    if prop == 'C29':
        return [('equality', t_equality)]
    if prop == 'C35':
        return per(t_redirect, sz)
