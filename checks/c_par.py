"""Parallelizability annotations (C15-C21)."""
from .base import *
from . import parspec
from .parspec import CC, RR, RRU, CONC, TWO, SAME, PAR_CMDS, NO_PAR, NEWLINE, RR_OK
from .iospec import COMMANDS

LEN = {'quick': [(2, 2), (1, 4)], 'thorough': [(3, 3), (2, 5), (1, 9)]}
AGGS = {'is_aggregator_spec_concatenate': 'CONCATENATE', 'is_aggregator_spec_adj_lines_merge': 'ADJ_LINES_MERGE',
        'is_aggregator_spec_adj_lines_seq': 'ADJ_LINES_SEQ', 'is_aggregator_spec_adj_lines_func': 'ADJ_LINES_FUNC',
        'is_aggregator_spec_custom_2_ary': 'CUSTOM_2_ARY', 'is_aggregator_spec_custom_n_ary': 'CUSTOM_N_ARY'}


class Query:
    """answers about an abstract invocation, each splitting the partition"""
    def __init__(self, ctx, meta, names):
        self.ctx, self.meta, self.names = ctx, meta, names
        self.n = len(names)

    def has(self, *ns):
        return self.ctx.has(self.meta, *ns)

    def operand(self, i):
        return self.names[i]

    def word_contains(self, w, s):
        return self.ctx.I.truth(self.ctx.I.contains(w, s))

    def contains(self, i, subs):
        return any([self.word_contains(self.names[i], s) for s in subs])

    def startswith(self, w, s):
        w = deref(w)
        if isinstance(w, str):
            return w.startswith(s)
        return self.ctx.I.truth(self.ctx.I.call(self.ctx.I.getattr(w, 'startswith'), [s], {}))

    def args_of(self, name):
        return [a for k, n, a in self.meta if k == 'option' and self.ctx.I.word_in(n, [name])]


def generator_site(ctx, cmd):
    try:
        g = ctx.I.import_module(AG).env.vars
        reg = deref(g['DICT_CMD_NAME_TO_REPRESENTATION_IN_MODULE_NAMES'])
        found, rep = ctx.I.dict_get(reg, cmd)
        c = deref(g['ParallelizabilityInfoGenerator' + rep])
        m, _ = c.lookup('generate_info')
        return ctx.site(m)
    except Exception:
        return 'parallelizability annotation of %s' % cmd


def enum_name(v):
    v = deref(v)
    return deref(v.get('_name_')) if isinstance(v, Obj) and v.cls.is_enum else show(v)


def agg_kind(ctx, spec):
    """the kind of aggregator, as its predicates tell"""
    names = [k for m, k in AGGS.items() if ctx.I.truth(ctx.meth(spec, m))]
    return names[0] if len(names) == 1 else '/'.join(names) or 'none'


def splitter_kind(ctx, s):
    names = []
    if ctx.I.truth(ctx.meth(s, 'is_splitter_round_robin')):
        names.append(RR)
    if ctx.I.truth(ctx.meth(s, 'is_splitter_round_robin_with_unwrap_flag')):
        names.append(RRU)
    if ctx.I.truth(ctx.meth(s, 'is_splitter_consec_chunks')):
        names.append(CC)
    return names[0] if len(names) == 1 else '/'.join(names) or enum_name(ctx.attr(s, 'kind'))


def iovars(ctx, cmd, meta, inp=11, out=12):
    """the invocation as PaSh holds it: reads stream inp, writes stream out, other arguments are strings"""
    els = []
    for k, n, a in meta:
        if k == 'flag':
            els.append(ctx.flag(n))
        else:
            els.append(ctx.new(BDV, 'OptionWithIOVar', n, ctx.new(BD, 'ArgStringType', a)))
    acc = PDict()
    ctx.I.dict_set(acc, inp, ctx.I.call(ctx.name(AK, 'make_stream_input'), [], {}))
    ctx.I.dict_set(acc, out, ctx.I.call(ctx.name(AK, 'make_stream_output'), [], {}))
    return ctx.new(CIV, 'CommandInvocationWithIOVars', cmd, PList(els), PList([]), inp, out, acc)


def describe_par(ctx, p, inv):
    """the plan a parallelizer stands for: kinds of its parts, and what instantiating it gives"""
    spl = splitter_kind(ctx, ctx.meth(p, 'get_splitter'))
    agg = agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec'))
    done = ctx.I.truth(ctx.meth(p, 'are_all_parts_implemented'))
    pipes = deref(ctx.meth(p, 'get_info_mapper_aggregator'))
    mapper = None
    aux = PList([31 + i for i in range(pipes if isinstance(pipes, int) else 0)])
    m = deref(ctx.meth(p, 'get_actual_mapper', inv, 21, 22, aux))
    if m is not None:
        mapper = deref(ctx.attr(m, 'cmd_name'))
    return spl, mapper, agg, done, pipes


def explore_cmd(ctx, cmd, body, lens=None, maxlen=None):
    for size in (lens or LEN[ctx.tier]) + [None, 'late']:
        def harness():
            if size in (None, 'late'):
                fol, meta, ops, names = ctx.many(cmd) if size is None else ctx.late(cmd)
            else:
                fol, meta = ctx.fol(cmd, size[0])
                ops, names = ctx.operands(size[1])
            ctx.facts = ctx.describe(cmd, meta, names)
            ctx.where = generator_site(ctx, cmd)
            inv = ctx.invocation(cmd, fol, ops)
            info = ctx.par_info(inv)
            body(meta, names, info, Query(ctx, meta, names))
        ctx.explore(harness, cmd)


def plans_of(ctx, cmd, meta, info, inferred=True):
    if inferred:
        lst = ctx.items(ctx.meth(info, 'get_inferred_parallelizer_list'))
    else:
        lst = ctx.items(ctx.attr(info, 'parallelizer_list'))
    return lst


# ------------------------------------------------------------------ C15
def t_unsafe(cmd):
    def task(ctx):
        def body(meta, names, info, q):
            if info is None:
                return
            u = parspec.unsafe(cmd, q)
            if u is None:
                return
            reason, ok = u
            for p in plans_of(ctx, cmd, meta, info):
                inv = iovars(ctx, cmd, meta)
                spl, mapper, agg, done, pipes = describe_par(ctx, p, inv)
                plan = parspec.Plan(spl, SAME if mapper in (None, cmd) else mapper, agg, done, pipes)
                ctx.require(ok(plan), 'unsafe-parallel:%s' % cmd,
                            'processing %s input in parts and %s is offered although %s' % (cmd, agg, reason))
            ctx.require(True, 'unsafe-parallel:%s' % cmd, '')
        explore_cmd(ctx, cmd, body)
    return task


#: cases where the unmodified code offers to split input of a context-sensitive invocation: named one by one
SED_SCRIPTS = ['5p', '$p', '2,4p', '$!N;P', '=', 's/a/b/;5q', 's/a/b/;$d', '1s/a/b/', '1!G;h', 'N;s/a/b/', '$s/a/b/',
               'y/a/b/', 's/a/b/', 's/a/b/g', '/x/p', '/x/s/a/b/', '2q', '1d', '$d', '/x/d', 'p', 'd', 'q']
SED_UNSAFE = ['5p', '$p', '2,4p', '$!N;P', '=', 's/a/b/;5q', 's/a/b/;$d', '1s/a/b/', '1!G;h', 'N;s/a/b/', '$s/a/b/',
              '2q', '1d', '$d', 'q']


def t_sed_addresses(ctx):
    """scripts whose effect depends on line numbers or on neighbouring lines"""
    def harness():
        s = fin(SED_SCRIPTS, 'script')
        if choose(2, 'script as option'):
            fol, ops, meta, names = PList([ctx.option('-e', s)]), PList([]), [('option', '-e', s)], []
        else:
            fol, ops, meta, names = PList([]), PList([ctx.operand(s)]), [], [s]
        ctx.facts = ctx.describe('sed', meta, names)
        ctx.where = generator_site(ctx, 'sed')
        info = ctx.par_info(ctx.invocation('sed', fol, ops))
        lst = plans_of(ctx, 'sed', meta, info) if info is not None else []
        for w in SED_UNSAFE:
            if ctx.I.word_in(s, [w]):
                ctx.require(not lst, 'context-sensitive:sed:%s' % w,
                            'sed %r is split into parts although its effect depends on line numbers, the end of '
                            'the input or neighbouring lines' % w)
    ctx.explore(harness, 'sed')


def t_cut_z(ctx):
    def harness():
        fol, meta = ctx.fol('cut', 2, minlen=1)
        ops, names = ctx.operands(2)
        ctx.facts = ctx.describe('cut', meta, names)
        ctx.where = generator_site(ctx, 'cut')
        info = ctx.par_info(ctx.invocation('cut', fol, ops))
        if ctx.has(meta, '-z') and info is not None:
            ctx.require(not plans_of(ctx, 'cut', meta, info), 'context-sensitive:cut:-z',
                        'cut -z is split at newlines although its lines end in null characters')
    ctx.explore(harness, 'cut')


def t_xargs(ctx):
    def harness():
        ops, names = ctx.operands(3)
        ctx.facts = ctx.describe('xargs', [], names)
        ctx.where = generator_site(ctx, 'xargs')
        info = ctx.par_info(ctx.invocation('xargs', PList([]), ops))
        if info is not None:
            ctx.require(not plans_of(ctx, 'xargs', [], info), 'context-sensitive:xargs:batches',
                        'xargs without -n 1, -L 1 or -I is split although it passes arguments in batches that may '
                        'reach over the boundary of two parts')
    ctx.explore(harness, 'xargs')


# ------------------------------------------------------------------ C16
def t_unfinished(cmd):
    def task(ctx):
        def body(meta, names, info, q):
            if info is None:
                return
            for p in plans_of(ctx, cmd, meta, info):
                pipes = deref(ctx.meth(p, 'get_info_mapper_aggregator'))
                done = ctx.I.truth(ctx.meth(p, 'are_all_parts_implemented'))
                agg = agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec'))
                m = deref(ctx.meth(p, 'get_actual_mapper', iovars(ctx, cmd, meta), 21, 22,
                                   PList([31 + i for i in range(pipes)])))
                a, exc = None, None
                if agg in (CONC, TWO, 'CUSTOM_N_ARY') and not pipes:
                    a = deref(ctx.meth(p, 'get_actual_aggregator', iovars(ctx, cmd, meta), PList([41, 42]), 43))
                elif not pipes:
                    a, exc = ctx.attempt(ctx.I.getattr(p, 'get_actual_aggregator'), [iovars(ctx, cmd, meta), PList([41]), 43])
                    a = deref(a)
                    ctx.require(exc is None, 'aggregator-raises:%s' % cmd, 'asking for its aggregator raises %s' % exc)
                else:
                    a = deref(ctx.meth(p, 'get_actual_2_ary_aggregator_with_aux', 41, PList([50 + i for i in range(pipes)]), 42,
                                       PList([60 + i for i in range(pipes)]), 43, PList([70 + i for i in range(pipes)])))
                for part, what in ((m, 'mapper'), (a, 'aggregator')):
                    if part is None:
                        continue
                    ctx.require(ctx.isa(part, CIV, 'CommandInvocationWithIOVars'), 'part-type:%s' % what,
                                'the %s is %s' % (what, show(part)))
                    name = ctx.attr(part, 'cmd_name')
                    ctx.require(isinstance(name, str) and 'PLACEHOLDER' not in name and name.strip() == name and name != '',
                                'placeholder-instantiated:%s' % cmd, 'the %s is the command %s' % (what, show(name)))
                ctx.require(done == (m is not None and a is not None), 'implemented-report:%s' % cmd,
                            'all parts are reported %s but the mapper is %s and the aggregator is %s' %
                            ('implemented' if done else 'not implemented', show(m), show(a)))
        explore_cmd(ctx, cmd, body, [(2, 2)])
    return task


TEXTS = ['foo', 'foo -n', 'runtime/agg/opt/concat.sh', 'PLACEHOLDER:later', 'sort -m', 'cat']


def t_factories(ctx):
    """every way a client can make a mapper or aggregator, implemented or not"""
    MS, AS, PZ = (PAR + x for x in ('MapperSpec', 'AggregatorSpec', 'Parallelizer'))

    def fn(m, name, *a, **k):
        return ctx.I.call(ctx.name(m, name), list(a), k)

    def harness():
        # the mapper
        k = choose(4, 'kind of mapper')
        said = choose(3, 'is_implemented') if k else 0       # True, False, not said
        kw = {} if said == 2 else {'is_implemented': said == 0}
        if k == 0:
            mapper, mdone, text = fn(MS, 'make_mapper_spec_seq'), True, 'cut'
        elif k == 1:
            text = SStr('mapper')
            mapper, mdone = fn(MS, 'make_mapper_spec_custom', text, **kw), said == 0
        elif k == 2:
            text = TEXTS[choose(len(TEXTS), 'text of the mapper')]
            mapper, mdone = fn(MS, 'make_mapper_spec_custom_from_string_representation', text, **kw), said == 0
        else:
            text = fin(TEXTS, 'mapper command')
            mapper, mdone = fn(MS, 'make_mapper_spec_custom', text, **kw), said == 0
        # the aggregator
        j = choose(9, 'kind of aggregator')
        asaid = choose(3, 'aggregator is_implemented') if j > 2 else 0
        kw = {} if asaid == 2 else {'is_implemented': asaid == 0}
        n = 2
        if j < 3:
            agg = fn(AS, 'make_aggregator_spec_' + ('concatenate', 'adj_lines_merge', 'adj_lines_seq')[j])
            adone = j == 0
        else:
            kind = ('adj_lines_func', 'custom_2_ary', 'custom_n_ary')[j % 3]
            n = (1, 2, 3)[j % 3]
            adone = asaid == 0
            if j < 6:
                agg = fn(AS, 'make_aggregator_spec_%s_from_cmd_inv_with_transformers' % kind, **kw)
            else:
                atext = TEXTS[choose(len(TEXTS), 'text of the aggregator')]
                agg = fn(AS, 'make_aggregator_spec_%s_from_string_representation' % kind, atext, **kw)
                if kind == 'adj_lines_func' and adone:
                    n = None                        # this one is refused
        make = ('make_parallelizer_consec_chunks', 'make_parallelizer_indiv_files', 'make_parallelizer_round_robin')[
            choose(2 if j % 3 and j > 2 else 3, 'splitter')]
        p = fn(PZ, make, mapper, agg)
        ctx.where = ctx.site(ctx.name(PZ, make))
        ctx.facts = lambda: 'mapper %s %s, aggregator %d %s' % (show(text), mdone, j, adone)
        done = ctx.I.truth(ctx.meth(p, 'are_all_parts_implemented'))
        ctx.require(done == (mdone and adone), 'implemented-report:made', 'are_all_parts_implemented is %s' % done)
        meta = [('flag', '-n', None)]
        m = deref(ctx.meth(p, 'get_actual_mapper', iovars(ctx, 'cut', meta), 21, 22, PList([])))
        ctx.require((m is not None) == mdone, 'mapper-made', 'the mapper is %s although it is %simplemented' %
                    (show(m), '' if mdone else 'not '))
        if n is not None:
            a = deref(ctx.meth(p, 'get_actual_aggregator', iovars(ctx, 'cut', meta), PList([41, 42, 43][:n]), 44))
            ctx.require((a is not None) == adone, 'aggregator-made', 'the aggregator is %s although it is %simplemented' %
                        (show(a), '' if adone else 'not '))
    ctx.explore(harness, 'made')


# ------------------------------------------------------------------ C17
def t_plans(cmd):
    def task(ctx):
        def body(meta, names, info, q):
            e = parspec.expected(cmd, q)
            if e is None:
                ctx.require(info is None, 'parallelized:%s' % cmd, 'gets a parallelizability annotation')
                return
            ctx.require(info is not None, 'no-parallelizability:%s' % cmd, 'gets no parallelizability annotation')
            if info is None:
                return
            got = []
            for p in plans_of(ctx, cmd, meta, info):
                spl, mapper, agg, done, pipes = describe_par(ctx, p, iovars(ctx, cmd, meta))
                got.append((spl, mapper, agg, done, pipes))
            want = []
            for p in parspec.inferred(cmd, e):
                mapper = cmd if p.mapper == SAME else p.mapper
                want.append((p.splitter, mapper, p.agg, bool(p.done), p.pipes))
            ctx.require(sorted(map(repr, got)) == sorted(map(repr, want)), 'plans:%s' % cmd,
                        'offers %s and not %s' % (got, want))
            ctx.require(ctx.I.truth(ctx.attr(info, 'is_commutative')) == (cmd in parspec.COMMUTATIVE),
                        'commutative:%s' % cmd, 'is_commutative is %s' % show(ctx.attr(info, 'is_commutative')))
        explore_cmd(ctx, cmd, body)
    return task


# ------------------------------------------------------------------ C18
SPLITTERS = {'INDIV_FILES': 'make_splitter_indiv_files', RR: 'make_splitter_round_robin',
             RRU: 'make_splitter_round_robin_with_unwrap', CC: 'make_splitter_consec_chunks'}
FACTORIES = {RR: 'make_parallelizer_round_robin', CC: 'make_parallelizer_consec_chunks', 'INDIV_FILES': 'make_parallelizer_indiv_files'}
SPECS = ['CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_2_ARY by transformer',
         'CUSTOM_N_ARY']


def splitter(ctx, kind):
    return ctx.I.call(ctx.name(PAR + 'Splitter', SPLITTERS[kind]), [], {})


def agg_spec(ctx, what, done=True):
    A = PAR + 'AggregatorSpec'
    c = ctx.I.call
    if what == 'CONCATENATE':
        return c(ctx.name(A, 'make_aggregator_spec_concatenate'), [], {})
    if what == 'ADJ_LINES_MERGE':
        return c(ctx.name(A, 'make_aggregator_spec_adj_lines_merge'), [], {})
    if what == 'ADJ_LINES_SEQ':
        return c(ctx.name(A, 'make_aggregator_spec_adj_lines_seq'), [], {})
    if what == 'CUSTOM_2_ARY by transformer':
        return c(ctx.name(A, 'make_aggregator_spec_custom_2_ary_from_cmd_inv_with_transformers'), [], {'is_implemented': done})
    f = {'ADJ_LINES_FUNC': 'adj_lines_func', 'CUSTOM_2_ARY': 'custom_2_ary', 'CUSTOM_N_ARY': 'custom_n_ary'}[what]
    return c(ctx.name(A, 'make_aggregator_spec_%s_from_string_representation' % f), ['merge_parts', done], {})


def mapper_spec(ctx, what, done=True):
    M = PAR + 'MapperSpec'
    if what == 'same':
        return ctx.I.call(ctx.name(M, 'make_mapper_spec_seq'), [], {})
    return ctx.I.call(ctx.name(M, 'make_mapper_spec_custom_from_string_representation'), ['map_part', done], {})


def t_rr_constructor(ctx):
    par = ctx.name(PAR + 'Parallelizer', 'Parallelizer')
    info = deref(ctx.name(PAR + 'Parallelizer', 'AdditionalInfoSplitterToMapper'))
    makers = {k: ctx.name(PAR + 'Parallelizer', f) for k, f in FACTORIES.items()}

    def harness():
        k = sorted(SPLITTERS)[choose(4, 'splitter')]
        a = SPECS[choose(len(SPECS), 'aggregator')]
        done = bool(choose(2, 'implemented'))
        pipes = choose(3, 'pipes between mapper and aggregator')
        extra = [None, 'NO_ADD_INPUT', 'LINE_NUM_OFFSET', 'BYTE_OFFSET', 'LINE_NUM_AND_BYTE_OFFSET'][choose(5, 'information for the mapper')]
        mapper = ['same', 'custom', 'unfinished', 'default'][choose(4, 'mapper')]
        factory = k in FACTORIES and choose(2, 'by factory')
        mk = makers[k] if factory else par
        ctx.where = ctx.site(mk)
        ctx.facts = lambda: '%s with %s, %d pipes, %s, %s mapper' % (k, a, pipes, extra, mapper)
        spec = agg_spec(ctx, a, done)
        if extra is not None:
            extra = ctx.I.getattr(info, extra)
        m = mapper_spec(ctx, mapper, mapper != 'unfinished') if mapper != 'default' else None
        if factory:
            kw = {'aggregator_spec': spec, 'info_splitter_mapper': extra, 'info_mapper_aggregator': pipes}
            if m is not None:
                kw['mapper_spec'] = m
            p, exc = ctx.attempt(mk, [], kw)
        else:
            if m is None:
                raise Infeasible()
            p, exc = ctx.attempt(par, [splitter(ctx, k), m, spec, extra, pipes])
        if k == RR and a.split()[0] not in RR_OK:
            ctx.require(exc is not None, 'round-robin-accepted', 'a parallelizer that deals parts out in turn to %s is accepted' % a)
        else:
            ctx.require(exc is None, 'parallelizer-refused', 'the parallelizer is refused with %s' % exc)
            if exc is None:
                ctx.require(splitter_kind(ctx, ctx.meth(p, 'get_splitter')) == k and
                            agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec')) == a.split()[0], 'parallelizer-parts',
                            'it consists of %s and %s' % (splitter_kind(ctx, ctx.meth(p, 'get_splitter')),
                                                          agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec'))))
    ctx.explore(harness, 'constructor')


def t_rr(cmd):
    def task(ctx):
        def body(meta, names, info, q):
            if info is None:
                return
            comm = ctx.I.truth(ctx.attr(info, 'is_commutative'))
            for p in plans_of(ctx, cmd, meta, info):
                k = splitter_kind(ctx, ctx.meth(p, 'get_splitter'))
                a = agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec'))
                ctx.require(k != RR or a in RR_OK, 'round-robin-offered:%s' % cmd,
                            'parts dealt out in turn are offered with the aggregator %s' % a)
                ctx.require(k != RRU or comm, 'unwrapped-offered:%s' % cmd,
                            'parts dealt out in turn and unwrapped are offered although the order of parts matters')
        explore_cmd(ctx, cmd, body, [(2, 2)])
    return task


# ------------------------------------------------------------------ C19
def t_inferred(ctx):
    from .c_io import snapshot, same_shape
    pi = ctx.name(PI, 'ParallelizabilityInfo')
    mk = ctx.name(PAR + 'Parallelizer', 'Parallelizer')
    infos = deref(ctx.name(PAR + 'Parallelizer', 'AdditionalInfoSplitterToMapper'))

    def passed(p):
        """the information for the mapper"""
        try:
            return snapshot(ctx, ctx.attr(p, 'info_splitter_mapper'))
        except PyExc:
            return None

    def harness():
        comm = bool(choose(2, 'commutative'))
        rr = bool(choose(2, 'round robin compatible with cat'))
        n = choose(4 if ctx.thorough else 3, 'parallelizers')
        kinds = [sorted(SPLITTERS)[choose(4, 'splitter')] for i in range(n)]
        aggs = [['CONCATENATE', 'ADJ_LINES_SEQ', 'CUSTOM_2_ARY by transformer'][choose(3 if k != RR else 2, 'aggregator')]
                for k in kinds]
        how = choose(3, 'how the list was given')
        ctx.where = ctx.site(pi.lookup('get_inferred_parallelizer_list')[0])
        ctx.facts = lambda: '%s, %s' % ('commutative' if comm else 'not commutative', list(zip(kinds, aggs)))
        ps = []
        for i, (k, a) in enumerate(zip(kinds, aggs)):
            # what passes between the parts is different for every one of them
            extra = [ctx.I.getattr(infos, 'LINE_NUM_OFFSET'), None, ctx.I.getattr(infos, 'BYTE_OFFSET')][i % 3]
            ps.append(deref(ctx.I.call(mk, [splitter(ctx, k), mapper_spec(ctx, 'custom' if i == 1 else 'same'), agg_spec(ctx, a),
                                            extra, i], {})))
        other = ctx.I.call(pi, [], {})
        if how == 0:
            info = ctx.I.call(pi, [PList(list(ps)), rr, comm], {})
        elif how == 1:
            info = ctx.I.call(pi, [], {'is_commutative': comm, 'round_robin_compatible_with_cat': rr})
            for p in ps:
                ctx.meth(info, 'append_to_parallelizer_list', p)
        else:
            info = ctx.I.call(pi, [PList(list(ps)), rr], {})
            if comm:
                ctx.meth(info, 'set_commutative')
        s0 = [snapshot(ctx, p) for p in ps]
        first = None
        for rnd in range(3):
            if rnd == 2:
                t = deref(ctx.meth(info, 'unpack_info'))
                raw = t[0] if isinstance(t, tuple) and t else None
                t = ctx.items(t)
                ctx.require(t is not None and len(t) == 3 and t[1] is rr and t[2] is comm, 'unpacked',
                            'unpack_info gives %s' % show(t))
                lst = ctx.items(t[0]) if t else []
            else:
                raw = ctx.meth(info, 'get_inferred_parallelizer_list')
                lst = ctx.items(raw) or []
            lst = list(lst)
            nc = sum(k == CC for k in kinds) if comm else 0
            ctx.require(len(lst) == n + nc, 'inferred-length', '%d declared parallelizers, %d in chunks, but %d offered on call %d'
                        % (n, nc, len(lst), rnd + 1))
            want = list(s0) + [None] * nc
            rest = list(lst)
            for w in s0:
                hit = [x for x in rest if same_shape(ctx, snapshot(ctx, x), w)]
                ctx.require(bool(hit), 'declared-lost', 'a declared parallelizer is not offered any more')
                if hit:
                    rest.remove(hit[0])
            got = []
            for x in rest:
                ctx.require(splitter_kind(ctx, ctx.meth(x, 'get_splitter')) == RRU, 'inferred-splitter',
                            'the added parallelizer splits by %s' % splitter_kind(ctx, ctx.meth(x, 'get_splitter')))
                got.append([snapshot(ctx, ctx.meth(x, 'get_mapper_spec')), snapshot(ctx, ctx.meth(x, 'get_aggregator_spec')),
                            ctx.meth(x, 'get_info_mapper_aggregator'), passed(x)])
            for p, k in zip(ps, kinds):
                if comm and k == CC:
                    w = [snapshot(ctx, ctx.meth(p, 'get_mapper_spec')), snapshot(ctx, ctx.meth(p, 'get_aggregator_spec')),
                         ctx.meth(p, 'get_info_mapper_aggregator'), passed(p)]
                    hit = [g for g in got if same_shape(ctx, g[0], w[0]) and same_shape(ctx, g[1], w[1]) and g[2] == w[2]
                           and same_shape(ctx, g[3], w[3])]
                    ctx.require(bool(hit), 'inferred-parts',
                                'no added parallelizer has the mapper and aggregator of the one in chunks, and passes the same between them')
                    if hit:
                        got.remove(hit[0])
            # a client edits the list and an added parallelizer: the declared ones do not change
            raw = deref(raw)
            if isinstance(raw, PList):
                raw.touch()
                raw.items[:] = ['edited']
            for x in rest:
                for part in ('get_mapper_spec', 'get_aggregator_spec'):
                    try:
                        ctx.I.setattr(ctx.meth(x, part), 'is_implemented', False)
                    except PyExc:
                        pass        # it cannot be edited
            for p, s in zip(ps, s0):
                ctx.require(same_shape(ctx, snapshot(ctx, p), s), 'declared-changed', 'a declared parallelizer becomes %s' % show(p))
        for info2 in (other, ctx.I.call(pi, [], {})):
            l2 = ctx.items(ctx.meth(info2, 'get_inferred_parallelizer_list'))
            ctx.require(l2 == [], 'parallelizers-shared', 'another annotation now offers %s' % show(l2))
    ctx.explore(harness, 'inferred list')


# ------------------------------------------------------------------ C20
def t_merge(cmd):
    """the aggregator of sort merges in the order of the sort"""
    def task(ctx):
        def harness():
            t = TABLES[cmd]
            fl = sorted({g[0] for g in t.flags} - set(parspec.SORT_NEVER))
            op = sorted({g[0] for g, _ in t.options} - set(parspec.SORT_NEVER))
            n = choose(4 if ctx.thorough else 3, 'number of flags and options')
            meta, els, vels = [], [], []
            acc = PDict()
            I = ctx.I
            nextvar = 50
            outvar = 12
            has_o = False
            for i in range(n):
                isopt = choose(2, 'flag or option')
                nm = fin(op if isopt else fl, '%s%d' % ('option' if isopt else 'flag', i))
                if not isopt:
                    meta.append(('flag', nm, None))
                    els.append(ctx.flag(nm))
                    vels.append(ctx.flag(nm))
                    continue
                arg = SStr('arg%d' % i)
                if I.word_in(nm, ['--sort']):
                    arg = fin(['general-numeric', 'numeric', 'month', 'version', 'human-numeric'], 'word')
                elif I.word_in(nm, ['-k']):
                    arg = fin(['1', '2,2', '1n,1', '3nr'], 'key')
                meta.append(('option', nm, arg))
                els.append(ctx.option(nm, arg))
                if I.word_in(nm, ['-o']):
                    if has_o:
                        raise Infeasible()
                    has_o = True
                    vels.append(ctx.new(BDV, 'OptionWithIOVar', nm, outvar))
                    I.dict_set(acc, outvar, I.call(ctx.name(AK, 'make_stream_output'), [], {}))
                elif I.word_in(nm, ['-T']):
                    nextvar += 1
                    vels.append(ctx.new(BDV, 'OptionWithIOVar', nm, nextvar))
                    I.dict_set(acc, nextvar, I.call(ctx.name(AK, 'make_other_output'), [], {}))
                else:
                    vels.append(ctx.new(BDV, 'OptionWithIOVar', nm, ctx.new(BD, 'ArgStringType', arg)))
            ctx.facts = ctx.describe(cmd, meta, [])
            ctx.where = generator_site(ctx, cmd)
            info = ctx.par_info(ctx.invocation(cmd, PList(els), PList([])))
            ops = [10]
            I.dict_set(acc, 10, I.call(ctx.name(AK, 'make_stream_input'), [], {}))
            if not has_o:
                I.dict_set(acc, outvar, I.call(ctx.name(AK, 'make_stream_output'), [], {}))
            byfile = choose(2, 'input given as file')
            inv = ctx.new(CIV, 'CommandInvocationWithIOVars', cmd, PList(vels), PList(ops if byfile else []),
                          None if byfile else 10, None if has_o else outvar, acc)
            ctx.require(info is not None, 'sort-not-parallelized', 'no annotation')
            lst = plans_of(ctx, cmd, meta, info) if info is not None else []
            ctx.require(len(lst) > 0, 'sort-not-parallelized', 'no parallelizer')
            for p in lst:
                a = deref(ctx.meth(p, 'get_actual_aggregator', inv, PList([41, 42]), 43))
                ctx.require(a is not None, 'no-merge:%s' % cmd, 'there is no aggregator')
                if a is None:
                    continue
                got = ctx.items(ctx.attr(a, 'flag_option_list'))
                want = [(k, nm, arg) for k, nm, arg in meta if I.word_in(nm, parspec.SORT_KEEP)] + [('flag', '-m', None)]
                ctx.require(ctx.same(ctx.attr(a, 'cmd_name'), cmd), 'merge-command:%s' % cmd, 'the merge is done by %s' %
                            show(ctx.attr(a, 'cmd_name')))
                gotd = []
                for g in got:
                    if ctx.isa(g, BD, 'Flag'):
                        gotd.append(('flag', ctx.meth(g, 'get_name'), None))
                    else:
                        v = deref(ctx.meth(g, 'get_arg'))
                        gotd.append(('option', ctx.meth(g, 'get_name'), ctx.meth(v, 'get_name') if isinstance(v, Obj) else v))

                def match(x, y):
                    return x[0] == y[0] and ctx.same(x[1], y[1]) and (x[2] is None or ctx.same(x[2], y[2]))
                # the ordering flags and options in their order, and -m somewhere
                m = [g for g in gotd if match(g, want[-1])]
                rest = [g for g in gotd if not match(g, want[-1])]
                ctx.require(len(m) > 0, 'merge-without-m:%s' % cmd, 'the aggregator sorts and does not merge: %s' % show(got))
                ctx.require(len(rest) == len(want) - 1 and all(match(x, y) for x, y in zip(rest, want)),
                            'merge-order:%s' % cmd, 'the merge has the flags %s and not those that order lines: %s' %
                            (show(got), show([w[1] for w in want])))
                ops = ctx.items(ctx.attr(a, 'operand_list'))
                ctx.require(ops == [41, 42], 'merge-inputs:%s' % cmd, 'it merges %s' % show(ops))
                ctx.require(ctx.attr(a, 'implicit_use_of_streaming_output') == 43 and
                            ctx.attr(a, 'implicit_use_of_streaming_input') is None, 'merge-streams:%s' % cmd,
                            'its implicit streams are %s and %s' % (show(ctx.attr(a, 'implicit_use_of_streaming_input')),
                                                                    show(ctx.attr(a, 'implicit_use_of_streaming_output'))))
        ctx.explore(harness, cmd)
    return task


# ------------------------------------------------------------------ C21
WITH_NL = ['\\n', '\n', '\\012', '[:space:]', '[:cntrl:]', "'\\n'", '"\\n"', 'a\\nb', ' \\t\\n', '[:space:][:punct:]',
           '\\n\\r', 'a-z\\n', '[:alpha:][:cntrl:]']
WITHOUT_NL = ['a-z', 'A-Za-z', "'[:punct:]'", ' ', 'n', '\\t', '[:alnum:]', '[:blank:]', '\\\\', 'abc', '012', '[:digit:]', '\\r', '']


WITH_NULL = ['\\0', 'a\\0', '\\000', '\\0-\\011']     # no newline, but characters that end lines elsewhere


def t_newlines(ctx):
    """tr: parts are concatenated exactly if no newline is deleted or squeezed"""
    def harness():
        fl = [f for f in ('-c', '-d', '-s', '-t') if choose(2, f)]
        if choose(2, 'order of flags'):
            fl = fl[::-1]
        n = 1 + choose(2, 'number of sets')
        sets = [fin(WITH_NL + WITHOUT_NL + WITH_NULL, 'set%d' % (i + 1)) for i in range(n)]
        meta = [('flag', f, None) for f in fl]
        ctx.facts = ctx.describe('tr', meta, sets)
        ctx.where = generator_site(ctx, 'tr')
        info = ctx.par_info(ctx.invocation('tr', PList([ctx.flag(f) for f in fl]), PList([ctx.operand(s) for s in sets])))
        ctx.require(info is not None, 'tr-none', 'gets no annotation')
        if info is None:
            return
        kinds = {agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec')) for p in plans_of(ctx, 'tr', meta, info)}
        c, d, s = '-c' in fl, '-d' in fl, '-s' in fl

        def nl(i):
            return ctx.I.word_in(sets[i], WITH_NL)
        last = nl(n - 1) != (c and n == 1) if d or s else False
        first = s and n == 2 and nl(0) != c
        ok = [['CONCATENATE']]
        if d and last:
            ok = [['ADJ_LINES_MERGE']]
        elif s and last:
            ok = [['ADJ_LINES_FUNC']]
        elif first:
            ok = [[]]
        if (d or s) and not (c and n == 1) and ctx.I.word_in(sets[n - 1], WITH_NULL):
            ok += [['ADJ_LINES_MERGE'], ['ADJ_LINES_FUNC']]       # more careful than newlines need
        ctx.require(sorted(kinds) in ok, 'tr-newline:%s' % ('deleted' if d else 'squeezed' if s else 'translated'),
                    'newlines are %saffected, but the parts are combined by %s' % ('' if last or first else 'not ', sorted(kinds)))
    ctx.explore(harness, 'tr')


def own_tasks(prop, tier):
    order = ['grep', 'sort', 'custom_sort', 'tr', 'sed', 'uniq']
    par = order + [c for c in PAR_CMDS if c not in order]
    if prop == 'C15':
        return [(c, t_unsafe(c)) for c in par] + [('sed scripts', t_sed_addresses), ('cut -z', t_cut_z), ('xargs', t_xargs)] + \
            [(c, t_unsafe(c)) for c in NO_PAR]
    if prop == 'C16':
        return [('made', t_factories)] + [(c, t_unfinished(c)) for c in par]
    if prop == 'C17':
        return [(c, t_plans(c)) for c in par + NO_PAR]
    if prop == 'C18':
        return [('constructor', t_rr_constructor)] + [(c, t_rr(c)) for c in par]
    if prop == 'C19':
        return [('inferred list', t_inferred)]
    if prop == 'C20':
        return [(c, t_merge(c)) for c in ('sort', 'custom_sort')]
    if prop == 'C21':
        return [('newlines', t_newlines)]


def tasks(prop, tier='quick'):
    from .c_misc import lines, ASPECTS
    return own_tasks(prop, tier) + (lines(prop, PAR_CMDS, tier) if prop in ASPECTS else [])
