"""What authors of annotations build on (C36) and the printed forms (C37)."""
from .base import *
from .c_io import word_role, word_text, std_ok, snapshot, same_shape
from .c_par import splitter_kind, agg_kind, plans_of, splitter, agg_spec, mapper_spec
from .parspec import CC, RR, RRU
from .c_vars import access

GEN = PKG + '.annotation_generation.annotation_generators.'
SOURCE = '''
from %sInputOutputInfoGenerator_Interface import InputOutputInfoGeneratorInterface
from %sParallelizabilityInfoGenerator_Interface import ParallelizabilityInfoGeneratorInterface

class NewInputOutput(InputOutputInfoGeneratorInterface):
    steps = ()

    def generate_info(self):
        for name, args in self.steps:
            getattr(self, name)(*args)

class NewParallelizability(ParallelizabilityInfoGeneratorInterface):
    steps = ()

    def generate_info(self):
        for name, args in self.steps:
            getattr(self, name)(*args)
''' % (GEN, GEN)

ALL, FIRST_, LAST, BUT_FIRST, BUT_LAST = (lambda n: set(range(n)), lambda n: {0}, lambda n: {n - 1},
                                          lambda n: set(range(1, n)), lambda n: set(range(n - 1)))
# helper -> (which operands, role), as the names say; the ones that single out an operand need one
ROLES = {
    'all_operands_are_streaming_inputs': (ALL, 'STREAM_INPUT'), 'all_operands_are_streaming_outputs': (ALL, 'STREAM_OUTPUT'),
    'all_operands_are_other_inputs': (ALL, 'OTHER_INPUT'), 'all_operands_are_other_outputs': (ALL, 'OTHER_OUTPUT'),
    'all_but_last_operand_is_streaming_input': (BUT_LAST, 'STREAM_INPUT'), 'all_but_last_operand_is_other_input': (BUT_LAST, 'OTHER_INPUT'),
    'all_but_first_operand_is_streaming_input': (BUT_FIRST, 'STREAM_INPUT'),
    'all_but_first_operand_is_streaming_output': (BUT_FIRST, 'STREAM_OUTPUT'),
    'all_but_first_operand_is_other_input': (BUT_FIRST, 'OTHER_INPUT'),
    'only_last_operand_is_stream_output': (LAST, 'STREAM_OUTPUT'), 'only_last_operand_is_other_output': (LAST, 'OTHER_OUTPUT'),
    'set_all_operands_as_config_arg_type_string': (ALL, 'ARG'), 'set_first_operand_as_config_arg_type_string': (FIRST_, 'ARG'),
    'set_first_operand_as_config_arg_type_filename_or_std_descriptor': (FIRST_, 'CONFIG_INPUT'),
    'set_all_operands_as_arg_string': (ALL, 'ARG'),
}


def helper_site(ctx, g, name):
    m, _ = deref(g).cls.lookup(name)
    return ctx.site(m) if m is not None else name


def t_roles(sizes):
    """what the helpers say about operands and standard streams"""
    def task(ctx):
        cls = ctx.client(SOURCE)['NewInputOutput']

        def harness():
            n = sizes[choose(len(sizes), 'number of operands')]
            words = [SStr('operand%d' % i) if n < 10 else 'word%d' % i for i in range(n)]
            names = sorted(ROLES)
            steps, role, used = [], ['STREAM_INPUT'] * n, set()
            for i in range(choose(3, 'number of statements about operands')):
                h = names[choose(len(names), 'statement')]
                which, r = ROLES[h]
                if n == 0 and which is not ALL:
                    raise Infeasible()
                w = which(n)
                if w & used:
                    raise Infeasible()      # nothing is said twice
                used |= w
                for j in w:
                    role[j] = r
                steps.append((h, ()))
            stdin = stdout = False
            full = len(steps) < 2 or ctx.thorough
            c = choose(5, 'standard input') if full else 1
            if c == 4:
                steps.append(('if_no_operands_given_stdin_implicitly_used', ()))
                stdin = n == 0
            elif c:
                steps.insert(0, ('set_implicit_use_of_stdin', ((), (True,), (False,))[c - 1]))
                stdin = c != 3
            c = choose(4, 'standard output') if full else 0
            if c:
                steps.append(('set_implicit_use_of_stdout', ((), (True,), (False,))[c - 1]))
                stdout = c != 3
            inv = ctx.invocation('newcmd', PList([ctx.flag('-q')] if full and choose(2, 'flag') else []), PList([ctx.operand(w) for w in words]))
            g = ctx.I.call(cls, [inv], {})
            other = ctx.I.call(cls, [ctx.invocation('newcmd', PList([]), PList([ctx.operand('x'), ctx.operand('y')]))], {})
            ctx.I.setattr(g, 'steps', PList(list(steps)))
            ctx.facts = lambda: '%d operands: %s' % (n, ', '.join('%s%s' % (a, b if b else '()') for a, b in steps))
            ctx.where = helper_site(ctx, g, steps[-1][0]) if steps else ctx.site(cls)
            ctx.meth(g, 'generate_info')
            how = choose(2, 'way to apply')
            v = deref(ctx.meth(g, 'get_cmd_inv_with_io', inv) if how else
                      ctx.meth(ctx.meth(g, 'get_info'), 'apply_input_output_info_to_command_invocation', inv))
            ops = ctx.items(ctx.attr(v, 'operand_list')) or []
            got = [word_role(ctx, o) for o in ops]
            ctx.require(got == role, 'helper-role', 'the operands are annotated %s and not %s' % (got, role))
            ctx.require(len(ops) == n and all(word_text(ctx, o, w, r) for o, w, r in zip(ops, words, role)), 'helper-word',
                        'the operands become %s' % show(ops))
            for attr, want, e in (('implicit_use_of_streaming_input', stdin, 'STDIN'), ('implicit_use_of_streaming_output', stdout, 'STDOUT')):
                o = ctx.attr(v, attr)
                ctx.require(std_ok(ctx, o, e) if want else o is None, 'helper-stream', '%s is %s' % (attr, show(o)))
            info = deref(ctx.meth(g, 'get_info'))
            ctx.require(ctx.I.truth(ctx.meth(info, 'has_other_outputs')) == ('OTHER_OUTPUT' in role), 'helper-effects',
                        'it claims that there are %s other outputs' % ('' if 'OTHER_OUTPUT' not in role else 'no'))
            # another annotation is not affected
            v = deref(ctx.meth(ctx.meth(other, 'get_info'), 'apply_input_output_info_to_command_invocation',
                               ctx.invocation('newcmd', PList([]), PList([ctx.operand('x'), ctx.operand('y')]))))
            ctx.require([word_role(ctx, o) for o in ctx.items(ctx.attr(v, 'operand_list'))] == ['STREAM_INPUT'] * 2
                        and ctx.attr(v, 'implicit_use_of_streaming_input') is None and ctx.attr(v, 'implicit_use_of_streaming_output') is None,
                        'helper-shared', 'the annotation of another invocation changes to %s' % show(v))
        ctx.explore(harness)
    return task


# the same statements made about an annotation itself
def t_typers(ctx):
    """a changed typing of flags and options is used for what is applied later"""
    def harness():
        n = choose(3, 'number of options')
        kinds = [choose(3, 'role of argument') for _ in range(n)]
        W = ctx.name(BD, 'WhichClassForArg')
        words = [SStr('argument%d' % i) for i in range(n)]
        inv = ctx.invocation('newcmd', PList([ctx.option('-o', w) for w in words]), PList([]))

        def typer(k):
            if k == 0:
                return (ctx.I.getattr(W, 'ARGSTRING'), None)
            return (ctx.I.getattr(W, 'FILESTD'), access(ctx, ['STREAM_INPUT', 'OTHER_OUTPUT'][k - 1]))
        info = ctx.new(IOI, 'InputOutputInfo', PList([typer(0)] * n), 0)
        ctx.where = helper_site(ctx, info, 'set_typer_for_flagoptions')
        ctx.facts = lambda: 'options with the roles %s' % [('ARG', 'STREAM_INPUT', 'OTHER_OUTPUT')[k] for k in kinds]
        ctx.meth(info, 'set_typer_for_flagoptions', PList([typer(k) for k in kinds]))
        v = deref(ctx.meth(info, 'apply_input_output_info_to_command_invocation', inv))
        fl = ctx.items(ctx.attr(v, 'flag_option_list'))
        ok = len(fl) == n
        for f, k, w in zip(fl, kinds, words):
            r = ('ARG', 'STREAM_INPUT', 'OTHER_OUTPUT')[k]
            for q in ('get_arg', 'get_arg_with_ioinfo'):
                a = deref(ctx.meth(f, q))
                ok = ok and word_role(ctx, a) == r and word_text(ctx, a, w, r)
        ctx.require(ok, 'typer-role', 'the options become %s' % show(fl))
        ctx.require(ctx.I.truth(ctx.meth(info, 'has_other_outputs')) == (2 in kinds), 'typer-effects', 'other outputs are not reported right')
    ctx.explore(harness)


def t_conditions(ctx):
    """conditions on the invocation"""
    cls = ctx.client(SOURCE)
    I = ctx.I

    def harness():
        g_cls = cls[['NewInputOutput', 'NewParallelizability'][choose(2, 'generator')]]
        n = choose(3, 'number of flags')
        flags = [SStr('flag%d' % i) for i in range(n)]
        fl = [ctx.flag(x) for x in flags]
        words = [SStr('operand%d' % i) for i in range(choose(3, 'number of operands'))]
        inv = ctx.invocation('newcmd', PList(list(fl)), PList([ctx.operand(w) for w in words]))
        s0 = snapshot(ctx, inv)
        g = ctx.I.call(g_cls, [inv], {})
        ctx.facts = lambda: 'flags %s, operands %s' % ([show(deref(x)) for x in flags], [show(deref(x)) for x in words])
        c = choose(5, 'condition')
        names = [[], ['-a'], ['-a', '-b'], ['-b', '--both', '-a']][choose(4, 'names')] if c < 2 else []
        if c == 0:
            ctx.where = helper_site(ctx, g, 'does_flag_option_list_contain_at_least_one_of')
            got = I.truth(ctx.meth(g, 'does_flag_option_list_contain_at_least_one_of', PList(list(names))))
            want = any([I.word_in(x, names) for x in flags])
            ctx.require(got == want, 'condition:flags', 'it says that %s of %s is given' % ('one' if got else 'none', names))
        elif c == 1:
            ctx.where = helper_site(ctx, g, 'get_flag_option_list_filtered_with')
            got = ctx.items(ctx.meth(g, 'get_flag_option_list_filtered_with', PList(list(names))))
            want = [deref(f) for f, x in zip(fl, flags) if I.word_in(x, names)]
            ctx.require(got is not None and len(got) == len(want) and all(ctx.same(ctx.meth(a, 'get_name'), ctx.meth(b, 'get_name'))
                                                                          for a, b in zip(got, want)),
                        'condition:filtered', 'the flags among %s are %s and not %s' % (names, show(got), show(want)))
        elif c == 2:
            ctx.where = helper_site(ctx, g, 'get_operand_list_length')
            ctx.require(deref(ctx.meth(g, 'get_operand_list_length')) == len(words), 'condition:operands', 'the number of operands is %s' %
                        show(ctx.meth(g, 'get_operand_list_length')))
        elif not words:
            raise Infeasible()
        else:
            s = ['-', 's/', '', '+1', '\\'][choose(5, 'text')]
            q = 'does_first_operand_start_with' if c == 3 else 'does_first_operand_contain'
            ctx.where = helper_site(ctx, g, q)
            ctx.require(ctx.same(ctx.meth(g, 'get_first_operand_name_as_string'), words[0]), 'condition:first',
                        'the first operand is %s' % show(ctx.meth(g, 'get_first_operand_name_as_string')))
            got = I.truth(ctx.meth(g, q, s))
            w = deref(words[0])
            want = I.truth(I.call(I.getattr(w, 'startswith'), [s], {})) if c == 3 else I.truth(I.contains(w, s))
            ctx.require(got == want, 'condition:text', '%s(%r) is %s' % (q, s, got))
        ctx.require(same_shape(ctx, s0, snapshot(ctx, inv)), 'condition:pure', 'the invocation becomes %s' % show(inv))
    ctx.explore(harness)


PLANS = {
    'append_to_parallelizer_list_if_seq_conc': ('INDIV_FILES', 'CONCATENATE'), 'append_to_parallelizer_list_if_seq_adjm': ('INDIV_FILES', 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_cc_seq_conc': (CC, 'CONCATENATE'), 'append_to_parallelizer_list_cc_seq_adjm': (CC, 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_rr_seq_conc': (RR, 'CONCATENATE'), 'append_to_parallelizer_list_rr_seq_adjm': (RR, 'ADJ_LINES_MERGE'),
    'append_to_parallelizer_list_rr_seq_adjs': (RR, 'ADJ_LINES_SEQ'), 'append_to_parallelizer_list_cc_seq_adjs': (CC, 'ADJ_LINES_SEQ'),
    'append_to_parallelizer_list_rr_seq_adjf': (RR, 'ADJ_LINES_FUNC'), 'append_to_parallelizer_list_cc_seq_adjf': (CC, 'ADJ_LINES_FUNC'),
}


def t_plans(ctx):
    """what the helpers say about parallel runs"""
    cls = ctx.client(SOURCE)['NewParallelizability']
    I = ctx.I

    def harness():
        steps, want, comm = [], [], False
        names = sorted(PLANS) + ['set_commutative', 'append_to_parallelizer_list']
        for i in range(choose(4 if ctx.thorough else 3, 'number of statements')):
            h = names[choose(len(names), 'statement')]
            if h == 'set_commutative':
                comm = True
                steps.append((h, ()))
            elif h == 'append_to_parallelizer_list':
                p = I.call(ctx.name(PAR + 'Parallelizer', 'make_parallelizer_consec_chunks'), [],
                           {'mapper_spec': mapper_spec(ctx, 'custom'), 'aggregator_spec': agg_spec(ctx, 'CUSTOM_2_ARY'), 'info_mapper_aggregator': 2})
                steps.append((h, (p,)))
                want.append((CC, 'CUSTOM_2_ARY', True, 2, 'map_part'))
            elif h.endswith('adjf'):
                done = bool(choose(2, 'implemented'))
                steps.append((h, ('combine_it', done)))
                want.append(PLANS[h] + (done, 0, 'newcmd'))
            else:
                steps.append((h, ()))
                want.append(PLANS[h] + (PLANS[h][1] == 'CONCATENATE', 0, 'newcmd'))
        inv = ctx.invocation('newcmd', PList([]), PList([]))
        g = I.call(cls, [inv], {})
        other = I.call(cls, [inv], {})
        I.setattr(g, 'steps', PList(list(steps)))
        ctx.facts = lambda: ', '.join('%s(%s)' % (a, '' if a == 'append_to_parallelizer_list' else b) for a, b in steps)
        ctx.where = helper_site(ctx, g, steps[-1][0]) if steps else ctx.site(cls)
        ctx.meth(g, 'generate_info')
        info = deref(ctx.meth(g, 'get_info'))
        ctx.where = helper_site(ctx, g, steps[-1][0]) if steps else ctx.site(cls)
        lst, rr, com = (deref(x) for x in deref(ctx.meth(info, 'unpack_info')))
        ctx.require(I.truth(com) == comm, 'helper-commutative', 'parts %s be reordered' % ('may not' if comm else 'may'))

        def plan(p):
            import_ = deref(ctx.meth(p, 'get_info_mapper_aggregator'))
            acc = PDict()
            I.dict_set(acc, 11, access(ctx, 'STREAM_INPUT'))
            I.dict_set(acc, 12, access(ctx, 'STREAM_OUTPUT'))
            ci = ctx.new(CIV, 'CommandInvocationWithIOVars', 'newcmd', PList([]), PList([]), 11, 12, acc)
            m = deref(ctx.meth(p, 'get_actual_mapper', ci, 21, 22, PList([31 + i for i in range(import_)])))
            return (splitter_kind(ctx, ctx.meth(p, 'get_splitter')), agg_kind(ctx, ctx.meth(p, 'get_aggregator_spec')),
                    I.truth(ctx.meth(p, 'are_all_parts_implemented')), import_, deref(ctx.attr(m, 'cmd_name')) if m is not None else None)
        got = [plan(p) for p in ctx.items(lst)]
        expected = want + [(RRU,) + w[1:] for w in want if comm and w[0] == CC]
        ctx.require(got == expected, 'helper-plan', 'it offers %s and not %s' % (got, expected))
        lst, rr, com = (deref(x) for x in deref(ctx.meth(ctx.meth(other, 'get_info'), 'unpack_info')))
        ctx.require(ctx.items(lst) == [] and not I.truth(com), 'helper-plan-shared', 'another annotation is changed to %s' % show(lst))
    ctx.explore(harness)


def t_utilities(ctx):
    """lists, defaults, accessors and properties"""
    I = ctx.I

    def dedup():
        n = choose(5, 'length')
        words = [SStr('item%d' % i) for i in range(n)] if n < 4 else ['b', 'a', 'b', 'c', 'a', 'b', 'd']
        f = ctx.name(UTIL, 'list_deduplication')
        ctx.where = ctx.site(f)
        ctx.facts = lambda: 'the list %s' % [show(deref(w)) for w in words]
        given = PList(list(words))
        got = ctx.items(I.call(f, [given], {}))
        want = []
        for w in words:
            if not any([ctx.same(w, x) for x in want]):
                want.append(w)
        ctx.require(len(got) == len(want) and all(ctx.same(a, b) for a, b in zip(got, want)), 'deduplicated',
                    'it gives %s and not %s' % (show(got), show([deref(w) for w in want])))
        ctx.require(len(given.items) == len(words), 'deduplicated', 'the given list is changed')

    def fold():
        f = ctx.name(UTIL, 'foldl')
        ctx.where = ctx.site(f)
        ws = ['a', 'b', 'c', 'b'][:choose(5, 'length')]
        g = ctx.client('def put(el, acc):\n    return acc + [el]\n')['put']
        start = PList(['x'])
        got = ctx.items(I.call(f, [g, start, PList(list(ws))], {}))
        ctx.require(got == ['x'] + ws and ctx.items(start) == ['x'], 'fold-order', 'it gives %s' % got)

    def arg():
        f = ctx.name(PKG + '.util_flag_option', 'make_arg_simple')
        ctx.where = ctx.site(f)
        n = choose(4, 'number of words')
        ws = [SStr('word%d' % i) for i in range(n)]
        v, exc = ctx.attempt(f, [PList(list(ws))])
        if n == 1:
            ctx.require(exc is None and ctx.isa(v, BD, 'Flag') and ctx.same(ctx.meth(v, 'get_name'), ws[0]), 'flag-of-words', 'gives %s' % show(v))
        elif n == 2:
            ctx.require(exc is None and ctx.isa(v, BD, 'Option') and ctx.same(ctx.meth(v, 'get_name'), ws[0])
                        and ctx.same(ctx.meth(v, 'get_arg'), ws[1]), 'option-of-words', 'gives %s' % show(v))
        else:
            ctx.require(exc is not None, 'refused-words', '%d words give %s' % (n, show(v)))

    def defaults():
        k = choose(4, 'helper')
        nm = ['return_empty_list_if_none_else_itself', 'return_empty_flag_option_list_if_none_else_itself',
              'return_empty_pos_config_list_if_none_else_itself', 'return_default_if_none_else_itself'][k]
        f = ctx.name(UTIL, nm)
        ctx.where = ctx.site(f)
        more = [PList(['default'])] if k == 3 else []
        given = [None, PList([]), PList(['x']), False, ''][choose(5 if k == 3 else 3, 'argument')]
        got = deref(I.call(f, [given] + more, {}))
        if given is not None:
            ctx.require(got is given, 'default-kept', '%s replaces a given list by %s' % (nm, show(got)))
        elif k == 3:
            ctx.require(got is more[0], 'default-used', 'it gives %s' % show(got))
        else:
            ctx.require(ctx.items(got) == [], 'default-used', 'it gives %s' % show(got))
            got.items.append('y')
            ctx.require(ctx.items(I.call(f, [None], {})) == [], 'default-shared', 'the empty list of %s is shared' % nm)

    def properties():
        C = PKG + '.annotation_generation.datatypes.CommandProperties'
        cls = ctx.name(C, 'CommandProperties')
        ctx.where = ctx.site(cls)
        given = choose(2, 'given')
        d = PDict()
        model = {}
        if given:
            I.dict_set(d, 'pure', 'yes')
            model['pure'] = 'yes'
        p = I.call(cls, [d] if given else [], {})
        other = I.call(cls, [], {})
        for i in range(choose(3, 'number of changes')):
            k, v = ['pure', 'fast'][choose(2, 'property')], ['a', None, False, ''][choose(4, 'value')]
            ctx.meth(p, 'set_property', k, v)
            model[k] = v
        for k in ('pure', 'fast', 'none'):
            got = deref(ctx.meth(p, 'get_property_value', k))
            ctx.require(got == model.get(k) and type(got) is type(model.get(k)), 'property-value', '%s is %s and not %s' % (k, show(got), model.get(k)))
            ctx.require(deref(ctx.meth(other, 'get_property_value', k)) is None, 'property-shared', 'another command gets the property')

    def accessors():
        w = SStr('word')
        std = ctx.name(BD, 'StdDescriptorEnum')
        c = choose(8, 'accessor')
        if c < 3:
            f = ctx.name(BD, ['get_stdin_fd', 'get_stdout_fd', 'get_stderr_fd'][c])
            ctx.where = ctx.site(f)
            o = I.call(f, [], {})
            ctx.require(ctx.isa(o, BD, 'StdDescriptor') and deref(ctx.meth(o, 'get_type')) is deref(I.getattr(std, ['STDIN', 'STDOUT', 'STDERR'][c])),
                        'descriptor', 'it gives %s' % show(o))
        elif c < 5:
            f = ctx.name(BDIO, ['make_stdin_with_access_stream_input', 'make_stdout_with_access_output'][c - 3])
            ctx.where = ctx.site(f)
            o = I.call(f, [], {})
            ctx.require(std_ok(ctx, deref(o), ['STDIN', 'STDOUT'][c - 3]), 'descriptor', 'it gives %s' % show(o))
        elif c == 5:
            o = ctx.meth(ctx.operand(w), 'to_arg_string_type')
            ctx.where = 'Operand.to_arg_string_type'
            ctx.require(ctx.isa(o, BD, 'ArgStringType') and ctx.same(ctx.meth(o, 'get_name'), w), 'as-string', 'it gives %s' % show(o))
        elif c == 6:
            v = choose(2, 'argument')
            a = ctx.new(BD, 'ArgStringType', w) if v else 7
            o = ctx.new(BDV, 'OptionWithIOVar', '-o', a)
            ctx.where = 'OptionWithIOVar'
            ctx.require(all(deref(ctx.meth(o, q)) is deref(a) for q in ('get_arg', 'get_arg_with_ioinfo')) and ctx.meth(o, 'get_name') == '-o',
                        'option-argument', 'it is %s' % show(o))
        else:
            k = ['CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY', 'CUSTOM_N_ARY'][choose(6, 'kind')]
            s = agg_spec(ctx, k)
            ctx.where = 'AggregatorSpec.get_kind'
            e = deref(ctx.meth(s, 'get_kind'))
            ctx.require(isinstance(e, Obj) and deref(e.get('_name_')) == k and agg_kind(ctx, s) == k, 'aggregator-kind', 'it is %s' % show(e))
    for h, nm in ((dedup, 'deduplication'), (fold, 'fold'), (arg, 'words to flag'), (defaults, 'defaults'), (properties, 'properties'),
                  (accessors, 'accessors')):
        ctx.explore(h, nm)


# ------------------------------------------------------------------ C37
TEXT = '''
def text(x):
    return str(x)

def shown(x):
    return f'{x}'

def in_list(x):
    return str([x])
'''


def appears(text, tokens):
    """are the tokens (open words, or constants) found in the text, in this order?"""
    text = deref(text)
    parts = list(text.parts) if isinstance(text, SCat) else [text]
    parts = [deref(p) for p in parts]
    i, off = 0, 0
    for t in tokens:
        t = deref(t)
        while True:
            if i >= len(parts):
                return False
            p = parts[i]
            if isinstance(t, str) and isinstance(p, str):
                k = p.find(t, off)
                if k >= 0:
                    off = k + len(t)
                    break
            elif p is t or (isinstance(t, SCat) and p in t.parts):
                i, off = i + 1, 0
                break
            i, off = i + 1, 0
    return True


def t_printed(ctx):
    """printed forms name everything, in order"""
    T = ctx.client(TEXT)
    I = ctx.I
    n = [0]

    def w():
        n[0] += 1
        return SStr('word%d' % n[0])

    def enum(mod, cls, x):
        return I.getattr(ctx.name(mod, cls), x)

    def fname(k):
        x = w()
        return ctx.new(BDIO, 'FileNameWithIOInfo', x, access(ctx, k)), [[x], [k]]

    def std(k):
        return ctx.new(BDIO, 'StdDescriptorWithIOInfo', enum(BD, 'StdDescriptorEnum', 'STDIN'), access(ctx, k)), [['STDIN'], [k]]

    def string():
        x = w()
        return ctx.new(BD, 'ArgStringType', x), [[x]]

    def flag():
        x = w()
        return ctx.flag(x), [[x]]

    def option(what):
        x = w()
        if what == 'plain':
            a = w()
            return ctx.option(x, a), [[x], [a]]
        o, t = {'string': string, 'file': lambda: fname('OTHER_OUTPUT'), 'var': lambda: (7, [['7']])}[what]()
        mod, cls = (BDV, 'OptionWithIOVar') if what == 'var' else (BDIO, 'OptionWithIO')
        return ctx.new(mod, cls, x, o), [[x]] + t

    def lst(*els):
        m = max([len(t) for o, t in els] + [0])
        return PList([o for o, t in els]), [[x for o, t in els if j < len(t) for x in t[j]] for j in range(m)]

    def invocation(mod, cls, kind, first=()):
        c = w()
        fl, ft = lst(*([flag() for _ in range(choose(2, 'flags'))] + [option(kind) for _ in range(choose(2, 'options'))]))
        if kind == 'plain':
            xs = [w() for _ in range(choose(3, 'operands'))]
            if cls == 'CommandInvocationPrefix':
                ops, ot = PList([ctx.new(BD, 'ArgStringType', x) for x in xs]), [xs]
            else:
                ops, ot = PList([ctx.operand(x) for x in xs]), [xs]
            return ctx.new(mod, cls, c, fl, ops), [[c]] + ft + ot
        if kind in ('string', 'file'):
            ops, ot = lst(*([string()] * choose(2, 'strings') + [fname('STREAM_INPUT')] * choose(2, 'files')))
            i, it = std('STREAM_INPUT') if choose(2, 'implicit input') else (None, [])
            return ctx.new(mod, cls, c, fl, ops, i, None), [[c]] + ft + ot + it
        ops, ot = lst(*([string()] * choose(2, 'strings') + [(8, [['8']])] * choose(2, 'streams')))
        acc = PDict()
        at = [[], []]
        for v, k in ((7, 'OTHER_INPUT'), (8, 'STREAM_INPUT'), (9, 'STREAM_OUTPUT')):
            I.dict_set(acc, v, access(ctx, k))
            at[0].append(str(v))
            at[1].append(k)
        return ctx.new(mod, cls, *(list(first) + [c, fl, ops, None, 9, acc])), [[c]] + ft + ot + [['9']] + at

    def plan():
        sk, ak, mk = ['CONSEC_CHUNKS', 'INDIV_FILES'][choose(2, 'splitter')], ['CONCATENATE', 'CUSTOM_2_ARY', 'ADJ_LINES_FUNC'][choose(3, 'aggregator')], \
            ['same', 'custom'][choose(2, 'mapper')]
        p = ctx.new(PAR + 'Parallelizer', 'Parallelizer', splitter(ctx, sk), mapper_spec(ctx, mk), agg_spec(ctx, ak), None, 0)
        return p, [[sk], ['map_part'] if mk == 'custom' else [], [ak], ['merge_parts'] if ak != 'CONCATENATE' else []]

    def info():
        a, at = plan()
        b, bt = plan()
        c = bool(choose(2, 'commutative'))
        return ctx.new(PI, 'ParallelizabilityInfo', PList([a, b]), False, c), [x + y for x, y in zip(at, bt)] + [[str(c)]]
    KINDS_OF = {
        'Flag': flag, 'Option': lambda: option('plain'), 'OptionWithIO': lambda: option(['string', 'file'][choose(2, 'argument')]),
        'OptionWithIOVar': lambda: option('var'), 'ArgStringType': string,
        'FileName': lambda: (lambda x: (ctx.new(BD, 'FileName', x), [[x]]))(w()),
        'Operand': lambda: (lambda x: (ctx.operand(x), [[x]]))(w()),
        'FileNameWithIOInfo': lambda: fname(KINDS[choose(len(KINDS), 'access')]),
        'StdDescriptorWithIOInfo': lambda: std(KINDS[choose(len(KINDS), 'access')]),
        'StdDescriptor': lambda: (lambda x: (ctx.new(BD, 'StdDescriptor', enum(BD, 'StdDescriptorEnum', x)), [[x]]))(
            ['STDIN', 'STDOUT', 'STDERR'][choose(3, 'descriptor')]),
        'AccessKind': lambda: (lambda k: (access(ctx, k), [[k]]))(KINDS[choose(len(KINDS), 'access')]),
        'CommandInvocationInitial': lambda: invocation(CII, 'CommandInvocationInitial', 'plain'),
        'CommandInvocationPrefix': lambda: invocation(CIP, 'CommandInvocationPrefix', 'plain'),
        'CommandInvocationWithIO': lambda: invocation(CIO, 'CommandInvocationWithIO', ['string', 'file'][choose(2, 'argument')]),
        'CommandInvocationWithIOVars': lambda: invocation(CIV, 'CommandInvocationWithIOVars', 'var'),
        'Mapper': lambda: invocation(PAR + 'Mapper', 'Mapper', 'var'),
        'Parallelizer': plan, 'ParallelizabilityInfo': info,
    }
    names = sorted(KINDS_OF)

    def harness():
        n[0] = 0
        name = names[choose(len(names), 'class')]
        o, groups = KINDS_OF[name]()
        how = ['text', 'shown', 'in_list'][choose(3, 'way to print')]
        ctx.facts = lambda: 'a %s with %s' % (name, [show(deref(t)) for g in groups for t in g])
        m = deref(o).cls.lookup('__repr__')[0]
        ctx.where = ctx.site(m) if m is not None else name
        t = I.call(T[how], [o], {})
        o = deref(o)
        changed = [(k, v) for k, v in o.attrs.d.values() if any(deref(v) is deref(x) for g in groups for x in g if isinstance(deref(x), SStr))]
        if changed and choose(2, 'printed again after a change'):
            k, v = changed[0]
            new = w()
            ctx.I.setattr(o, k, new)
            groups = [[new if deref(x) is deref(v) else x for x in g] for g in groups]
            ctx.facts = lambda: 'a %s that is printed, gets another %s, and is printed again' % (name, k)
            t = I.call(T[how], [o], {})
        for g in groups:
            ctx.require(appears(t, g), 'printed:%s' % name, 'it prints as %s, where one of %s is missing or out of order' % (
                show(t), [show(deref(x)) for x in g]))
    ctx.explore(harness)


def tasks(prop, tier='quick'):
    if prop == 'C37':
        return [('printed', t_printed)]
    sizes = [0, 1, 2, 3, 4, 60] if tier == 'quick' else [0, 1, 2, 3, 4, 5, 6, 60, 200]
    return [('roles %d' % n, t_roles([n])) for n in reversed(sizes)] + [
        ('option roles', t_typers), ('conditions', t_conditions), ('plans', t_plans), ('utilities', t_utilities)]
