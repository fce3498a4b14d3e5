"""Access kinds (C14), the command-line tool (C30, C31), rendering of shell
words (C33), and the path from a command line to its annotations (C34)."""
from .base import *
from . import iospec, parspec
from .iospec import COMMANDS, O_OUT
from .c_par import Query, describe_par, iovars, generator_site as par_site
from .c_io import word_role, std_ok, option_role, generator_site as io_site
from .c_parser import Words, Line, parse
from absint.stdmods import CmdStr
from absint.builtins import FileV

RULES = {
    'C14': 'each access kind satisfies exactly its own predicate, the input and output predicates partition the kinds, '
           'and the strings of the tables name exactly their kind',
    'C30': 'no trace opens an existing path for writing; a new path is written once with the report and nothing else',
    'C31': 'the report consists of the command line, its parse, the applied annotation and the parallelizability information',
    'C33': 'the rendering of a sequence of shell characters is the concatenation of the renderings of its elements',
    'C34': 'any spelling of an invocation gets the annotations of its documented meaning',
}

# ------------------------------------------------------------------ C14
PREDICATES = {
    'is_config_input': ['CONFIG_INPUT'], 'is_stream_input': ['STREAM_INPUT'],
    'is_container_for_input': ['CONTAINER_FOR_INPUT'], 'is_excludes_from_input': ['EXCLUDES_FROM_INPUT'],
    'is_other_input': ['OTHER_INPUT'], 'is_stream_output': ['STREAM_OUTPUT'], 'is_other_output': ['OTHER_OUTPUT'],
    'is_any_input': INPUT_KINDS, 'is_any_output': OUTPUT_KINDS,
}


def check_kind(ctx, a, kind, how):
    ctx.require(ctx.isa(a, AK, 'AccessKind'), 'access-type', '%s gives %s' % (how, show(a)))
    if not ctx.isa(a, AK, 'AccessKind'):
        return
    ctx.require(ctx.kind(a) == kind, 'access-kind:%s' % kind, '%s gives the kind %s' % (how, ctx.kind(a)))
    for p, kinds in PREDICATES.items():
        got = ctx.I.truth(ctx.meth(a, p))
        ctx.require(got == (kind in kinds), 'access-predicate:%s' % p, '%s of %s is %s' % (p, kind, got))


def t_factories(ctx):
    cls = ctx.name(AK, 'AccessKind')

    def harness():
        kind = KINDS[choose(len(KINDS), 'access kind')]
        how = choose(3, 'how it is made')
        ctx.facts = lambda: kind
        if how == 0:
            f = ctx.name(AK, 'make_' + kind.lower())
            ctx.where = ctx.site(f)
            a = ctx.I.call(f, [], {})
        elif how == 1:
            f = ctx.name(AK, 'get_access_from_string')
            ctx.where = ctx.site(f)
            a = ctx.I.call(f, [kind], {})
        else:
            ctx.where = ctx.site(cls)
            a = ctx.I.call(cls, [ctx.I.getattr(ctx.name(AK, 'AccessKindEnum'), kind)], {})
        check_kind(ctx, a, kind, 'the factory')
        k2 = KINDS[choose(len(KINDS), 'another access kind')]
        b = ctx.I.call(ctx.name(AK, 'make_' + k2.lower()), [], {})
        ctx.require(ctx.I.truth(ctx.I.eq(a, b)) == (kind == k2), 'access-equality', '%s and %s are %s' % (
            kind, k2, 'different' if kind == k2 else 'equal'))
    ctx.explore(harness)


def t_strings(ctx):
    f = ctx.name(AK, 'get_access_from_string')

    def harness():
        w = SStr('string')
        ctx.facts = lambda: show(deref(w))
        ctx.where = ctx.site(f)
        a, exc = ctx.attempt(f, [w])
        for k in KINDS:
            if ctx.I.word_in(w, [k]):
                ctx.require(exc is None, 'access-string-refused', '%s is refused with %s' % (k, exc))
                if exc is None:
                    check_kind(ctx, deref(a), k, 'the string')
                return
        ctx.require(exc is not None, 'access-string-accepted', 'a string that names no access kind gives %s' % show(a))
    ctx.explore(harness)


# ------------------------------------------------------------------ C33
ESCAPES = [92, 61, 91, 93, 45, 58, 126, 42]
CODES = list(range(1, 256)) + [0, 0x263a, 0x2028, 0xfeff, 0xd800, 0x1f600, 0x10ffff]
FEW = [65, 10, 32, 34, 36, 39, 92, 0x263a]


def t_chars(depth, sizes=None, kinds=None):
    def task(ctx):
        f = ctx.name(BD, 'format_arg_chars')
        one = ctx.name(BD, 'format_arg_char')

        def make(d, n, pair):
            """(value, expected text or None if some element has no rendering)"""
            els, text, ok = [], [], True
            size = choose(n + 2, 'length') if d == depth and not d else choose(n + 1, 'length')
            turn = choose(5, 'first kind') if size > n else None
            for i in range(size if size <= n else 47):
                k = (turn + i) % 4 if size > n else choose(6 if d else 5, 'kind of shell character')
                if size > n and k < 2:
                    c = ([65, 10, 32, 34, 36, 39, 92, 0x263a] if k == 0 else ESCAPES + [34, 110, 36, 96])[(i // 4 + turn) % 8]
                    els.append(pair(('CE'[k], c)))
                    text.append(chr(c))
                    continue
                if k == 0:
                    c = fin(CODES if depth == 0 and size == 1 else FEW, 'char')
                    els.append(pair(('C', c)))
                    text.append(ctx.I.pointwise(chr, c))
                elif k == 1:
                    c = fin(CODES if depth == 0 and size == 1 else ESCAPES + [10, 34, 110, 36, 96], 'escape')
                    els.append(pair(('E', c)))
                    text.append(ctx.I.pointwise(chr, c))
                elif k == 2:
                    b = SStr('backticks')
                    els.append(pair(('B', b)))
                    text += ['$(', b, ')']
                elif k == 3:
                    v = SStr('variable')
                    els.append(pair(('V', PList(['Normal', False, v, PList([])]))))
                    text += ['${', v, '}']
                elif k == 4:
                    key = SStr('kind')
                    key.neq = frozenset('CEBVQ')
                    els.append(pair((key, SStr('value'))))
                    ok = False
                else:
                    v, t = make(d - 1, 2, pair)
                    els.append(pair(('Q', v)))
                    if t is None:
                        ok = False
                    else:
                        text += ['"'] + t + ['"']
            return PList(els), text if ok else None

        def harness():
            pair = tuple if choose(2, 'list or tuple') else (lambda t: PList(list(t)))
            v, text = make(depth, 3 if depth == 0 else 2 if depth == 1 else 1, pair)
            ctx.facts = lambda: show(v)
            ctx.where = ctx.site(f)
            r, exc = ctx.attempt(f, [v])
            if text is None:
                ctx.require(exc == 'NotImplementedError', 'unknown-rendered', 'an unknown kind of character gives %s' %
                            (exc or show(r)))
                return
            ctx.require(exc is None, 'rendering-raises', 'raises %s' % exc)
            if exc is None:
                want = ctx.I.concat(text) if text else ''
                ctx.require(same_text(ctx, r, want), 'rendering', 'rendered as %s and not as %s' % (show(r), show(want)))
        ctx.explore(harness)
    return task


def flat(text, decide=False):
    """a text as a list of characters and abstract words"""
    text = deref(text)
    if isinstance(text, str):
        return list(text)
    if isinstance(text, FVal):
        if decide:
            text = concretise(text)
        elif len(set(text.fn[d] for d in text.var.dom)) == 1:
            text = text.fn[text.var.dom[0]]
        return list(text) if isinstance(text, str) else [text]
    if isinstance(text, SCat):
        text = text.parts
    if isinstance(text, (tuple, list)):
        out = []
        for p in text:
            if isinstance(p, str):
                out += p
            else:
                out += flat(p, decide)
        return out
    return [text]


def atom(a, b):
    """the same character or abstract word (never splits the partition)"""
    if a is b or isinstance(a, str) and isinstance(b, str) and a == b:
        return True
    return isinstance(a, FVal) and isinstance(b, FVal) and a.var is b.var and all(a.fn[d] == b.fn[d] for d in a.var.dom)


def same_text(ctx, a, b):
    for decide in (False, True):
        x, y = flat(a, decide), flat(b, decide)
        if len(x) == len(y) and all(map(atom, x, y)):
            return True
    return False


def unprefixed(chars):
    """without the package prefix of class names: the tool imports the classes under two names"""
    pre = list(PKG + '.')
    out, i = [], 0
    while i < len(chars):
        if chars[i] == 'p' and chars[i:i + len(pre)] == pre:
            i += len(pre)
            continue
        out.append(chars[i])
        i += 1
    return out


def within(ctx, want, got, start=0):
    """position after the first occurrence of want in got, or None"""
    n = len(want)
    for i in range(start, len(got) - n + 1):
        if all(atom(a, b) for a, b in zip(want, got[i:i + n])):
            return i + n
    return None


# ------------------------------------------------------------------ C30, C31
CLI = PKG + '/annotation_cli.py'
STATES = ['absent', 'file', 'empty file', 'directory', 'unreadable file', 'created meanwhile']


class Files:
    """the one file named on the command line; every other path is real and read only"""

    def __init__(self, path, state):
        self.path, self.state = path, state
        self.opened = 0
        self.written = []
        self.bad = []
        self.content = None

    def mine(self, I, p):
        p = deref(p)
        if p is self.path or isinstance(p, SStr) and isinstance(self.path, SStr) and p is deref(self.path):
            return True
        if isinstance(p, Obj) and isinstance(deref(p.attrs.d.get('_path', (0, None))[1]), (SStr, str)):
            return self.mine(I, deref(p.get('_path')))
        if isinstance(p, SCat) and any(q is self.path for q in p.parts):
            return None
        return isinstance(p, str) and p == self.path

    def exists(self):
        return self.state not in ('absent', 'created meanwhile') or self.content is not None

    def test(self, I, p, kind):
        if self.mine(I, p) is False:
            return None
        if not self.exists():
            return False
        if kind == 'isfile':
            return self.state != 'directory'
        if kind == 'isdir':
            return self.state == 'directory'
        return True

    def open(self, I, p, mode):
        m = self.mine(I, p)
        if m is False:
            fs, I.fs = I.fs, None
            try:
                if set(mode) & set('wax+'):
                    self.bad.append('%s is opened with mode %s' % (show(p), mode))
                    return FileV(p, mode, '')
                from absint.builtins import b_open
                return b_open(I, [p, mode], {})
            finally:
                I.fs = fs
        if m is None:
            self.bad.append('a file beside the given path is opened: %s' % show(p))
        self.opened += 1
        writing = set(mode) & set('wax+')
        if not writing:
            if not self.exists():
                I.throw('FileNotFoundError', 2, 'No such file or directory')
            if self.state == 'directory':
                I.throw('IsADirectoryError', 21, 'Is a directory')
            if self.state == 'unreadable file':
                I.throw('PermissionError', 13, 'Permission denied')
            return FileV(p, mode, '' if self.state == 'empty file' else SStr('previous content'))
        if 'x' in mode:
            if self.exists() or self.state == 'created meanwhile':
                I.throw('FileExistsError', 17, 'File exists')
        elif self.exists() and self.content is None or self.state == 'created meanwhile':
            self.bad.append('the existing path (%s) is opened with mode %s' % (self.state, mode))
            if self.state == 'directory':
                I.throw('IsADirectoryError', 21, 'Is a directory')
        elif 'r' in mode and not self.exists():
            I.throw('FileNotFoundError', 2, 'No such file or directory')
        self.content = []
        return FileV(p, mode, '')


def preload(ctx):
    import os
    I = ctx.I
    d = os.path.join(REPO, PKG)
    if d not in I.path_roots:
        I.path_roots.insert(0, d)
    for m in (AG, PARSER, CII, IOI, PI, 'annotation_generation.AnnotationGeneration', 'datatypes.CommandInvocationInitial',
              'parser.parser', 'annotation_generation.datatypes.InputOutputInfo',
              'annotation_generation.datatypes.ParallelizabilityInfo'):
        try:
            I.import_module(m)
        except PyExc:
            pass


def run_cli(ctx, cmdline, path, state):
    """interpret the command-line tool; -> (file model, texts printed, exception)"""
    import os
    I = ctx.I
    fs = Files(path, state)
    I.fs = fs
    del I.effects[:]

    def cli(I, names, kw, dest):
        if dest == 'command_invocation' or '--command_invocation' in names:
            return cmdline
        if dest == 'save_to' or '--save_to' in names:
            return path if state is not None else (deref(kw['default']) if 'default' in kw else None)
        if 'default' in kw:
            return kw['default']
        return None
    I.cli = cli
    exc = None
    try:
        I.run_script(os.path.join(REPO, CLI), '__main__')
    except PyExc as e:
        if e.obj.cls.name == 'SystemExit' and deref(e.obj.get('args')) in ((), (0,), (None,)):
            pass
        else:
            exc = e
    finally:
        I.fs = I.cli = None
    printed, other = [], []
    for e in I.effects:
        if e[0] == 'print':
            printed += [e[1], '\n']
        elif e[0] == 'write':
            own = fs.mine(I, e[1]) is not False
            if own:
                fs.content = (fs.content or []) + [e[3]]
            elif getattr(e[1], 'name', None) in ('stdout', '<stdout>') or e[1] in ('<stdout>', 'stdout'):
                printed.append(e[3])
            else:
                other.append('%s is written' % show(e[1]))
        else:
            other.append('%s of %s' % (e[0], show(e[1])))
    fs.bad += other
    del I.effects[:]
    return fs, printed, exc


#: words that the annotations tell apart: files, the standard streams, sets of characters, scripts
SAMPLES = ['file', '-', 'a-z', '\\n', '[:space:]', '\\0', 's/a/b/', '2d', 'random', '1R', "a b"]


class Sampled(Words):
    """words as in Words, but operands and arguments are of the kinds that matter"""
    def any(self, name):
        return fin(SAMPLES, name)

    def plain(self):
        return fin([s for s in SAMPLES if s not in self.declared], 'plain')


def cli_line(ctx, cmd, n, sampled, small=False, first=None):
    """an abstract command line: words of known classes, so that the report can be told"""
    if cmd in TABLES:
        W = (Sampled if sampled else Words)(cmd, 2)
        W.classes = [c for c in W.classes if c != 'other' and (not small or c in ('plain', 'flag', 'option'))]
        W.other = lambda ctx: '-'
        return Line(ctx, cmd, W, n, first)

    class L:
        pass
    l = L()
    l.words = [fin(SAMPLES, 'word%d' % i) if sampled else SStr('word%d' % i) for i in range(n)]
    return l


def t_cli_files(ctx):
    preload(ctx)

    def harness():
        state = ([None] + STATES)[choose(1 + len(STATES), 'file to save to')]
        path = SStr('path', None, 1)
        cmd = ['cat', 'mv', 'foo', 'grep', 'sort'][choose(5, 'command')]
        words = [SStr('word%d' % i, None, 1) for i in range(choose(3, 'number of words'))]
        for w in words:
            w.preds[('startswith', '-')] = False
        line = CmdStr([cmd] + words)
        ctx.facts = lambda: '%s, --save_to a path that is: %s' % (show(line), state)
        ctx.where = CLI
        fs, printed, exc = run_cli(ctx, line, path, state)
        ctx.require(not fs.bad, 'writes-elsewhere' if state in (None, 'absent') else 'overwrites:%s' % state, '; '.join(fs.bad))
        ctx.require(exc is None, 'tool-raises:%s' % state, 'the tool ends with %s at %s' % (exc and exc.obj.cls.name, exc and exc.site))
        rep = [line.text]
        if state == 'absent':
            ctx.require(fs.content is not None and within(ctx, rep, flat(fs.content)) is not None, 'not-saved',
                        'the report is not written to the new file')
        else:
            ctx.require(fs.content is None, 'saved:%s' % state, 'something is written to the path')
            ctx.require(within(ctx, rep, flat(printed)) is not None, 'not-printed:%s' % state, 'the report is not printed')
    ctx.explore(harness)


def t_cli_report(cmd):
    def task(ctx):
        preload(ctx)
        I = ctx.I

        def harness():
            n = choose(4 if ctx.thorough else 3, 'number of words')
            line = cli_line(ctx, cmd, n, False, small=not ctx.thorough)
            cl = CmdStr([cmd] + list(line.words))
            state = [None, 'absent', 'file'][choose(3, 'file to save to')] if n < 2 else None
            ctx.facts = lambda: '%s, --save_to a path that is: %s' % (show(cl), state)
            ctx.where = CLI
            # what the library says
            inv = deref(I.call(ctx.name(PARSER, 'parse'), [cl], {}))
            str_ = lambda o: I.B.str_(I, o)
            want = [('the command line', cl.text), ('the parsed invocation', str_(inv))]
            io = ctx.io_info(inv)
            if io is None:
                want.append(('that the command is taken as side-effectful', 'side-effectful'))
            elif I.truth(ctx.meth(io, 'has_other_outputs')):
                want.append(('that there are other outputs', 'outputs other than streaming'))
            else:
                want.append(('the annotated invocation', str_(ctx.meth(io, 'apply_input_output_info_to_command_invocation', inv))))
            par = ctx.par_info(inv)
            if par is None:
                par = ctx.new(PI, 'ParallelizabilityInfo')
            want.append(('the parallelizability information', str_(par)))
            fs, printed, exc = run_cli(ctx, cl, SStr('path', None, 1), state)
            ctx.require(exc is None, 'report-raises', 'the tool ends with %s at %s' % (exc and exc.obj.cls.name, exc and exc.site))
            if exc is not None:
                return
            out = fs.content if state == 'absent' else printed
            ctx.require(out is not None, 'report-missing', 'there is no report')
            for decide in (False, True):
                pos, lacks = 0, []
                report = unprefixed(flat(out or [], decide))
                for what, text in want:
                    p = within(ctx, unprefixed(flat(text, decide)), report, pos)
                    if p is None:
                        lacks.append(what)
                    pos = p or pos
                if not lacks:
                    break
            for what, text in want:
                ctx.require(what not in lacks, 'report-lacks:%s' % what.replace(' ', '-'), 'the report lacks %s' % what)
            if state == 'file':
                ctx.require(within(ctx, list('exists'), flat(printed, True)) is not None, 'report-notice',
                            'the user is not told that the file exists')
        ctx.explore(harness)
    return task


# ------------------------------------------------------------------ C34
#: what the whole way from the line to the annotations says about single properties
ASPECTS = {'C06': ['annotation'], 'C08': ['stdin'], 'C09': ['stdout'], 'C10': ['operands'], 'C11': ['effects'],
           'C12': ['option-argument'], 'C13': ['flags'], 'C15': ['unsafe'], 'C17': ['parallel', 'plans'], 'C20': ['merge'],
           'C21': ['plans']}
ASPECT_CMDS = {'C20': ['sort', 'custom_sort'], 'C21': ['tr']}


def t_whole(cmd, n, first=None, only=None):
    """any spelling, through the parser, to both annotations"""
    def task(ctx):
        def want(*aspects):
            return only is None or any(a in only for a in aspects)

        def require(cond, aspect, msg):
            if want(aspect):
                ctx.require(cond, 'line-%s:%s' % (aspect, cmd), msg)

        def harness():
            line = cli_line(ctx, cmd, n, True, first=first)
            if cmd in TABLES:
                meta = [e for u in line.units for e in u[2]]
                names = list(line.operands)
            else:
                meta, names = [], list(line.words)
            cl = CmdStr([cmd] + list(line.words))
            ctx.facts = lambda: show(cl)
            ctx.where = io_site(ctx, cmd)
            inv = deref(ctx.I.call(ctx.name(PARSER, 'parse'), [cl], {}))
            has, count = (lambda *ns: ctx.has(meta, *ns)), (lambda *ns: ctx.count(meta, *ns))
            if want('annotation', 'stdin', 'stdout', 'operands', 'effects', 'option-argument', 'flags'):
                inputs_outputs(ctx, inv, meta, names, has, count)
            if want('parallel', 'plans', 'unsafe', 'merge'):
                parallel(ctx, inv, meta, names)

        def inputs_outputs(ctx, inv, meta, names, has, count):
            e = iospec.expected(cmd, has, count, len(names))
            io = ctx.io_info(inv)
            require((io is None) == (e is None), 'annotation', 'it gets %s annotation' % ('an' if io else 'no'))
            if e is None or io is None:
                return
            v = deref(ctx.meth(io, 'apply_input_output_info_to_command_invocation', inv))
            i, o = ctx.attr(v, 'implicit_use_of_streaming_input'), ctx.attr(v, 'implicit_use_of_streaming_output')
            require(std_ok(ctx, i, 'STDIN') if e.stdin else i is None, 'stdin',
                    'it reads %s but is annotated with %s' % ('standard input' if e.stdin else 'no standard input', show(i)))
            require(std_ok(ctx, o, 'STDOUT') if e.stdout else o is None, 'stdout',
                    'it writes %s but is annotated with %s' % ('standard output' if e.stdout else 'no standard output', show(o)))
            got = ctx.items(ctx.attr(v, 'operand_list')) or []
            if e.roles is not None and want('operands'):
                roles = [word_role(ctx, x) for x in got]
                require(roles == list(e.roles), 'operands', 'its operands are annotated %s and not %s' % (roles, e.roles))
            if e.roles is not None and want('effects'):
                w = 'OTHER_OUTPUT' in e.roles or any([option_role(cmd, ctx, m[1]) == 'OTHER_OUTPUT' for m in meta if m[0] == 'option'])
                g = ctx.I.truth(ctx.meth(io, 'has_other_outputs'))
                require(g == w, 'effects', 'it %s other files but its annotation says %s' % ('changes' if w else 'changes no', g))
            els = ctx.items(ctx.attr(v, 'flag_option_list')) or []
            require(len(els) == len(meta), 'flags', '%d flags and options became %d' % (len(meta), len(els)))
            if want('option-argument'):
                for g, (kind, name, arg) in zip(els, meta):
                    if kind == 'option' and ctx.isa(g, BDIO, 'OptionWithIO'):
                        r, w = word_role(ctx, deref(ctx.meth(g, 'get_arg'))), option_role(cmd, ctx, name)
                        require(r == w, 'option-argument', 'the argument of %s is annotated %s and not %s' % (
                            show(deref(name)), r, w))

        def parallel(ctx, inv, meta, names):
            ctx.where = par_site(ctx, cmd)
            info = ctx.par_info(inv)
            plans = parspec.expected(cmd, Query(ctx, meta, names))
            require((info is None) == (plans is None), 'parallel', 'it gets %s parallelizability annotation' % ('an' if info else 'no'))
            if info is None:
                return
            pars = ctx.items(ctx.meth(info, 'get_inferred_parallelizer_list')) or []
            if plans is not None and want('plans', 'unsafe'):
                got = [describe_par(ctx, p, iovars(ctx, cmd, meta)) for p in pars]
                exp = [(p.splitter, cmd if p.mapper == parspec.SAME else p.mapper, p.agg, bool(p.done), p.pipes)
                       for p in parspec.inferred(cmd, plans)]
                require(sorted(map(repr, got)) == sorted(map(repr, exp)), 'plans', 'it is offered %s and not %s' % (got, exp))
            if want('unsafe'):
                u = parspec.unsafe(cmd, Query(ctx, meta, names))
                for spl, mapper, agg, done, pipes in [describe_par(ctx, p, iovars(ctx, cmd, meta)) for p in pars] if u else []:
                    plan = parspec.Plan(spl, parspec.SAME if mapper in (None, cmd) else mapper, agg, done, pipes)
                    require(u[1](plan), 'unsafe', 'processing %s input in parts and %s is offered although %s' % (cmd, agg, u[0]))
            if want('merge') and cmd in ASPECT_CMDS['C20']:
                els = []
                for f in ctx.items(ctx.attr(inv, 'flag_option_list')) or []:
                    if ctx.isa(f, BD, 'Flag'):
                        els.append(('flag', ctx.meth(f, 'get_name'), None))
                    else:
                        els.append(('option', ctx.meth(f, 'get_name'), ctx.meth(f, 'get_arg')))
                keep = [(n, a) for k, n, a in meta if ctx.I.word_in(n, parspec.SORT_KEEP)]
                for p in pars:
                    agg = deref(ctx.meth(p, 'get_actual_aggregator', iovars(ctx, cmd, els), PList([41, 42]), 43))
                    got = []
                    for f in ctx.items(ctx.attr(agg, 'flag_option_list')) or [] if agg is not None else []:
                        if ctx.isa(f, BD, 'Flag'):
                            got.append((ctx.meth(f, 'get_name'), None))
                        else:
                            a = deref(ctx.meth(f, 'get_arg'))
                            got.append((ctx.meth(f, 'get_name'), ctx.meth(a, 'get_name') if isinstance(a, Obj) else a))
                    rest = [g for g in got if not (g[1] is None and ctx.same(g[0], '-m'))]
                    require(agg is None or len(rest) == len(keep) and all(
                        ctx.same(x[0], y[0]) and (x[1] is None) == (y[1] is None) and (x[1] is None or ctx.same(x[1], y[1]))
                        for x, y in zip(rest, keep)), 'merge', 'the merge has the flags %s and not those that order lines: %s' % (
                            show([g[0] for g in got]), show([k[0] for k in keep])))
        ctx.explore(harness)
    return task


def lines(prop, cmds, tier):
    """the tasks that check a property of annotations from the command line on"""
    n = 3 if prop in ASPECT_CMDS or tier == 'thorough' else 2
    return [('line %s %d' % (c, k), t_whole(c, k, None, ASPECTS[prop])) for c in ASPECT_CMDS.get(prop, cmds) for k in range(n)]


def tasks(prop, tier='quick'):
    if prop == 'C14':
        return [('factories', t_factories), ('strings', t_strings)]
    if prop == 'C33':
        return [('flat', t_chars(0)), ('quoted', t_chars(1)),
                ('nested', t_chars(2, (1, 3, 2), ([0, 2], [0, 3, 5], [1, 5])))] + (
            [('nested deeply', t_chars(2)),
             ('nested twice', t_chars(3, (1, 2, 2, 2), ([0, 2], [0, 3, 5], [1, 5], [0, 5])))] if tier == 'thorough' else [])
    if prop == 'C30':
        return [('files', t_cli_files)]
    order = ['grep', 'diff', 'sort', 'custom_sort', 'xargs']
    cmds = order + [c for c in COMMANDS if c not in order]
    if prop == 'C31':
        return [(c, t_cli_report(c)) for c in cmds + ['foo', 'bigram_aux_map']]
    if prop == 'C34':
        out = []
        for c in cmds:
            for k in range(4 if tier == 'thorough' else 3):
                firsts = [x for x in Words(c, 2).classes if x != 'other'] if k > 1 and c in TABLES else [None]
                out += [('%s %d %s' % (c, k, f or ''), t_whole(c, k, f)) for f in firsts]
        return sorted(out, key=lambda t: ('cluster' not in t[0], cmds.index(t[0].split()[0])))
