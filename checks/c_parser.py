"""Parsing of command lines (C01-C04).

Input space: command lines  cmd w1 ... wn  where every word is an abstract word
of one of the classes below; together the classes cover every word (clusters
and the position of an undeclared letter up to the stated length):

  flag      one of the flag spellings of the command (finite domain)
  option    one of the option spellings, followed by an arbitrary word
  last      an option spelling at the end of the line
  long=arg  a declared long option, '=', an arbitrary rest
  cluster   '-' and 2..k letters which all are flags
  plain     a non-empty word without a leading '-'
  other     '', '-', '--', words with a leading '-' that are none of the above
"""
import itertools
from .base import *
from absint.stdmods import CmdStr

LEN = {'quick': (3, 3), 'thorough': (4, 4)}      # words, letters of a cluster


class Words:
    """classes of words for one command"""

    def __init__(self, cmd, letters):
        t = TABLES[cmd]
        self.flags = list(dict.fromkeys(s for g in t.flags for s in g))
        self.fprim, self.oprim = t.flag_primary, t.option_primary
        # a spelling that is both a flag and an option is a flag when alone
        self.options = [s for s in t.option_primary if s not in self.fprim]
        self.longs = [s for s in t.option_primary if s.startswith('--')]
        self.single = [f[1] for f in self.flags if len(f) == 2 and f[0] == '-']
        declared = set(self.flags) | set(t.option_primary)
        self.clusters = {}
        for k in range(2, letters + 1):
            if not self.single:
                continue
            if len(self.single) ** k > 4000:
                continue
            self.clusters[k] = [s for s in ('-' + ''.join(c) for c in itertools.product(self.single, repeat=k))
                                if s not in declared]
        self.declared = declared
        self.classes = ['plain', 'other']
        if self.flags:
            self.classes.append('flag')
        if self.options:
            self.classes.append('option')
        if self.longs:
            self.classes.append('long')
        if self.clusters:
            self.classes.append('cluster')

    # undeclared words that begin with '-'
    def other(self, ctx):
        k = choose(6, 'undeclared word')
        if k == 0:
            return fin(['', '-'] + ([] if '--' in self.declared else ['--']), 'word')
        if k == 1 or k == 2:
            # -x... where x is not a flag letter, possibly after flag letters
            x = SStr('letter', 1, 1)
            x.neq = frozenset(self.single) | {'-', '='}
            pre = []
            if k == 2:
                if not self.single:
                    raise Infeasible()
                pre = [fin(self.single, 'letter0')]
            n = choose(2, 'more letters')
            post = [SStr('rest', 1, 1)] if n else []
            w = SCat(tuple(['-'] + pre + [x] + post))
            if k == 1 and not n:
                # a one-letter option is declared
                x.neq = x.neq | {o[1] for o in self.options if len(o) == 2}
            elif not pre or len(pre) + 1 + len(post) >= 2:
                bad = [d for d in self.declared if not d.startswith('--') and len(d) > 2]
                if bad and ctx.I.word_in(w, bad):
                    raise Infeasible()
            return w
        if k == 3:
            # --word without '='
            r = SStr('long', None, 1)
            r.preds[('contains', '=')] = False
            r.neq = frozenset(d[2:] for d in self.declared if d.startswith('--'))
            return SCat(('--', r))
        if k == 4:
            # --word=... where --word takes no argument
            nol = [f for f in self.flags if f.startswith('--') and f not in self.longs]
            if not nol:
                raise Infeasible()
            return SCat((fin(nol, 'flag'), '=', SStr('value')))
        # --word=... where --word is not declared
        r = SStr('long', None, 1)
        r.preds[('contains', '=')] = False
        r.neq = frozenset(d[2:] for d in self.declared if d.startswith('--'))
        return SCat(('--', r, '=', SStr('value')))

    def any(self, name):
        return SStr(name)

    def plain(self):
        w = SStr('plain', None, 1)
        w.preds[('startswith', '-')] = False
        w.neq = w.neq | frozenset(d for d in self.declared if not d.startswith('-'))
        return w


def pointwise(v, f):
    v = deref(v)
    if isinstance(v, FVal):
        return FVal(v.var, {d: f(x) for d, x in v.fn.items()})
    return f(v)


class Line:
    """one abstract command line with its documented reading"""

    def __init__(self, ctx, cmd, W, n, first=None):
        self.words = []          # the words of the line
        self.units = []          # (class, words, expected elements)
        self.operands = None
        i = 0
        turn = choose(3, 'choice of spellings') if isinstance(first, list) else 0

        def pick(dom, name):
            if not isinstance(first, list):
                return fin(dom, name)
            return dom[(turn * len(dom) // 3 + len(self.units)) % len(dom)]
        while i < n:
            if self.operands is not None:
                w = W.any('operand%d' % i)
                self.words.append(w)
                self.operands.append(w)
                i += 1
                continue
            if i == 0 and isinstance(first, str):
                c = first
            elif isinstance(first, list):
                c = first[len(self.units)]
            else:
                c = W.classes[choose(len(W.classes), 'kind of word')]
            if c in ('plain', 'other'):
                w = W.plain() if c == 'plain' else W.other(ctx)
                self.words.append(w)
                self.operands = [w]
            elif c == 'flag':
                w = pick(W.flags, 'flag%d' % i)
                self.words.append(w)
                self.units.append((c, [w], [('flag', pointwise(w, W.fprim.get), None)]))
            elif c == 'option':
                w = pick(W.options, 'option%d' % i)
                self.words.append(w)
                if i + 1 == n:
                    self.operands = [w]      # nothing left to be its argument
                else:
                    i += 1
                    a = W.any('arg%d' % i)
                    self.words.append(a)
                    self.units.append((c, [w, a], [('option', pointwise(w, W.oprim.get), a)]))
            elif c == 'long':
                o = pick(W.longs, 'long%d' % i)
                a = W.any('value%d' % i)
                w = SCat((o, '=', a)) if not isinstance(o, str) else SCat((o + '=', a))
                self.words.append(w)
                self.units.append((c, [w], [('option', pointwise(o, W.oprim.get), a)]))
            elif c == 'cluster':
                ks = list(W.clusters)
                k = ks[choose(len(ks), 'letters')]
                w = pick(W.clusters[k], 'cluster%d' % i)
                self.words.append(w)
                self.units.append((c, [w], [('flag', pointwise(w, lambda s, j=j: W.fprim['-' + s[1 + j]]), None)
                                            for j in range(k)]))
            i += 1
        if self.operands is None:
            self.operands = []


def reading(ctx, r):
    """the parsed invocation as plain data"""
    els = []
    for e in ctx.items(ctx.attr(r, 'flag_option_list')) or []:
        if ctx.isa(e, BD, 'Flag'):
            els.append(('flag', deref(ctx.meth(e, 'get_name')), None))
        elif ctx.isa(e, BD, 'Option'):
            els.append(('option', deref(ctx.meth(e, 'get_name')), deref(ctx.meth(e, 'get_arg'))))
        else:
            els.append(('?', e, None))
    ops = []
    for o in ctx.items(ctx.attr(r, 'operand_list')) or []:
        ops.append(deref(ctx.meth(o, 'get_name')) if ctx.isa(o, BD, 'Operand') else o)
    return els, ops


def same(ctx, a, b):
    a, b = deref(a), deref(b)
    if a is b:
        return True
    if isinstance(a, SCat) and isinstance(b, SCat) and len(a.parts) == len(b.parts) and \
            all(x is y or x == y for x, y in zip(map(deref, a.parts), map(deref, b.parts)) if True):
        return True
    return ctx.same(a, b)


def group_of(cmd):
    t = TABLES[cmd]
    g = {}
    for grp in t.flags:
        for s in grp:
            g.setdefault(('flag', s), set()).update(grp)
    for grp, _ in t.options:
        for s in grp:
            g.setdefault(('option', s), set()).update(grp)
    return g


def spelled(ctx, cmd, kind, name, word):
    """name is some spelling of the flag or option written as word"""
    G = group_of(cmd)
    name, word = deref(name), deref(word)

    def rel(n, w):
        return n == w or n in G.get((kind, w), ())
    if isinstance(name, FVal) and isinstance(word, FVal) and name.var is word.var:
        return all(rel(name.fn[d], word.fn[d]) for d in name.var.dom)
    if isinstance(word, FVal) and isinstance(name, str):
        return all(rel(name, word.fn[d]) for d in word.var.dom)
    if isinstance(word, str) and isinstance(name, str):
        return rel(name, word)
    if isinstance(word, FVal) or isinstance(name, FVal):
        return spelled(ctx, cmd, kind, concretise(name), concretise(word))
    return same(ctx, name, word)


def parse(ctx, cmd, words):
    f = ctx.name(PARSER, 'parse')
    ctx.where = ctx.site(f)
    return deref(ctx.I.call(f, [CmdStr([cmd] + list(words))], {}))


def facts(cmd, line):
    return lambda: '%s %s' % (show(deref(cmd)), ' '.join(show(deref(w)) for w in line.words))


def conserve(ctx, cmd, line, els, ops):
    """every word of the line appears exactly once, in order"""
    els = list(els)
    n = len(els)
    i = 0
    rest = list(ops)
    for c, words, want in line.units:
        if i >= n:
            # the remaining words must all be operands
            for w in words:
                if not rest or not same(ctx, rest.pop(0), w):
                    return False, 'the word %s is lost' % show(w)
            continue
        if c in ('flag', 'option'):
            k, name, arg = els[i]
            if not spelled(ctx, cmd, k, name, words[0]):
                return False, '%s is represented as %s' % (show(words[0]), show(name))
            i += 1
            if k == 'option':
                if len(words) != 2 or not same(ctx, arg, words[1]):
                    return False, 'the argument of %s became %s' % (show(words[0]), show(arg))
            elif len(words) == 2:
                return False, 'the argument of %s is lost' % show(words[0])
        elif c == 'long':
            k, name, arg = els[i]
            i += 1
            if k != 'option' or not same(ctx, arg, want[0][2]):
                return False, 'the argument of %s became %s' % (show(words[0]), show(arg))
            parts = words[0].parts
            o = parts[0] if not isinstance(parts[0], str) else parts[0][:-1]
            if not spelled(ctx, cmd, 'option', name, o):
                return False, '%s is represented as %s' % (show(words[0]), show(name))
        else:
            for j in range(len(want)):
                if i >= n or els[i][0] != 'flag' or not spelled(
                        ctx, cmd, 'flag', els[i][1], pointwise(words[0], lambda s, j=j: '-' + s[1 + j])):
                    return False, 'letter %d of %s is lost or changed' % (j + 1, show(words[0]))
                i += 1
    if i < n:
        # the remaining flags and options must come from words read as operands
        return False, '%d flags or options without a word' % (n - i)
    if len(rest) != len(line.operands):
        return False, '%d operands for %d words' % (len(rest), len(line.operands))
    for a, b in zip(rest, line.operands):
        if not same(ctx, a, b):
            return False, 'operand %s became %s' % (show(b), show(a))
    return True, ''


def t_parse(prop, cmd, n, first, given=None):
    def task(ctx):
        k = LEN[ctx.tier][1]
        W = given or Words(cmd, k if n < 3 else k - 1)

        def harness():
            line = Line(ctx, cmd, W, n, first)
            ctx.facts = facts(cmd, line)
            r = parse(ctx, cmd, line.words)
            els, ops = reading(ctx, r)
            if prop == 'C01':
                ctx.require(ctx.same(ctx.attr(r, 'cmd_name'), cmd), 'command-name:%s' % cmd,
                            'command name is %s' % show(ctx.attr(r, 'cmd_name')))
                ok, why = conserve(ctx, cmd, line, els, ops)
                ctx.require(ok, 'words:%s' % cmd, why)
            elif prop == 'C02':
                want = [e for u in line.units for e in u[2]]
                for i, (k, name, arg) in enumerate(els):
                    if i < len(want) and want[i][0] == k:
                        ctx.require(same(ctx, name, want[i][1]), 'spelling:%s' % cmd,
                                    'the %s written %s is represented as %s and not as %s' % (
                                        k, show(line.words), show(name), show(want[i][1])))
            elif prop == 'C03':
                want = [e for u in line.units for e in u[2]]
                ctx.require([k for k, _, _ in els] == [k for k, _, _ in want], 'reading:%s' % cmd,
                            'read as %s and not as %s' % ([k for k, _, _ in els], [k for k, _, _ in want]))
                ctx.require(len(ops) == len(line.operands), 'operands:%s' % cmd,
                            '%d operands and not %d' % (len(ops), len(line.operands)))
                if [k for k, _, _ in els] == [k for k, _, _ in want]:
                    for (k, name, arg), (_, _, warg) in zip(els, want):
                        if k == 'option':
                            ctx.require(same(ctx, arg, warg), 'argument:%s' % cmd,
                                        'argument of %s is %s' % (show(name), show(arg)))
        ctx.explore(harness)
    return task


def t_long(prop, cmd):
    """many words, many letters in a cluster"""
    def pattern(W):
        out = []
        for rnd in range(3):
            for c in ('flag', 'option', 'cluster', 'flag', 'long', 'option'):
                if c in W.classes:
                    out.append(c)
        return out + ['plain']

    W = Words(cmd, 2)
    if W.single and len(W.single) ** 2 <= 4000:
        l = W.single
        W.clusters = {9: [w for w in ('-' + ''.join((l * 9)[i:i + 9]) for i in range(len(l))) if w not in W.declared]}
    pat = pattern(W)
    n = sum(2 if c == 'option' else 1 for c in pat) + 15
    return t_parse(prop, cmd, n, pat, W)


def t_untabled(ctx):
    """commands without a table: every word after the name is an operand"""
    n_max = LEN[ctx.tier][0]

    def harness():
        k = choose(3, 'command')
        if k == 0:
            cmd = fin(['head ' [:-1] + 'x', 'bigrams_aux', 'alt_bigrams_aux', 'set_diff', 'test_one', 'bigram_aux_map',
                       'foo', 'ls', 'find', 'true', './script.sh', '/usr/bin/sort', './sort', '../data/tr', 'sort.json/x',
                       '.', '..', '', 'a' * 300, 'Sort', 'sort ', 'sort.json', '[', '_sort'], 'command')
        elif k == 1:
            cmd = SStr('command')
            cmd.neq = frozenset(TABLES)
            cmd.preds[('contains', '\0')] = False        # no word of a shell contains it
        else:
            cmd = 'custom_tr'
        n = choose(n_max + 3, 'number of words')
        words = [SStr('word%d' % i) for i in range(n if n < n_max + 2 else 30)]
        ctx.facts = lambda: '%s %s' % (show(deref(cmd)), ' '.join(show(deref(w)) for w in words))
        r = parse(ctx, cmd, words)
        els, ops = reading(ctx, r)
        ctx.require(ctx.same(ctx.attr(r, 'cmd_name'), cmd), 'command-name', 'command name is %s' %
                    show(ctx.attr(r, 'cmd_name')))
        ctx.require(not els, 'no-table', 'a command without declared flags gets %s' % show(els))
        ctx.require(len(ops) == len(words) and all(same(ctx, a, b) for a, b in zip(ops, words)), 'no-table-words',
                    'operands are %s' % show(ops))
    ctx.explore(harness)


# ------------------------------------------------------------ lines as text
SPECIAL = ['a  b', 'a\tb', 'a\nb', ' lead', 'trail ', '#x', 'x#y', '#', "it's", '"q"', 'a"b\'c', '\\', '\\n', 'a\\ b', '$HOME', '${x}',
           '$(ls)', '`ls`', '*', '?.txt', '[a-z]', '~', '~/x', 'a;b', ';', '&', '|', '>', '<f', '>>out', '(', ')', '{a,b}', '!',
           '', '-n x', '--', '-', '-x', 'a=b', '=', '%s', 's/a b/c d/g', '{print $1}', 'caf\xe9', '\u4e2d', "''", '""', 'x' * 300,
           '\\t', '^a$', 'a,b', '@', '/dev/null', '..', '1 2 3', 'A  B', '  ', 'a\rb', '\x0b', '\u00a0', '\u2003', 'a\x1fb']


def quotings(w):
    """ways to write a word in a command line that a shell and shlex read alike"""
    out = ["'" + w.replace("'", "'\"'\"'") + "'"]
    if not set(w) & set('$`!'):
        out.append('"' + w.replace('\\', '\\\\').replace('"', '\\"') + '"')
    if w and '\n' not in w:
        out.append(''.join('\\' + c for c in w))
        h = len(w) // 2
        out.append("'" + w[:h].replace("'", "'\"'\"'") + "'" + ''.join('\\' + c for c in w[h:]))
    if w and not set(w) & set(' \t\n\r"\'\\#'):
        out.append(w)
    return out


FRAMES = [('grep', ['-e', None, '-i', 'p', None, None], [('option', '-e', 0), ('flag', '-i', None)], ['p', 1, 2]),
          ('sort', ['--field-separator', None, '-k', None, 'f', None], [('option', '-t', 0), ('option', '-k', 1)], ['f', 2]),
          ('cut', ['-s', 'f', None, None, None], [('flag', '-s', None)], ['f', 0, 1, 2]),
          ('tr', ['-cd', 'x', None, None, None], [('flag', '-c', None), ('flag', '-d', None)], ['x', 0, 1, 2]),
          ('foo', [None, None, '-n', None], [], [0, 1, '-n', 2])]


def t_text(ctx):
    """lines as text: words written with all kinds of quotes and blanks"""
    f = ctx.name(PARSER, 'parse')

    def harness():
        cmd, frame, els, ops = FRAMES[choose(len(FRAMES), 'line')]
        if ctx.prop == 'C04' and cmd != 'foo' or ctx.prop != 'C04' and cmd == 'foo':
            return
        k = choose(len(SPECIAL), 'word')
        turn = choose(5, 'quotes')
        vals = [SPECIAL[(k + j * (7 + turn)) % len(SPECIAL)] for j in range(3)]
        texts, used = [], 0
        for x in [cmd] + frame:
            if x is None:
                q = quotings(vals[used])
                x = q[(turn + used) % len(q)]
                used += 1
            texts.append(x)
        text = (' ', '', '\t', '', ' ')[turn] + (' ', '  ', '\t', ' \t ', ' ')[turn].join(texts) + ('', ' ', '\n', '', '  ')[turn]
        ctx.facts = lambda: repr(text)
        ctx.where = ctx.site(f)
        r = deref(ctx.I.call(f, [text], {}))
        got = reading(ctx, r)
        want = [(a, b, None if c is None else vals[c]) for a, b, c in els], [vals[o] if isinstance(o, int) else o for o in ops]
        name = ctx.attr(r, 'cmd_name')
        ctx.require(name == cmd and [len(x) for x in got] == [len(x) for x in want], 'text:%s' % cmd,
                    'read as %s %s' % (show(name), show(got)))
        ctx.require(all(same(ctx, e[2], x[2]) for e, x in zip(got[0], want[0]) if e[2] is not None), 'text-argument:%s' % cmd,
                    'the arguments are %s and not %s' % (show(got[0]), want[0]))
        ctx.require(all(same(ctx, o, x) for o, x in zip(got[1], want[1])), 'text-operand:%s' % cmd,
                    'the operands are %s and not %s' % (show(got[1]), want[1]))
    ctx.explore(harness, 'text')


def t_history(ctx):
    """what was parsed before, of any command, and what clients did to the results, does not show in a later parse"""
    import random
    from .c_io import snapshot, same_shape
    pool = []
    for cmd in sorted(TABLES):
        t = TABLES[cmd]
        some = lambda l: l if ctx.thorough else l[::2] + l[-1:]
        for g in some(t.flags):
            pool += [(cmd, s, 'word') for s in g]
        for g, _ in t.options:
            for s in g:
                pool.append((cmd, s, 'argument', 'word'))
                if s.startswith('--'):
                    pool.append((cmd, s + '=argument', 'word'))
        letters = [s[1] for g in t.flags for s in g if len(s) == 2]
        if len(letters) > 1:
            pool.append((cmd, '-' + ''.join(letters[:3]), 'word'))
        pool.append((cmd,))
    pool += [('unknown', '-n', '--long=x', 'word'), ('unknown',), ('seq2', '-s', 'x')]
    f = ctx.name(PARSER, 'parse')
    ctx.where = ctx.site(f)

    def once(line):
        return deref(ctx.I.call(f, [CmdStr(list(line))], {}))
    alone = {}
    for line in pool:
        def fresh():
            alone[line] = snapshot(ctx, once(line))
        ctx.explore(fresh, line[0])
    rnd = random.Random(1)
    orders = [list(pool), list(reversed(pool))]
    for _ in range(4 if ctx.thorough else 1):
        o = list(pool)
        rnd.shuffle(o)
        orders.append(o)
    for order in orders:
        def harness():
            before = None
            for line in order:
                for again in ('', ' again, after its first result was edited'):
                    ctx.facts = lambda: '%s%s, after lines such as %s' % (' '.join(line), again, before and ' '.join(before))
                    r = once(line)
                    got = snapshot(ctx, r)
                    ctx.require(same_shape(ctx, got, alone[line]), 'history:%s' % line[0],
                                'after other lines, %s%s is parsed to %s and not %s' % (' '.join(line), again, got, alone[line]))
                    for a in ('flag_option_list', 'operand_list'):
                        l = deref(ctx.attr(r, a))
                        if isinstance(l, PList):
                            l.touch()
                            l.items.append(ctx.flag('--edited'))
                before = line
        ctx.explore(harness, 'history')


def tasks(prop, tier):
    if prop == 'C04':
        return [('text', t_text), ('commands without a table', t_untabled)]
    nw, k = LEN[tier]
    out = [('text', t_text)] if prop == 'C01' else [('history', t_history)] if prop == 'C03' else []
    for cmd in sorted(TABLES):
        W = Words(cmd, k)
        out.append(('%s 0' % cmd, t_parse(prop, cmd, 0, None)))
        for n in range(1, nw + 1):
            firsts = [None] if n < 3 else W.classes
            for f in firsts:
                out.append(('%s %d %s' % (cmd, n, f or ''), t_parse(prop, cmd, n, f)))
        out.append(('%s long' % cmd, t_long(prop, cmd)))
    return out
