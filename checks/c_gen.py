"""The generator of flag tables from manual pages (C38)."""
import json as host_json
import os
from .base import *

DIR = PKG + '/parser/command_flag_option_info/'
TOOL = DIR + 'args-to-json.py'
RULES = {'C38': 'the table lists every spelling of a manual page once, in order, with its argument, in the form the parser reads'}

STDIN = '''
class Stdin:
    encoding = 'utf-8'
    def __init__(self, lines):
        self.lines = list(lines)
    def __iter__(self):
        return self
    def __next__(self):
        if not self.lines:
            raise StopIteration
        return self.lines.pop(0)
    def __enter__(self):
        return self
    def __exit__(self, *args):
        return None
    def readline(self, size=-1):
        return self.lines.pop(0) if self.lines else ''
    def readlines(self, hint=-1):
        lines, self.lines = self.lines, []
        return lines
    def read(self, size=-1):
        lines, self.lines = self.lines, []
        return ''.join(lines)
    def isatty(self):
        return False
    def close(self):
        self.lines = []
'''

SHORT = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'
LONG = ['number', 'show-all', 'x', 'help', 'null-data', 'z-a-z', 'in-place', 'a', 'very-long-name-of-a-flag', 'zero-terminated']
WORD = ['name', 'type', 'print', 'maxdepth', 'newer']
ARG = ['ARG', 'N', 'FILE', 'SUFFIX', 'Z', 'KEYDEF']
# kinds of phrases: (text of spelling and argument, has an argument)
KINDS = [
    ('short flag', 's', '%s', False), ('long flag', 'l', '%s', False), ('word flag', 'w', '%s', False),
    ('short option', 's', '%s %s', True), ('long option =', 'l', '%s=%s', True), ('long option [=]', 'l', '%s[=%s]', True),
    ('long option', 'l', '%s %s', True), ('short option =', 's', '%s=%s', True), ('word option [=]', 'w', '%s[=%s]', True),
    # none of these is a flag or an option
    ('capitals', None, '-NUM', False), ('long capitals', None, '--ARG', False), ('words', None, 'or more', False), ('dash', None, '-', False),
]
TAIL = ['', '   print the result', '   same as a=b', '\tUse with care', '   with [brackets]']


def spelling(kind, i):
    """the i-th spelling of a kind; spellings that differ only in dashes do not occur"""
    if kind == 's':
        return '-' + SHORT[i % len(SHORT)]
    if kind == 'l':
        return '--' + ['long', 'the-', 'no-', 'x-y-z-'][i % 4] + LETTERS[i // 4 % 26] + LETTERS[i // 104 % 26]
    return '-' + 'word' + LETTERS[i % 26] + LETTERS[i // 26 % 26]


LETTERS = 'bcdefghijklmnopqrstuvwxyza'


class Page:
    """the lines of a manual page and what the table has to say"""

    def __init__(self):
        self.lines, self.flags, self.options, self.groups, self.seen = [], [], [], [], set()

    def add(self, phrases, tail=''):
        texts, new = [], []
        for (name, kind, fmt, has), i in phrases:
            if kind is None:
                texts.append(fmt)
                continue
            sp, arg = spelling(kind, i), ARG[i % len(ARG)]
            texts.append(fmt % ((sp, arg) if has else sp))
            if sp in self.seen:
                continue
            self.seen.add(sp)
            new.append((sp, arg if has else None))
        self.lines.append(', '.join(texts) + tail + '\n')
        self.flags += [s for s, a in new if a is None]
        self.options += [[s, a] for s, a in new if a is not None]
        if new and all(a is None for s, a in new):
            self.groups.append([s for s, a in new])


def generate(ctx, page):
    I = ctx.I
    del I.effects[:]
    I.import_module('sys').env.vars['stdin'] = I.call(ctx.client(STDIN)['Stdin'], [PList(list(page.lines))], {})
    try:
        I.run_script(os.path.join(REPO, TOOL), '__main__')
    except PyExc as e:
        if e.obj.cls.name != 'SystemExit' or deref(e.obj.get('args')) not in ((), (0,), (None,)):
            return None, '%s %s' % (e.obj.cls.name, show(e.obj.get('args')))
    text = ''
    for e in I.effects:
        if e[0] == 'print' or e[0] == 'write' and (getattr(e[1], 'name', None) in ('stdout', '<stdout>') or e[1] in ('<stdout>', 'stdout')):
            t = deref(e[1] if e[0] == 'print' else e[3])
            for p in (t.parts if isinstance(t, SCat) else t if isinstance(t, (tuple, list)) else [t]):
                p = concretise(deref(p))
                if not isinstance(p, str):
                    raise Incomplete('printed %s' % show(p))
                text += p
            text += '\n' if e[0] == 'print' else ''
    return text, None


def check(ctx, page):
    ctx.where = '%s:1 <module>' % TOOL
    ctx.facts = lambda: 'lines %s' % ' | '.join(repr(l) for l in page.lines[:6])
    text, exc = generate(ctx, page)
    ctx.require(exc is None, 'generator-raises', 'raises %s' % exc)
    if exc is not None:
        return
    try:
        d = host_json.loads(text)
    except ValueError:
        d = None
    ctx.require(isinstance(d, dict) and set(d) == {'flag', 'option'} and all(isinstance(v, list) for v in d.values()), 'table-form',
                'the output is no table of flags and options: %s' % text[:200])
    if not isinstance(d, dict) or set(d) != {'flag', 'option'}:
        return
    ok = all(isinstance(g, list) and g and all(isinstance(s, str) for s in g) for g in d['flag'] + d['option'])
    ctx.require(ok, 'entry-form', 'the parser cannot read the entries of %s' % d)
    if not ok:
        return
    got = [s for g in d['flag'] for s in g]
    ctx.require(got == page.flags, 'flags', 'the flags are %s and not %s' % (got, page.flags))
    ctx.require(d['option'] == page.options, 'options', 'the options are %s and not %s' % (d['option'], page.options))
    for g in page.groups:
        ctx.require(g in d['flag'], 'one-entry', 'the spellings %s of one line are not one entry of %s' % (g, d['flag']))


def t_line(ctx):
    """one line of up to three phrases"""
    def harness():
        n = choose(3, 'phrases') + 1
        kinds = [KINDS[choose(len(KINDS), 'kind of phrase %d' % i)] for i in range(n)]
        tail = TAIL[choose(len(TAIL), 'description')] if n < 3 or ctx.thorough else TAIL[sum(map(KINDS.index, kinds)) % len(TAIL)]
        if tail and kinds[-1][1] is None:
            raise Infeasible()
        base = choose(52, 'letter') if n == 1 or ctx.thorough and n == 2 else sum(map(KINDS.index, kinds))
        page = Page()
        page.add([(k, base + 7 * i) for i, k in enumerate(kinds)], tail)
        check(ctx, page)
    ctx.explore(harness)


def t_lines(ctx):
    """two or three lines, with repeated spellings"""
    def harness():
        page = Page()
        n = choose(3 if ctx.thorough else 2, 'lines') + 2
        shift = choose(3, 'spellings of later lines')
        for l in range(n):
            kinds = [KINDS[choose(len(KINDS), 'kind')]]
            if l < 1 and (n == 2 or ctx.thorough) and choose(2, 'two phrases'):
                kinds.append(KINDS[choose(len(KINDS), 'kind')])
            if n > 2 and kinds[-1] in KINDS[5:9]:
                raise Infeasible()
            page.add([(k, [0, 3, 8][shift] * l + 3 * i + 11) for i, k in enumerate(kinds)], TAIL[(l + shift) % 2] if kinds[-1][1] else '')
        check(ctx, page)
    ctx.explore(harness)


def t_page(ctx):
    """whole pages"""
    def harness():
        page = Page()
        size = [0, 1, 24, 60][choose(4, 'lines')]
        first = choose(len(KINDS), 'first kind')
        step = [1, 2, 5][choose(3, 'step')]
        for l in range(size):
            kinds = [KINDS[(first + l * step + 3 * i) % len(KINDS)] for i in range(1 + l % 3)]
            page.add([(k, l * (3 if l % 5 else 2) + i) for i, k in enumerate(kinds)], TAIL[l % len(TAIL)] if kinds[-1][1] else '')
        check(ctx, page)
    ctx.explore(harness)


def tasks(prop, tier):
    return [('line', t_line), ('lines', t_lines), ('page', t_page)]
