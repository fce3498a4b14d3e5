"""Reference: how every annotated command may be run in parallel, per invocation.

`Q` answers questions about the invocation: which flags/options occur, what the
scripts, sort keys and character sets look like.  A plan is (splitter, mapper,
aggregator, information the mapper needs, number of auxiliary pipes)."""
from .iospec import COMMANDS

CC, RR, RRU = 'CONSEC_CHUNKS', 'ROUND_ROBIN_PLAIN', 'ROUND_ROBIN_UNWRAP_FLAG'
CONC, MERGE, SEQ, FUNC, TWO, NARY = ('CONCATENATE', 'ADJ_LINES_MERGE', 'ADJ_LINES_SEQ', 'ADJ_LINES_FUNC', 'CUSTOM_2_ARY',
                                     'CUSTOM_N_ARY')
SAME = 'same command'
# aggregators that can be given the output of parts dealt out in turn
RR_OK = {CONC, MERGE, SEQ, FUNC}

NEWLINE = [r'\n', '\n', r'\012', '[:space:]', '[:cntrl:]']

SORT_KEEP = ['-b', '-d', '-f', '-g', '-i', '-M', '-h', '-n', '-r', '--sort', '-V', '-k', '-t']
SORT_NEVER = ['-c', '-C', '-u', '-z', '-R', '-s', '-m', '--files0-from', '--random-source']
GREP_NEVER = ['-q', '-A', '-B', '-C', '-m', '-z']
GREP_OPEN = ['-L', '-l', '-c', '-n', '-b']          # needs an aggregator or mapper nobody has written
UNIQ_NEVER = ['-d', '-D', '--all-repeated', '-u', '--group', '-z']
SED_NEVER = ['-f', '-i', '-z']

#: commands with parallelizability annotations
PAR_CMDS = ['alt_bigrams_aux', 'bigrams_aux', 'col', 'custom_sort', 'custom_tr', 'cut', 'grep', 'sed', 'set_diff', 'sort',
       'test_one', 'test_two', 'tr', 'uniq', 'xargs']
COMMUTATIVE = ['sort', 'custom_sort']
NO_PAR = [c for c in COMMANDS if c not in PAR_CMDS]


class Plan:
    def __init__(self, splitter, mapper, agg, done=True, pipes=0):
        self.splitter, self.mapper, self.agg, self.done, self.pipes = splitter, mapper, agg, done, pipes

    def key(self):
        return (self.splitter, self.mapper, self.agg, bool(self.done), self.pipes)

    def __repr__(self):
        return '%s/%s/%s%s%s' % (self.splitter, self.mapper, self.agg, '' if self.done else ' (not implemented)',
                                 ' with %d pipes' % self.pipes if self.pipes else '')


def both(agg, done=True):
    return [Plan(CC, SAME, agg, done), Plan(RR, SAME, agg, done)]


def tr(q):
    d, s, c, n = q.has('-d'), q.has('-s'), q.has('-c'), q.n
    if not d and not s:
        return both(CONC)
    if n == 0:
        return None
    inverted = c and n == 1
    last_nl = q.contains(n - 1, NEWLINE)
    if inverted:
        last = not last_nl
    else:
        last = last_nl or q.contains(n - 1, [r'\0'])
    if d and last:
        return both(MERGE, False)
    if s and last:
        return both(FUNC, False)
    if s and n > 1 and q.contains(0, NEWLINE) != c:
        return []
    return both(CONC)


def sed(q):
    if q.has(*SED_NEVER):
        return []
    scripts = q.args_of('-e')
    if not scripts:
        if q.n == 0:
            return None
        scripts = [q.operand(0)]
    for s in scripts:
        if not (q.startswith(s, 's') or not (q.word_contains(s, 'd') or q.word_contains(s, 'q'))):
            return []
    return both(CONC)


def grep(q):
    return [] if q.has(*GREP_NEVER) or q.has(*GREP_OPEN) else both(CONC)


def uniq(q):
    if q.has(*UNIQ_NEVER):
        return []
    return both(FUNC, False) if q.has('-c') else both(SEQ, False)


def sort(q):
    if q.has(*SORT_NEVER):
        return []
    for a in q.args_of('--sort'):
        if q.startswith(a, 'r'):
            return []
    for a in q.args_of('-k'):
        if q.word_contains(a, 'R'):
            return []
    return [Plan(CC, SAME, TWO)]


def stateless(q):
    return both(CONC)


PLANS = {
    'col': stateless, 'cut': stateless, 'custom_tr': stateless, 'xargs': stateless, 'tr': tr, 'sed': sed, 'grep': grep,
    'uniq': uniq, 'sort': sort, 'custom_sort': sort,
    'set_diff': lambda q: [Plan(CC, SAME, CONC)],
    'test_one': lambda q: [Plan(CC, SAME, NARY, False)],
    'test_two': lambda q: [Plan(CC, SAME, NARY, False)],
    'alt_bigrams_aux': lambda q: [Plan(CC, 'alt_bigrams_aux', TWO)],
    'bigrams_aux': lambda q: [Plan(CC, 'bigram_aux_map', TWO, True, 2)],
}


def expected(cmd, q):
    """None or the list of declared plans"""
    f = PLANS.get(cmd)
    return f(q) if f else None


def inferred(cmd, plans):
    """what a client is offered: chunks of a commutative command may also be dealt out in turn"""
    if plans is None:
        return None
    out = list(plans)
    if cmd in COMMUTATIVE:
        out += [Plan(RRU, p.mapper, p.agg, p.done, p.pipes) for p in plans if p.splitter == CC]
    return out


def unsafe(cmd, q):
    """A reason why parts of the input must not be processed separately and concatenated, or None.

    Returns (reason, harmless) -- harmless(plan): the plan does not merely concatenate."""
    if cmd == 'grep':
        if q.has(*GREP_NEVER):
            return 'it needs the lines around a match, counts matches or stops early', lambda p: False
        if q.has('-n', '-b'):
            return 'it numbers lines or bytes from the start of the input', lambda p: not p.done or p.mapper != SAME
        if q.has('-c', '-L', '-l'):
            return 'it prints one result for the whole input', lambda p: not p.done or p.agg != CONC
    elif cmd in ('sort', 'custom_sort'):
        if q.has(*SORT_NEVER):
            return 'its output order or exit status depends on the whole input', lambda p: False
        for a in q.args_of('--sort'):
            if q.startswith(a, 'r'):
                return 'it shuffles its input', lambda p: False
        for a in q.args_of('-k'):
            if q.word_contains(a, 'R'):
                return 'it shuffles its input', lambda p: False
        return 'it orders its whole input', lambda p: p.agg == TWO
    elif cmd == 'uniq':
        if q.has(*UNIQ_NEVER):
            return 'the output for equal lines depends on all of them', lambda p: False
        return 'equal lines may lie in different parts', lambda p: p.agg != CONC
    elif cmd == 'sed':
        if q.has(*SED_NEVER):
            return 'its script is in a file, it edits in place or its lines do not end in newlines', lambda p: False
        scripts = q.args_of('-e') or ([q.operand(0)] if q.n else [])
        for s in scripts:
            if not q.startswith(s, 's') and (q.word_contains(s, 'd') or q.word_contains(s, 'q')):
                return 'its script may delete lines by number or stop early', lambda p: False
    elif cmd == 'tr':
        plans = tr(q)
        if plans is not None and any(p.agg != CONC for p in plans):
            return 'it deletes or squeezes newlines', lambda p: p.agg != CONC
        if plans == []:
            return 'it squeezes characters it translates newlines to', lambda p: p.agg != CONC
    elif cmd in NO_PAR:
        return 'its output is not made of the outputs for parts of its input', lambda p: False
    return None
