"""Reference: what every annotated command reads and writes, per invocation,
after its manual page.  `has(names)` answers which flags/options occur."""

S_IN, S_OUT, O_IN, O_OUT, CFG, ARG = \
    'STREAM_INPUT', 'STREAM_OUTPUT', 'OTHER_INPUT', 'OTHER_OUTPUT', 'CONFIG_INPUT', 'ARG'


class Spec:
    def __init__(self, stdin, stdout, roles):
        self.stdin, self.stdout, self.roles = stdin, stdout, roles


def files_or_stdin(has, n):
    return Spec(n == 0, True, [S_IN] * n)


def filter_no_operands(has, n):
    # reads standard input and writes standard output whatever the operands
    return Spec(True, True, None)


def only_strings(has, n):
    return Spec(True, True, [ARG] * n)


def script_first(script_options):
    def f(has, n):
        if has(*script_options):
            return Spec(n == 0, True, [S_IN] * n)
        if n == 0:
            return None
        return Spec(n == 1, True, [ARG] + [S_IN] * (n - 1))
    return f


def grep(has, n):
    given = has('-e', '-f')
    if not given and n == 0:
        return None
    roles = [S_IN] * n if given else [ARG] + [S_IN] * (n - 1)
    stdin = S_IN not in roles
    if stdin and has('-r', '-R'):
        return None            # searches the working directory
    return Spec(stdin, not has('-q'), roles)


def sed(has, n):
    if has('-i'):
        return None            # edits in place
    return script_first(('-e', '-f'))(has, n)


def sort(has, n):
    return Spec(n == 0 and not has('--files0-from'), not has('-o'), [S_IN] * n)


def wc(has, n):
    return None if has('--files0-from') else files_or_stdin(has, n)


def comm(has, n):
    return Spec(False, True, [S_IN] * 2) if n == 2 else None


def diff(has, n):
    return Spec(False, True, [S_IN] * n)


def uniq(has, n):
    if n > 2:
        return None
    if n == 2:
        return Spec(False, False, [S_IN, S_OUT])
    return files_or_stdin(has, n)


def mv(has, n, count):
    t = count('-t')
    if t > 1:
        return None
    if t == 1:
        return Spec(False, False, [O_IN] * n)
    return None if n == 0 else Spec(False, False, [O_IN] * (n - 1) + [O_OUT])


def creates_or_removes(has, n):
    return Spec(False, False, [O_OUT] * n)


def tee(has, n):
    return Spec(True, True, [S_OUT] * n)


def seq(has, n):
    return Spec(False, True, [ARG] * n)


def set_diff(has, n):
    return Spec(True, True, [CFG]) if n == 1 else None


def reduce_(has, n):
    return Spec(False, True, [S_IN] * n)


IO = {
    'cat': files_or_stdin, 'head': files_or_stdin, 'tail': files_or_stdin, 'cut': files_or_stdin,
    'awk': script_first(('-f', '-e', '-E')), 'grep': grep, 'sed': sed, 'sort': sort, 'custom_sort': sort,
    'wc': wc, 'comm': comm, 'diff': diff, 'uniq': uniq, 'mv': mv, 'rm': creates_or_removes,
    'mkfifo': creates_or_removes, 'tee': tee, 'tr': only_strings, 'custom_tr': only_strings, 'xargs': only_strings,
    'seq': seq, 'set_diff': set_diff, 'alt_bigram_aux_reduce': reduce_, 'alt_bigrams_aux': filter_no_operands,
    'bigrams_aux': filter_no_operands, 'col': filter_no_operands, 'test_one': filter_no_operands,
    'test_two': filter_no_operands,
}
COMMANDS = sorted(IO)


def expected(cmd, has, count, n):
    f = IO[cmd]
    return f(has, n, count) if f is mv else f(has, n)
