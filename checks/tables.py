"""Reference: the flags and options of every command with a declared table, as
documented by the manual pages of the commands, written as data of the oracle.

flags:   spellings that take no argument as a separate word (the first one is
         the primary representation every annotation is written against)
options: spellings ': ' role of the argument -- ARG for a plain string, or the
         access kind of the file it names.  A spelling that is both a flag and
         an option takes an optional argument, which only the form
         --spelling=argument supplies.
"""


class Table:
    def __init__(self, flags, options):
        self.flags = [g.split() for g in flags]
        self.options = []
        for o in options:
            names, role = o.split(':')
            self.options.append((names.split(), role.strip()))
        self.flag_primary = {s: g[0] for g in self.flags for s in g}
        self.option_primary = {s: g[0] for g, _ in self.options for s in g}
        self.role = {g[0]: r for g, r in self.options}


TABLES = {
    'awk': Table(
        flags=[
            '-b --characters-as-bytes', '-c --traditional', '-C --copyright', '-d --dump-variables',
            '-D --debug', '-g --gen-pot', '-h --help', '-L --lint', '-M --bignum', '-n --non-decimal-data',
            '-N --use-lc-numeric', '-o --pretty-print', '-O --optimize', '-p --profile', '-P --posix',
            '-r --re-interval', '-S --sandbox', '-t --lint-old', '-V --version',
        ],
        options=[
            '-f --file : CONFIG_INPUT', '-F --field-separator : ARG', '-v --assign : ARG',
            '-e --source : ARG', '-E --exec : CONFIG_INPUT', '-i --include : CONFIG_INPUT',
            '-l --load : ARG',
        ]),
    'cat': Table(
        flags=[
            '-A --show-all', '-b --number-nonblank', '-e -vE', '-E --show-ends', '-n --number',
            '-s --squeeze-blank', '-t -vT', '-T --show-tabs', '-u', '-v --show-nonprinting', '--help',
            '--version',
        ],
        options=[]),
    'col': Table(
        flags=[
            '-b --no-backspaces', '-f --fine', '-h --tabs', '-p --pass', '-x --spaces', '-V --version',
            '-H --help',
        ],
        options=[
            '-l --lines : ARG',
        ]),
    'comm': Table(
        flags=[
            '-1', '-2', '-3', '--check-order', '--nocheck-order', '--total', '-z --zero-terminated',
            '--help', '--version',
        ],
        options=[
            '--output-delimiter : ARG',
        ]),
    'custom_sort': Table(
        flags=[
            '-b --ignore-leading-blanks', '-d --dictionary-order', '-f --ignore-case',
            '-g --general-numeric-sort', '-i --ignore-nonprinting', '-M --month-sort',
            '-h --human-numeric-sort', '-n --numeric-sort', '-R --random-sort', '-r --reverse',
            '-V --version-sort', '-c --check', '-C', '--debug', '-m --merge', '-s --stable', '-u --unique',
            '-z --zero-terminated', '--help', '--version',
        ],
        options=[
            '--random-source : CONFIG_INPUT', '--sort : ARG', '--batch-size : ARG',
            '--compress-program : ARG', '--files0-from : CONTAINER_FOR_INPUT', '-k --key : ARG',
            '-o --output : STREAM_OUTPUT', '-S --buffer-size : ARG', '-t --field-separator : ARG',
            '-T --temporary-directory : OTHER_OUTPUT', '--parallel : ARG', '-c --check : ARG',
        ]),
    'custom_tr': Table(
        flags=[],
        options=[]),
    'cut': Table(
        flags=[
            '-n', '--complement', '-s --only-delimited', '-z --zero-terminated', '--help', '--version', '-M',
        ],
        options=[
            '-b --bytes : ARG', '-c --characters : ARG', '-d --delimiter : ARG', '-f --fields : ARG',
            '--output-delimiter : ARG',
        ]),
    'diff': Table(
        flags=[
            '--normal', '-q --brief', '-s --report-identical-files', '-e --ed', '-n --rcs',
            '-y --side-by-side', '--left-column', '--suppress-common-lines', '-p --show-c-function',
            '-t --expand-tabs', '-T --initial-tab', '--suppress-blank-empty', '-l --paginate',
            '-r --recursive', '--no-dereference', '-N --new-file', '--unidirectional-new-file',
            '--ignore-file-name-case', '--no-ignore-file-name-case', '-i --ignore-case',
            '-E --ignore-tab-expansion', '-Z --ignore-trailing-space', '-b --ignore-space-change',
            '-w --ignore-all-space', '-B --ignore-blank-lines', '-a --text', '--strip-trailing-cr',
            '-d --minimal', '--speed-large-files', '--help', '-v --version', '-c --context', '-u --unified',
            '--color',
        ],
        options=[
            '-C --context : ARG', '-U --unified : ARG', '-W --width : ARG', '-F --show-function-line : ARG',
            '--label : ARG', '--tabsize : ARG', '-x --exclude : ARG',
            '--exclude-from -X : EXCLUDES_FROM_INPUT', '-S --starting-file : OTHER_INPUT',
            '--from-file : STREAM_INPUT', '--to-file : STREAM_INPUT', '-I --ignore-matching-lines : ARG',
            '-D --ifdef : ARG', '--line-format : ARG', '--horizon-lines : ARG', '--color : ARG',
            '--palette : ARG',
        ]),
    'export': Table(
        flags=[
            '-f', '-n', '-p',
        ],
        options=[]),
    'grep': Table(
        flags=[
            '--help', '-V --version', '-E --extended-regexp', '-F --fixed-strings', '-G --basic-regexp',
            '-P --perl-regexp', '-i -y --ignore-case', '--no-ignore-case', '-v --invert-match',
            '-w --word-regexp', '-x --line-regexp', '-c --count', '-L --files-without-match',
            '-l --files-with-matches', '-o --only-matching', '-q --quiet --silent', '-s --no-messages',
            '-b --byte-offset', '-H --with-filename', '-h --no-filename', '-n --line-number',
            '-T --initial-tab', '-u --unix-byte-offsets', '-Z --null', '--no-group-separator', '-a --text',
            '-I', '-r --recursive', '-R --dereference-recursive', '--line-buffered', '-U --binary',
            '-z --null-data', '--color --colour',
        ],
        options=[
            '-e --regexp : ARG', '-f --file : CONFIG_INPUT', '--color --colour : ARG',
            '-m --max-count : ARG', '--label : ARG', '-A --after-context : ARG', '-B --before-context : ARG',
            '-C --context : ARG', '--group-separator : ARG', '--binary-files : ARG', '-D --devices : ARG',
            '-d --directories : ARG', '--exclude : ARG', '--exclude-from : EXCLUDES_FROM_INPUT',
            '--exclude-dir : ARG', '--include : ARG',
        ]),
    'head': Table(
        flags=[
            '-q --quiet --silent', '-v --verbose', '-z --zero-terminated', '--help', '--version',
        ],
        options=[
            '-n --lines : ARG', '-c --bytes : ARG',
        ]),
    'mkfifo': Table(
        flags=[
            '-Z', '--help', '--version', '--context',
        ],
        options=[
            '-m --mode : ARG', '--context : ARG',
        ]),
    'mv': Table(
        flags=[
            '-b --backup', '-f --force', '-i --interactive', '-n --no-clobber', '--strip-trailing-slashes',
            '-T --no-target-directory', '-u --update', '-v --verbose', '-Z --context', '--help', '--version',
        ],
        options=[
            '--backup : ARG', '-S --suffix : ARG', '-t --target-directory : OTHER_OUTPUT',
        ]),
    'rm': Table(
        flags=[
            '-f --force', '-i', '-I', '--one-file-system', '--no-preserve-root', '-r -R --recursive',
            '-d --dir', '-v --verbose', '--help', '--version', '--interactive', '--preserve-root',
        ],
        options=[
            '--interactive : ARG', '--preserve-root : ARG',
        ]),
    'sed': Table(
        flags=[
            '-n --quiet --silent', '--debug', '--follow-symlinks', '--posix', '-E -r --regexp-extended',
            '-s --separate', '--sandbox', '-u --unbuffered', '-z --null-data', '--help', '--version',
            '-i --in-place',
        ],
        options=[
            '-i --in-place : ARG', '-l --line-length : ARG', '-e --expression : ARG',
            '-f --file : CONFIG_INPUT',
        ]),
    'seq': Table(
        flags=[
            '-w --equal-width', '--help', '--version',
        ],
        options=[
            '-f --format : ARG', '-s --separator : ARG',
        ]),
    'sort': Table(
        flags=[
            '-b --ignore-leading-blanks', '-d --dictionary-order', '-f --ignore-case',
            '-g --general-numeric-sort', '-i --ignore-nonprinting', '-M --month-sort',
            '-h --human-numeric-sort', '-n --numeric-sort', '-R --random-sort', '-r --reverse',
            '-V --version-sort', '-c --check', '-C', '--debug', '-m --merge', '-s --stable', '-u --unique',
            '-z --zero-terminated', '--help', '--version',
        ],
        options=[
            '--random-source : CONFIG_INPUT', '--sort : ARG', '--batch-size : ARG',
            '--compress-program : ARG', '--files0-from : CONTAINER_FOR_INPUT', '-k --key : ARG',
            '-o --output : STREAM_OUTPUT', '-S --buffer-size : ARG', '-t --field-separator : ARG',
            '-T --temporary-directory : OTHER_OUTPUT', '--parallel : ARG', '-c --check : ARG',
        ]),
    'tail': Table(
        flags=[
            '-f --follow', '-q --quiet --silent', '--retry', '-v --verbose', '-z --zero-terminated',
            '--help', '--version',
        ],
        options=[
            '--max-unchanged-stats : ARG', '--pid : ARG', '-s --sleep-interval : ARG', '-c --bytes : ARG',
            '-n --lines : ARG', '-f --follow : ARG',
        ]),
    'tee': Table(
        flags=[
            '-a --append', '-i --ignore-interrupts', '-p', '--help', '--version', '--output-error',
        ],
        options=[
            '--output-error : ARG',
        ]),
    'tr': Table(
        flags=[
            '-c -C --complement', '-d --delete', '-s --squeeze-repeats', '-t', '--help', '--version',
        ],
        options=[]),
    'uniq': Table(
        flags=[
            '-c --count', '-d --repeated', '-D', '-i --ignore-case', '-u --unique', '-z --zero-terminated',
            '--help', '--version', '--all-repeated', '--group',
        ],
        options=[
            '--all-repeated : ARG', '-f --skip-fields : ARG', '--group : ARG', '-s --skip-chars : ARG',
            '-w --check-chars : ARG',
        ]),
    'wc': Table(
        flags=[
            '-c --bytes', '-m --chars', '-l --lines', '-L --max-line-length', '-w --words', '--help',
            '--version',
        ],
        options=[
            '--files0-from : ARG',
        ]),
    'xargs': Table(
        flags=[
            '--null', '-o --open-tty', '-p --interactive', '-r --no-run-if-empty', '--show-limits',
            '-t --verbose', '-x --exit', '--help', '--version', '-e --eof', '-i --replace', '-l --max-lines',
        ],
        options=[
            '-a --arg-file : OTHER_INPUT', '--delimiter -d : ARG', '-E --eof : ARG', '-I --replace : ARG',
            '-L --max-lines : ARG', '-n --max-args : ARG', '-P --max-procs : ARG', '-s --max-chars : ARG',
            '--process-slot-var : ARG',
        ]),
}
