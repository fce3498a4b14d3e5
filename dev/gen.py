#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'pash_annotations/'
AG = P + 'annotation_generation/'
GEN = AG + 'annotation_generators/'
ADT = AG + 'datatypes/'
PAR = ADT + 'parallelizability/'
DT = P + 'datatypes/'
PARSE = [P + 'parser/parser.py', P + 'parser/util_parser.py', P + 'parser/command_flag_option_info/data/']
IOG = [AG + 'AnnotationGeneration.py', GEN, ADT + 'InputOutputInfo.py']
PARG = [AG + 'AnnotationGeneration.py', GEN, ADT + 'ParallelizabilityInfo.py', PAR]
T_LINES = 'The tests parse a few dozen fixed lines of cat, grep, sort and the empty-string case; this is a statement about all lines.'
T_ANN = 'The tests fix one invocation per case for about ten commands; the statement is about every combination of flags, options and operands of every command.'
T_PAR = 'The tests look at about thirty fixed invocations; the statement is about every combination of flags, options and operands, including sets, scripts and keys.'
T_OBJ = 'No test exercises this over all shapes of an invocation (number and kind of options, operands and implicit streams).'
PROPS = [
 ('C01', 'Parsing keeps every word of a command line, in order',
  'Every word of a command line appears exactly once in the parsed invocation, unchanged and in the original order, as the command name, a flag (possibly one letter of a cluster), an option, an option argument or an operand. Nothing is dropped, duplicated, invented or moved, and parsing never fails.',
  ['inputs'], 'every command with a flag table; every list of words (any strings) as the line',
  T_LINES, PARSE, [('parse', P + 'parser/parser.py'), ('are_all_individually_flags and the flag and option tables', P + 'parser/util_parser.py')], 'line'),
 ('C02', 'Every spelling of a flag or option gets its one primary name',
  'Whatever documented spelling of a flag or option a line uses - short, long, a letter in a cluster, or long with an equal sign and argument - the parsed invocation names it by the same primary spelling, which is the one the annotations are written against.',
  ['inputs', 'configurations'], 'every command with a flag table, every spelling in it, in every position of a line',
  T_LINES + ' Only a handful of the several hundred spellings in the tables occur in them.', PARSE,
  [('get_set_of_all_flags, get_dict_flag_to_primary_repr, get_dict_option_to_primary_repr', P + 'parser/util_parser.py'), ('flag tables', P + 'parser/command_flag_option_info/data/')], 'line'),
 ('C03', 'Words are read as flags, options, arguments and operands as documented',
  'A word that is a declared flag is read as a flag, one that is a declared option takes the next word as its argument unless it is the last word, a cluster of declared flag letters is read letter by letter, and a declared long option with an equal sign takes the rest as its argument. Reading of flags stops at the first other word, and this and all later words are operands even if they look like flags. What was parsed before makes no difference.',
  ['inputs', 'histories'], 'every command with a flag table; every list of words as the line; histories of parses and edits of their results', T_LINES, PARSE,
  [('parse', P + 'parser/parser.py'), ('flag tables, compared with the manual pages of the commands', P + 'parser/command_flag_option_info/data/')], 'line'),
 ('C04', 'Commands without a flag table parse to operands only',
  'For a command about whose flags nothing is recorded, every word after the command name becomes an operand, unchanged and in order, and parsing never fails.',
  ['inputs'], 'every command name without a table and every list of words', 'One test parses one unknown command.', PARSE[:2],
  [('parse, get_json_data', P + 'parser/util_parser.py')], 'line'),
 ('C05', 'Annotation lookups never fail; unknown commands have no annotation',
  'Looking up either annotation returns an annotation or nothing for every invocation of every command, and never raises. For a command without annotations the answer is nothing.',
  ['inputs'], 'every command name, registered or not; every list of flags, options (declared or not) and operands', T_ANN, IOG + PARG,
  [('lookup by command name', AG + 'AnnotationGeneration.py')], 'inv'),
 ('C06', 'Input/output annotations exist exactly where files can be told from words',
  'An invocation gets an input/output annotation exactly if its files can be told from its words. Missing mandatory operands, in-place edits, recursive searches of the working directory and file lists read from a file get none, so that clients treat these as side-effectful.',
  ['inputs'], 'every annotated command; every list of its flags and options; every number of operands', T_ANN, IOG,
  [('generate_info of every generator', GEN)], 'inv'),
 ('C07', 'Annotating is pure: nothing given or returned is shared or changed',
  'Looking up and applying annotations leaves the invocation as it was, and the same invocation gets the same annotations every time, even if a client has meanwhile modified earlier results or annotated other invocations, of this or of any other command.',
  ['inputs', 'histories'], 'every annotated command and invocation; histories of lookups, applications and client edits', 'Tests annotate every invocation once and never reuse a result.', IOG + PARG,
  [('annotation objects are built afresh for every lookup', GEN)], 'inv'),
 ('C08', 'Standard input is annotated exactly when the command reads it',
  'The annotated invocation has standard input as implicit streaming input exactly if the command, given these flags, options and operands, reads standard input without being told to by a file operand or option argument.',
  ['inputs'], 'every annotated command; every list of its flags and options; every number of operands', T_ANN, IOG,
  [('set_implicit_use_of_stdin in the generators', GEN)], 'inv'),
 ('C09', 'Standard output is annotated exactly when the command writes it',
  'The annotated invocation has standard output as implicit streaming output exactly if the command, given these flags, options and operands, writes its result to standard output.',
  ['inputs'], 'every annotated command; every list of its flags and options; every number of operands', T_ANN, IOG,
  [('set_implicit_use_of_stdout in the generators', GEN)], 'inv'),
 ('C10', 'Every operand is annotated with what the command does with it',
  'In an annotated invocation each operand is classified as the command uses it: streamed input, other input, configuration, streamed output, created or removed file, or plain string (pattern, script, set, number), whatever the number of operands and the other flags.',
  ['inputs'], 'every annotated command; every list of its flags and options; every number of operands', T_ANN, IOG,
  [('operand typers of the generators', ADT + 'InputOutputInfo.py')], 'inv'),
 ('C11', 'Invocations that change files other than their streams are flagged',
  'An annotated invocation reports other outputs exactly if some operand or option argument names a file the command creates, moves, changes or removes besides its output stream.',
  ['inputs'], 'every annotated command; every list of its flags and options; every number of operands', T_ANN, IOG,
  [('has_other_outputs', ADT + 'InputOutputInfo.py')], 'inv'),
 ('C12', 'Every option argument is annotated with its documented role',
  'In an annotated invocation the argument of each option is a plain string or a file with the access the command makes of it, as documented for that option.',
  ['inputs', 'configurations'], 'every annotated command, every option of it, at every position', T_ANN, IOG + [P + 'parser/command_flag_option_info/data/'],
  [('typers from the option tables', GEN + 'InputOutputInfoGenerator_Interface.py')], 'inv'),
 ('C13', 'Applying an annotation keeps the command line',
  'The annotated invocation has the same command name and the same flags, options, arguments and operands in the same order as the original one. Only their classification is added, and a file named - becomes standard input or standard output according to its access.',
  ['inputs'], 'every annotated command and invocation, including words equal to -', T_ANN, IOG + [DT + 'BasicDatatypesWithIO.py', P + 'util.py'],
  [('apply_input_output_info_to_command_invocation', ADT + 'InputOutputInfo.py'), ('compute_actual_el_for_input/output', P + 'util.py')], 'inv'),
 ('C14', 'Access kinds are told apart exactly',
  'Each access kind answers yes to exactly its own question, kinds are equal exactly if they are the same, every kind is an input or an output but not both, and the names used in the flag tables denote exactly their kind while any other name is refused.',
  ['inputs'], 'all access kinds, all strings as names', 'Tests use three of the seven kinds and no unknown name.', [DT + 'AccessKind.py'],
  [('AccessKind, get_access_from_string', DT + 'AccessKind.py')], 'kind'),
 ('C15', 'Order- or context-sensitive invocations are never offered for parallel runs',
  'An invocation whose output for its whole input is not put together from its outputs for parts - because it counts, numbers, shuffles, stops early, compares neighbouring lines or uses other line ends - is not offered a parallelizer that merely concatenates results of parts.',
  ['inputs'], 'every command with parallelizability annotations; every list of its flags and options with any arguments; every list of operands', T_PAR, PARG,
  [('generate_info of the parallelizability generators', GEN)], 'inv'),
 ('C16', 'Unwritten mappers and aggregators are never instantiated',
  'A mapper or aggregator that is only a placeholder yields nothing when a client asks for the command to run, and a parallelizer is reported as implemented exactly if both of its parts can be instantiated.',
  ['inputs'], 'every command with parallelizability annotations; every invocation; every parallelizer offered', T_PAR, PARG,
  [('is_implemented of mapper and aggregator specifications', PAR)], 'inv'),
 ('C17', 'Every invocation is offered exactly its documented ways to run in parallel',
  'For every invocation, the parallelizers offered (splitting, mapper, aggregator, auxiliary pipes, implemented or not) and the statement whether parts may be reordered are those documented for the command with these flags, options and operands.',
  ['inputs'], 'every command; every list of its flags and options with any arguments; every list of operands', T_PAR, PARG,
  [('generate_info of the parallelizability generators', GEN)], 'inv'),
 ('C18', 'Round-robin splitting only with aggregators that allow it',
  'A parallelizer that deals lines out in turn cannot be built, and is never offered, with an aggregator that needs consecutive parts. Unwrapped dealing out is offered only for commands whose parts may be reordered.',
  ['inputs', 'configurations'], 'all combinations of splitter, mapper and aggregator; every invocation of every command', T_PAR, PARG,
  [('Parallelizer constructor', PAR + 'Parallelizer.py')], 'inv'),
 ('C19', 'The list of inferred parallelizers is complete, repeatable and not shared',
  'The parallelizers offered are those declared plus, for commutative commands, one unwrapped round-robin variant with the same mapper and aggregator, and the same passed between its parts, for each one on consecutive parts. Asking again gives the same list, the variants share no changeable parts with the declared ones, and other annotations are not affected.',
  ['inputs', 'histories'], 'lists of parallelizers with any splitters, mappers and aggregators, built in any documented way; repeated queries', 'No test asks twice or looks at a second annotation.', [ADT + 'ParallelizabilityInfo.py', PAR + 'Parallelizer.py'],
  [('get_inferred_parallelizer_list', ADT + 'ParallelizabilityInfo.py')], 'par'),
 ('C20', 'Parallel sort merges in the order of the sort',
  'The aggregator of a parallel sort is a merge of exactly the partial outputs, with all flags and options that determine the order, with their arguments and in their order, and no others, that writes to the given output.',
  ['inputs'], 'every list of flags and options of sort that allow parallel runs; input from a file or a stream', 'Tests check one sort invocation.', [GEN, PAR + 'AggregatorSpec.py', PAR + 'TransformerFlagOptionList.py'],
  [('aggregator specification of sort', GEN + 'ParallelizabilityInfoGeneratorSort.py')], 'inv'),
 ('C21', 'tr is run on parts exactly as its treatment of newlines allows',
  'The outputs of tr for parts are concatenated only if it neither deletes nor squeezes newlines; deleting and squeezing them get the aggregators for joined lines. Complements, both sets and all usual ways to write a newline are taken into account.',
  ['inputs'], 'all combinations and orders of -c, -d, -s and -t; one or two sets of documented forms', 'Tests check eight fixed invocations of tr.', [GEN + 'ParallelizabilityInfoGeneratorTr.py', DT + 'BasicDatatypes.py'],
  [('generate_info of tr; contains_new_line', GEN + 'ParallelizabilityInfoGeneratorTr.py')], 'inv'),
 ('C22', 'Instantiating parallelizers changes nothing that was given',
  'Instantiating a mapper or an aggregator leaves the original invocation, the annotation and the lists the caller passed unchanged, and results of different instantiations share nothing that can be changed (lists, options, access information) with them or each other.',
  ['inputs', 'histories'], 'invocations of every shape; all kinds of mappers and aggregators; repeated instantiation', T_OBJ, [PAR, DT + 'CommandInvocationWithIOVars.py'],
  [('get_actual_mapper, get_actual_aggregator', PAR)], 'vars'),
 ('C23', 'A mapper is the original command with its streams redirected',
  'The instantiated mapper runs the original command (or its documented replacement) with the same flags, options and non-stream operands, reads exactly the given input and writes exactly the given output. Access information covers exactly what it uses.',
  ['inputs'], 'invocations of every shape (input and output given by operand, option argument or implicitly); all kinds of mappers', T_OBJ, [PAR + 'MapperSpec.py', PAR + 'Mapper.py', PAR + 'Parallelizer.py', DT + 'CommandInvocationWithIOVars.py'],
  [('get_mapper_from_cmd_inv', PAR + 'MapperSpec.py')], 'vars'),
 ('C24', 'An aggregator combines exactly the given outputs in order',
  'The instantiated aggregator reads exactly the given partial outputs in order and writes to the given output, concatenation being cat without flags. Aggregators for two inputs refuse any other number, and transformed ones use exactly the selected flags and options.',
  ['inputs'], 'invocations of every shape; all kinds of aggregators; any number of inputs', T_OBJ, [PAR + 'AggregatorSpec.py', PAR + 'Aggregator.py', PAR + 'Parallelizer.py'],
  [('get_aggregator and its variants', PAR + 'AggregatorSpec.py')], 'vars'),
 ('C25', 'Auxiliary pipes between mappers and aggregators are passed completely',
  'Commands that need auxiliary information get, in mapper and aggregator, all auxiliary pipes in the documented order and position. A wrong number of pipes is refused.',
  ['inputs'], 'the commands with auxiliary pipes; any number of pipes given', T_OBJ, [PAR],
  [('get_actual_mapper, get_actual_2_ary_aggregator_with_aux', PAR + 'Parallelizer.py')], 'vars'),
 ('C26', 'Queries for inputs and outputs of an invocation are complete and exact',
  'The inputs and outputs reported for an invocation with stream variables, of each kind and in total, are exactly those its operands, option arguments and implicit streams refer to with that access, each once and in order. Asking for its operands or options of one role gives exactly these.',
  ['inputs'], 'invocations of every shape; all access kinds', T_OBJ, [DT + 'CommandInvocationWithIOVars.py', DT + 'CommandInvocationPrefix.py'],
  [('generate_inputs, generate_outputs and the get_operands/options queries', DT + 'CommandInvocationWithIOVars.py')], 'vars'),
 ('C27', 'Removing streaming inputs or outputs removes exactly these',
  'Removing the streaming inputs (or outputs) of an invocation removes all operands, options and implicit streams that stand for them and nothing else, with everything else in the same order.',
  ['inputs'], 'invocations of every shape', T_OBJ, [DT + 'CommandInvocationWithIOVars.py'],
  [('remove_streaming_inputs, remove_streaming_outputs', DT + 'CommandInvocationWithIOVars.py')], 'vars'),
 ('C28', 'Flag transformers do exactly what their name says',
  'Transforming a list of flags and options - keeping none, all or selected ones, adding or removing some - gives exactly the documented list in the original order and leaves the given list unchanged.',
  ['inputs'], 'all kinds of transformers; all lists of flags and options', 'Transformers are tested only within one sort invocation.', [PAR + 'TransformerFlagOptionList.py'],
  [('transform', PAR + 'TransformerFlagOptionList.py')], 'list'),
 ('C29', 'Equality of invocations and their parts is structural',
  'Two flags, options, operands, files, descriptors, accesses, invocations, parallelizers or transformers are equal exactly if they are of the same kind and have equal content. Equality is symmetric and never fails for other values.',
  ['inputs'], 'all pairs of values of the public data types', 'Tests compare only equal values, so an equality that is always true would pass.', [DT, P + 'util_standard.py'],
  [('standard_eq', P + 'util_standard.py')], 'val'),
 ('C30', 'The command-line tool never overwrites an existing file',
  'The tool writes its result to the given path if and only if nothing exists there, and otherwise prints it. It opens no other file for writing, whatever exists at the path and even if a file appears there while it runs.',
  ['inputs', 'schedules', 'fault_sequences'], 'all command lines; the path absent, a file, an empty file, a directory, unreadable, or created by someone else meanwhile', 'There is no test of the command-line tool.', [P + 'annotation_cli.py'],
  [('handling of --save_to', P + 'annotation_cli.py')], 'cli'),
 ('C31', 'The command-line tool reports what the library says',
  'The report of the tool contains the command line, its parsed form, the input/output annotation applied to it (or that there is none, or that there are other outputs) and the parallelizability information, in this order, and goes to the file or to the terminal. It never fails on a parsable line.',
  ['inputs'], 'all command lines of all annotated and of unknown commands', 'There is no test of the command-line tool.', [P + 'annotation_cli.py'],
  [('report', P + 'annotation_cli.py')], 'cli'),
 ('C32', 'Queries on an annotated invocation return exactly the operands of that role',
  'Asking an annotated invocation for its operands (or options) of a role returns exactly those annotated with that role, in order.',
  ['inputs'], 'every annotated command and invocation; every invocation a client builds', 'Tests call some of the queries on a few annotated invocations, mostly for their number.', [DT + 'CommandInvocationWithIO.py'],
  [('get_operands_with_* and get_options_with_*', DT + 'CommandInvocationWithIO.py')], 'inv'),
 ('C33', 'Shell words are rendered element by element',
  'The text of a word given as shell syntax is the concatenation of its elements: characters and escaped characters as they are, command substitutions, quoted parts and variables in their shell form. Unknown kinds of elements are refused.',
  ['inputs'], 'all sequences of elements with nested quotes', 'No test renders a word.', [DT + 'BasicDatatypes.py'],
  [('format_arg_chars', DT + 'BasicDatatypes.py')], 'word'),
 ('C34', 'Any spelling of a command line gets the annotations of its meaning',
  'From the command line to both annotations: however flags and options are spelled, clustered or attached, the invocation is annotated with the inputs, outputs and parallelizers its documented meaning calls for.',
  ['inputs', 'configurations'], 'every annotated command; lines of words of every class, with operands and arguments that the annotations tell apart', T_ANN, PARSE + IOG + PARG,
  [('parser and generators agree on primary names', P)], 'line'),
 ('C35', 'Redirecting streams of an invocation is complete and consistent',
  'Replacing the streaming inputs, the streaming outputs or one stream of an invocation replaces every place it is used, keeps everything else and the access information consistent, and a wrong number of replacements is refused.',
  ['inputs'], 'invocations of every shape; any number of replacements', T_OBJ, [DT + 'CommandInvocationWithIOVars.py'],
  [('substitute_*, replace_var', DT + 'CommandInvocationWithIOVars.py')], 'vars'),
 ('C36', 'Annotations say what the helpers they are written with say',
  'A new annotation written with the helpers of the generator interfaces says exactly what their names say: all, all but the first or last, the first or the last operands get that role and the others keep theirs, conditions on flags and operands hold exactly if so, and each parallelizer helper adds exactly the one it names. Nothing is shared between annotations, and the general helpers on lists and defaults keep their arguments.',
  ['programs', 'inputs'], 'annotations of up to two (thorough: three) statements, each operand addressed once; any number of operands, any words', 'Tests only see the helpers through the annotations that exist, and some are used by none of them.', IOG + PARG + [P + 'util.py', P + 'util_flag_option.py', GEN + 'Generator_Interface.py'],
  [('helpers of the generator interfaces', GEN), ('typing of operands', P + 'annotation_generation/datatypes/InputOutputInfo.py')], 'author'),
 ('C37', 'Printed forms show every part',
  'The printed form of an invocation, its parts, accesses and parallelizability information shows the command, every flag, option, argument, operand and stream with its access, those of a list in their order. Printing never fails.',
  ['inputs'], 'all values of the public data types', 'No test looks at printed forms, which the reports of the tool consist of.', [DT, P + 'util_standard.py'],
  [('standard_repr', P + 'util_standard.py')], 'val'),
 ('C38', 'The table generator lists every spelling of an option line once, as written',
  'From option lines of a manual page in the shapes it documents (comma-separated short or long flags, options with their argument after a blank, an equal sign or in brackets, perhaps with a description), the table generator prints a JSON table in the form the parser reads that lists every spelling exactly once and in order: with its argument under options if it is written with one, and otherwise under flags, together with the others of a line of flags only. Other words are listed nowhere and repeated spellings not again.',
  ['inputs'], 'all lines of up to three phrases of every documented shape, pages of up to 60 lines', 'No test runs the generator.', [P + 'parser/command_flag_option_info/args-to-json.py'],
  [('find_matches, parse_args', P + 'parser/command_flag_option_info/args-to-json.py')], 'gen'),
 ('C39', 'Everything the code of the library refers to exists in what is installed',
  'Every module and name that is imported, every name that is used, every attribute taken from self, from a class or from a module, and every method a generator or another instantiated class has to define exists in the packages that setup.py installs or in the standard library, also on paths that no test takes. Calls of functions, methods and classes of the library give them exactly the arguments they take. The flag tables are installed and have the form that the parser reads.',
  ['inputs', 'configurations'], 'all modules of the installed packages and the command-line tool; every scope, import, attribute and call in them whose target the text determines', 'A name is looked up only when it is reached, and the lookup of annotations answers an exception with no annotation, so a slip on a path that no test takes stays unseen.', ['setup.py', 'pash_annotations/'],
  [('packages, package_data', 'setup.py'), ('get_json_data', P + 'parser/util_parser.py'), ('loading of the generators', P + 'annotation_generation/AnnotationGeneration.py')], 'pack'),
 ('C40', 'Answers depend on the question alone, and asking has no other effect',
  'Loading the library, parsing a line, looking up and applying its annotations and querying the result print nothing, write nothing and start nothing, read no file but those that come with the library, found wherever the current directory is, and consult neither environment, clock nor chance. The answer is the same in every run of Python, whatever the order of its sets.',
  ['inputs', 'configurations', 'schedules'], 'all lines of up to two words and clusters of every command; plans, aggregators, transformers, stream variables and printing as in C18-C22, C28 and C37; every module; both orders of every set', 'Tests run in one directory and one environment, look at few lines and do not look at the output.', [P + 'parser/', P + 'annotation_generation/', P + 'datatypes/'],
  [('get_json_data', P + 'parser/util_parser.py'), ('parse', P + 'parser/parser.py'), ('both lookups', P + 'annotation_generation/AnnotationGeneration.py')], 'pure'),
]
NOTE = {
 'pure': 'All commands and spellings, words unbounded for lines of one word; two words from samples of plain words and all declared flags and options. Messages at or below the level info are taken for silent.',
 'pack': 'Complete for references the text determines: names, imports, members of self, classes and modules, calls with positional and keyword arguments. Attributes of other values, computed names and names bound on some paths only are no obligations.',
 'author': 'Two statements about operands (thorough: with all settings of the streams) for 0-4 and 60 operands (thorough: also 5, 6, 200); two parallelizer statements (thorough: three).',
 'line': 'All commands and all spellings; words are unbounded strings; lines up to 3 words and clusters up to 3 letters (thorough: 4 and 4). shlex is modelled as splitting a quoted word list.',
 'inv': 'Flags and options range over all declared ones and arguments and operands are unbounded strings; lists up to 2 flags/options with 3 operands and 1 with 6 (thorough: longer).',
 'vars': 'Up to 3 flags/options and operands in every arrangement of stream variables (see DESIGN.md); names and strings unbounded.',
  'gen': 'Spellings from a pool of about 150 (all letters; names with and without dashes); one line of 3 phrases, 2-3 lines, pages of 60 lines. Descriptions do not begin with capitals only; spellings that differ only in dashes do not occur.',
 'kind': 'Complete: all kinds, all strings.', 'par': 'Lists of up to 2 parallelizers (thorough: 3) in all combinations.',
 'list': 'Lists up to the stated length.', 'val': 'Pairs of values with unbounded strings; lists up to the stated length.',
 'cli': 'File model of the one path; command lines up to 2 words (thorough: 3).', 'word': 'Sequences up to 3 elements, quotes nested once (thorough: twice).',
}
NA = []
TECH = {'C40': 'effect analysis and determinism by abstract interpretation with trace partitioning', 'C39': 'scope, import, member and signature resolution over syntax trees and symbol tables, with class hierarchy analysis'}
EXTRA_PROPS = [
 ('N01', 'Running the parallel plan gives the output of the original command',
  'For every invocation and every offered parallelizer, splitting the input, running the mapper on each part and aggregating the results produces byte for byte the output and exit status of the original command.',
  ['inputs', 'programs'], 'all inputs, all invocations, all numbers of parts', 'No test runs a command at all.', PARG, [('parallelizability annotations', GEN)],
  'It quantifies over the run-time behaviour of external programs (coreutils, sed, awk and user scripts) that are not part of this source; C15, C17, C18, C20 and C21 decide the part the source determines, against a reference written from the manual pages.'),
 ('N02', 'Words of a command line are split as a POSIX shell splits them',
  'The words the parser sees are those a POSIX shell would pass to the command, with quotes, escapes and comments handled alike.',
  ['inputs'], 'all strings as command lines', 'Tests use plain words and simple quotes.', PARSE, [('shlex.split in parse', P + 'parser/parser.py')],
  'The splitting is done by the standard library (shlex), whose source is outside this repository; a rule could only restate that shlex is called. C01-C04 take its result as given.'),
 ('N03', 'The flag tables match the installed versions of the commands',
  'Every flag and option of the commands as installed on the machine where lines are run is declared in the tables, with the same arity.',
  ['configurations'], 'all versions and platforms of the commands', 'No test compares the tables with a manual page.', PARSE, [('flag tables', P + 'parser/command_flag_option_info/data/')],
  'Versions of external programs are run-time facts outside the source; C02, C03 and C12 compare the tables with a frozen reference written from the GNU manual pages.'),
 ('N04', 'The table generator finds every flag and option of any manual page',
  'From the text of a manual page args-to-json.py derives each flag and option once, with its spellings and whether it takes an argument.',
  ['inputs'], 'all manual pages', 'No test runs the generator.', [P + 'parser/command_flag_option_info/args-to-json.py'], [('find_matches, parse_args', P + 'parser/command_flag_option_info/args-to-json.py')],
  'Manual pages have no format, so there is nothing to decide against beyond the line shapes the script documents (C38): the documentation calls it a heuristic for a first draft that is corrected by hand. The committed tables are decided by C02, C03 and C12.'),
]


def main():
    rows, checks = [], []
    for pid, title, st, over, text, why, files, mech, note in PROPS:
        rows.append({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                     'why_tests_cant': why, 'anchors': {'files': sorted(set(files)), 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
        checks.append({'property': pid, 'quick_cmd': 'python3 run.py %s --tier quick' % pid,
                       'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
                       'technique': TECH.get(pid, 'abstract interpretation of the source with trace partitioning (string, finite-set and list domains)'),
                       'level': 'other', 'level_note': NOTE[note]})
    for pid, title, st, over, text, why, files, mech, reason in EXTRA_PROPS:
        rows.append({'id': pid, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text},
                     'why_tests_cant': why, 'anchors': {'files': sorted(set(files)), 'mechanism': [{'name': a, 'where': b} for a, b in mech]}})
        NA.append({'property': pid, 'reason': reason})
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for r in sorted(rows, key=lambda r: r['id']):
            fp.write(json.dumps(r) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3 -c "import ast, json, multiprocessing"', 'checks': checks, 'not_applicable': NA}, fp, indent=1)
        fp.write('\n')


main()
