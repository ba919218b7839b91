"""The checks: which explorers decide which property, and what they cover."""
from runner import Pass

NOT_APPLICABLE = {}
SPECS = {}
SAN = "Memory errors and undefined behaviour are observed by AddressSanitizer and UBSan builds of the real code."

SPECS["C01"] = dict(
    level="model_checking",
    technique="exhaustive operation-sequence exploration of the real allocator/deque against a vector model",
    note="Every sequence of operations in the bounds was run on the real code and compared after each step; larger sequences are not covered. " + SAN,
    passes=[Pass("arena", "asan")],
    rule="a case is one (container geometry, arena block size) driven through all lengths, or one sequence of append/alloc/new operations of the full depth on two interleaved deques in one arena; after each operation all elements, addresses, alignments and allocated bytes are compared with the model. Non-trivial: each case allocates and grows",
    bounds={"quick": "all sequences of 5 of 9 operations x 5 arena block sizes; 65 geometries x 4 block sizes x all lengths up to 200 (1000, 4000, 70000 for large blocks)",
            "thorough": "all sequences of 7 of 9 operations x 4 arena block sizes; lengths up to 700"})
SPECS["C02"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of texts, range sets and insertion orders, and small projects against a counting reference",
    note="All texts, range sets with all insertion orders, and statement combinations within the bounds; contents are over 11 pieces. " + SAN,
    passes=[Pass("positions", "asan")],
    rule="a case is one text (all its sub-ranges located, printed and surrounded), one set of disjoint ranges in one insertion order (all queries), or one project of up to 3 files (every string in every AST before and after elaboration located). Non-trivial: text has a newline; more than one range; every project",
    bounds={"quick": "texts of up to 5 pieces of 11; all disjoint range sets over 7 characters in all insertion orders; projects of up to 3 files from 10 statements, files of up to 4",
            "thorough": "texts of up to 6 pieces, range sets over 8 characters, files of up to 5 statements"})
SPECS["C03"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of input texts against an independent reference lexer, with all lookahead patterns",
    note="All texts within the bounds; the reference lexer is hand written from the lexical grammar. " + SAN,
    passes=[Pass("scan", "asan")],
    rule="a case is one text, scanned with up to 4 patterns of Peek()/Next(), all tokens compared with the reference lexer. Non-trivial: at least two tokens before the end of file",
    bounds={"quick": "all bytes in 36 contexts; all sequences of up to 3 of 52 lexical pieces; up to 6 string, comment, not-in and number pieces, up to 7 pieces in triple quotes",
            "thorough": "sequences of up to 4 of 52 pieces; up to 8 string, not-in and number pieces"})
SPECS["C04"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of token sequences and of all single edits of a realistic file, run through all stages of the real code",
    note="All token sequences and edits within the bounds, each run through parsing, printing, elaboration, queries, dependency graph, canonicalize, dwyu, header and output stages. " + SAN,
    passes=[Pass("robust", "asan")],
    rule="a case is a batch of texts sharing a token prefix, or all edits at one position of a realistic file; each text goes through every stage, and error flag, error messages, location and kept statements are compared with the text. Non-trivial: each text with at least one token",
    bounds={"quick": "all token sequences of up to 4 of the grammar's tokens at top level and up to 3 within 5 contexts; all truncations, token deletions, duplications, substitutions, insertions, swaps and byte replacements of a realistic file",
            "thorough": "token sequences one longer, and pairs of edits"})
SPECS["C05"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of programs of a generator grammar, parsed by the real parser and compared with the tree they were generated from",
    note="All programs in the bounds were parsed in each layout and style; trees are compared structurally. Operator chains without parentheses are checked as what the implementation documents: they group to the right.",
    passes=[Pass("parsetree", "opt")],
    rule="a case is one expression (in 4 layouts/styles), literal, operator chain, program or element count; the dump of the parsed tree must be that of the generating tree, with no error. Non-trivial: every expression with at least one operator or container",
    bounds={"quick": "expressions: all chains of up to 3 of 75 contexts over 7 leaves and all pairs in two-operand contexts; literals of up to 5 of 9 pieces in 12 quote forms; programs of up to 3 of 18 statements with 4 line ends; containers of 0..300 elements",
            "thorough": "expression depth 4; literals of up to 6 pieces; programs of up to 4 statements; containers of 0..1000 elements"})
SPECS["C06"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of programs, string contents, regular expressions and projects, printed by the real code and parsed back",
    note="All programs, contents and regular expressions in the bounds went through parse, print, parse; nesting below '/' (not a Starlark operator) is excluded as known finding.",
    passes=[Pass("print", "opt")],
    rule="a case is an expression (printed in two positions), a string literal, one literal concatenated with all others and elaborated, a word with a regular expression, or a project with pattern and regular expression; printed text must parse to the same dump, print again identically, and equal the coloured text without escapes; selection and header lines are compared with a reference. Non-trivial: all",
    bounds={"quick": "expressions: all chains of up to 3 of 75 contexts over 7 leaves and all pairs in two-operand contexts; literals of up to 5 of 9 pieces in 8 quote forms; all pairs of literals of up to 2 pieces concatenated; 28 regular expressions x all words of up to 5 of 4 letters; 32 target sets x 10 patterns x 29 regular expressions",
            "thorough": "expression depth 4; literals of up to 6 pieces, pairs of up to 3; words of up to 6 letters"})
SPECS["C07"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of programs, elaborated by the real code and compared with a reference evaluator",
    note="All expressions, in all bounds and surrounding assignments, were elaborated in a project with two other files and compared by value with the reference evaluator.",
    passes=[Pass("elab", "opt")],
    rule="a case is one expression, used directly, assigned to a variable used later, concatenated and within a comprehension, after each of 4 to 18 sequences of earlier assignments; the elaborated tree must equal the reference evaluation, and neighbour files must be unchanged. Non-trivial: all",
    bounds={"quick": "44 contexts (operators, containers, select, comprehension, member access) nested up to depth 2 over 19 leaves; + of and select over all pairs of 195 operands; 4..18 prologues",
            "thorough": "depth 3; all prologues at depth 2; pairs of 855 operands"})
SPECS["C08"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of glob patterns against all paths of a universe, and of small directory trees expanded by the real code",
    note="All patterns, include/exclude combinations and trees in the bounds compared with a segment-wise reference matcher. Patterns with '**' as part of a segment (not allowed in Bazel) are not covered.",
    passes=[Pass("globs", "opt")],
    rule="a case is a set of include and exclude patterns matched against a whole universe of paths (file predicate equals reference, each directory above a match is visited), or a real directory tree with all glob() calls of a list in all argument forms. Non-trivial: each",
    bounds={"quick": "all patterns of up to 3 of 13 segments x 584 paths; up to 5 of 5 segments x 1364 paths; all pairs of 64 patterns as include/exclude and include/include; all quadruples of 10; each byte as literal in 10 positions; all subsets of 8 files x packages x 173 globs x 18 to 21 call forms",
            "thorough": "paths of 4 segments (4680), patterns of up to 6 segments, quadruples of 14 patterns, all trees in all packages"})
SPECS["C09"] = dict(
    level="model_checking",
    technique="exhaustive exploration of directory/link topologies x listing orders x predicates x faults, with directory listing under control of the explorer",
    note="Real directories and links in a scratch tree; order, entry types, device/inode numbers and failures of the listing functions are controlled at link time. All combinations in the bounds.",
    passes=[Pass("walk", "opt")],
    rule="a case is one topology; within it each configuration is run with every permutation of the entries of every directory; result, number of listings per directory and accepted paths are compared with graph reachability. Non-trivial: each",
    bounds={"quick": "3 directories in 2 nestings, up to 3 links in any directory to any of 7 kinds of target; all listing orders; all subsets of rejected names (3 links: up to one), links rejected, unknown entry types, one unreadable directory, equal inode numbers on different devices; all names of up to 4 of 4 characters",
            "thorough": "up to 4 links; all predicates and failures with 3 links"})
SPECS["C10"] = dict(
    level="fault_enumeration",
    technique="exhaustive enumeration of the operating system's answers to open, fstat and read",
    note="All sequences of answers in the bounds given to the real code by link-time replacement of the system calls. " + SAN,
    passes=[Pass("readfile", "asan")],
    rule="a case is one file size and reported size with the first two answers of read() fixed, run with all further answers; or one combination of failing open/fstat; or a BUILD file read with faults. Result must be the complete content or nothing, nothing after an error, and all descriptors closed. Non-trivial: each with faults or split reads",
    bounds={"quick": "15 file sizes 0..1 MiB, 5 deviations of the reported size, all sequences of 5 of 7 answers (3 for large files)",
            "thorough": "all sequences of 7 answers (4 for large files)"})
SPECS["C11"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of label strings in all package contexts against a reference grammar, with print/parse round trips",
    note="All strings in the bounds. Strings that are neither well-formed nor have to be rejected are only checked for round trips.",
    passes=[Pass("labels", "opt")],
    rule="a case is all strings with a common prefix of three tokens; each is parsed in 7 package contexts, compared with the reference, printed absolute and relative to 7 packages and parsed back. Non-trivial: every string parsed",
    bounds={"quick": "all strings of up to 8 of 5 characters, up to 6 of 10 and up to 7 of 6 tokens; each byte in 11 positions; order over 60 labels, all triples",
            "thorough": "strings of up to 10 characters, 7 tokens"})
SPECS["C12"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of pattern and visibility strings against all targets of a universe, compared with a reference matcher",
    note="All strings in the bounds that have one of the documented forms are compared on each target and package of the universe.",
    passes=[Pass("patterns", "opt")],
    rule="a case is all patterns with a common prefix of two tokens, each matched with all targets and packages of the universe. Non-trivial: each",
    bounds={"quick": "all sequences of up to 5 of 12 tokens x 297 targets in 3 projects; visibility entries of up to 5 of 9 tokens in 5 packages; name patterns of up to 5 of 6 characters x names; each printable character in 9 name patterns",
            "thorough": "sequences of up to 6 tokens; name patterns over further regular expression characters"})
SPECS["C13"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of directory sets x declaration sequences in a real scratch output base, compared with a reference resolution",
    note="All combinations in the bounds, including the commands workspace and list-packages. Declarations that contradict each other (one name for two modules) are not covered.",
    passes=[Pass("workspace", "opt")],
    rule="a case is one set of directories, files and links in the output base, with all sequences of declarations; or a triple of references with all patterns given to the workspace command. Non-trivial: each",
    bounds={"quick": "7 names, each absent, directory, file or link (up to 2 not directories); all sequences of up to 2 of 9 declarations, longer ones selected; 10^3 combinations of references x 7 patterns",
            "thorough": "also dangling links, up to 3 not directories; declarations split over the workspace files"})
SPECS["C14"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of attribute/value sequences and call sequences parsed and queried by the real code, compared with expected results known by construction",
    note="All combinations in the bounds; the commands list-targets and list-packages run on all small trees with all patterns of a list.",
    passes=[Pass("queries", "opt")],
    rule="a case is all attribute sequences or call sequences with a common beginning, or a tree of BUILD files with all patterns; each reported call with all its attributes is compared. Non-trivial: each",
    bounds={"quick": "all ordered pairs of 21 attributes x 14 kinds of values in 2 rules after 3 kinds of earlier calls; all ordered triples of attributes with fitting values; all sequences of up to 3 of 20 calls x 12 queries; calls in all nestings of up to 2 of 29 kinds of expressions; all lists of up to 5 of 10 kinds of elements; 4 packages with 5 contents each x 14 patterns",
            "thorough": "attribute sequences of 4, call sequences of 4, nestings of 3, lists of 6"})
SPECS["C15"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of dependency graphs x package placements x package states x patterns x depths; the real code loads and follows them from disk, compared with breadth-first search",
    note="All graphs in the bounds; files opened are counted at the system call.",
    passes=[Pass("depgraph", "opt")],
    rule="a case is a set of graphs with common placement and package states, each run with all patterns and depths; both maps of the graph and the set of loaded BUILD files (each read once) must equal the reference. Non-trivial: each",
    bounds={"quick": "all 512 graphs (with cycles, self-dependencies) of 3 targets in all placements in 4 packages (one external) x up to 7 patterns x depths 0,1,2,unlimited; all 65536 graphs of 4 targets (both with elements that are no dependencies in between); 7 states of each of 3 packages (BUILD, BUILD.bazel, both, missing, unreadable, syntax error, directory) and 6 kinds of targets (plain, concatenation, alias, absolute labels, undefined, deps and actual) x all 512 graphs; chains of 4..17 packages, external from each place on, in 6 shapes with all depths; all sequences of up to 3 dependencies (also repeated) of two targets",
            "thorough": "5 packages, 4 placements of 4 targets with all depths and more patterns; chains of up to 40 packages"})
SPECS["C16"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of graphs of targets and aliases; the commands run on them in a scratch tree and are compared with the inverse computed from the generating graph",
    note="All graphs, kinds of targets and patterns in the bounds, output read back from CSV.",
    passes=[Pass("inverse", "opt")],
    rule="a case is all 512 graphs over three targets with given kinds and packages, or 4096 graphs over four targets two of which are aliases; depends-on, has-dependents and aliased-by are run with each pattern. Non-trivial: each",
    bounds={"quick": "3 targets x 4 kinds each x 3 placements x all 512 graphs x 6 patterns x 5 commands; 4 targets (2 aliases) x 4096 graphs x 9 placements; chains of 3..12 packages, external from each place on; all sequences of up to 3 dependencies (also repeated) of two targets",
            "thorough": "7 placements, 81 placements of 4 targets with all patterns"})
SPECS["C17"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of libraries (attributes, headers, aliases, proto and generated files) and of header indexes with all lookups, compared with a reference",
    note="All combinations in the bounds. proto_library and cc_proto_library are in one package (as documented in the code); directories in strip_include_prefix/includes are accepted relative to the package or to the project.",
    passes=[Pass("headers", "opt")],
    rule="a case is a library with given package, header and strip_include_prefix under all other attributes; or an alias graph, a set of protos, of genrules; or all indexes with two common keys, with all lookups. Plain and suffix index, and the printed table for 3 patterns, are compared. Non-trivial: each",
    bounds={"quick": "6 packages x 7 headers x 12 strip_include_prefix x 6 include_prefix x 11 includes x 3 attributes; 216 alias graphs x 8 placements x 2; 32 proto sets x 64 dependency sets x 2 orders; 4096 genrule sets; up to 4 times ./ in front of headers and directories; all indexes of up to 3 of 84 keys x 84 lookups x 3 minimums",
            "thorough": "155 keys"})
_DWYU = {"quick": "all 512 header assignments to 3 libraries x 216 combinations of flags (plain, invisible, deprecated, testonly, alwayslink, keep) x dependency subsets, x include subsets for plain; 4096 assignments to 4 libraries x 16; 36 alias graphs x placements x flags x 64; 1024 include subsets x second source x dependency subsets; 21 expressions as srcs/hdrs; 15 forms of dependencies (up to 3) x comments; 12 visibility entries (pairs, default) x 6 packages; 15 target names x 10 library names x 7 packages x 3 kinds x flags; targets not asked about are always present",
         "thorough": "all kinds of targets with all flags; flags of two of four libraries; more triples of dependency forms"}
SPECS["C18"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of small projects; dwyu runs on each and its removals are compared with a reference model of needs",
    note="All projects in the bounds. Sources are those in srcs and hdrs; which of several redundant providers goes is not prescribed. Dependencies in expressions that elaboration does not evaluate are not seen.",
    passes=[Pass("dwyu", "opt", env={"VF_PROP": "C18"})],
    rule="a case is one assignment of headers to libraries (or alias graph, set of sources, forms of dependencies, visibility lists) with all flags, dependency and include subsets. Non-trivial: each",
    bounds=_DWYU)
SPECS["C19"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of small projects and of sequences of source pieces; dwyu's additions and extracted includes are compared with reference models",
    note="All projects and texts in the bounds; only quoted includes count (by design), one comment between 'include' and the path is not understood. Additions to dependency lists that elaboration can not evaluate are not covered.",
    passes=[Pass("dwyu", "opt", env={"VF_PROP": "C19"})],
    rule="a case as in C18, or all texts of source pieces with two common first pieces; includes and their positions are compared. Non-trivial: each",
    bounds={"quick": _DWYU["quick"] + "; texts of up to 4 of 23 source pieces; each ASCII character in include paths",
            "thorough": _DWYU["thorough"] + "; 5 pieces"})
SPECS["C20"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of small projects; edits are checked for form, applied to the project, and dwyu runs again until the fixpoint; the command also on real trees",
    note="All projects in the bounds; application of buildozer commands is simulated (buildozer is not installed).",
    passes=[Pass("dwyu", "opt", env={"VF_PROP": "C20"})],
    rule="a case as in C18, or a real tree with given places of a source and dependencies, on which the command runs twice for each pattern. Non-trivial: each",
    bounds={"quick": _DWYU["quick"] + "; real trees: 19 places of the source x 16 dependency sets x 4 include sets x 5 patterns, two rounds",
            "thorough": _DWYU["thorough"]})
SPECS["C21"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of label strings in all package contexts and of small projects; canonicalize runs on each, edits are compared with a reference, applied and canonicalize runs again",
    note="All labels, projects and patterns in the bounds; strings that are neither well-formed nor malformed labels (see C11) are only checked for idempotence.",
    passes=[Pass("canon", "opt")],
    rule="a case is all labels with a common beginning in one package, all two-call projects with a given first call and package, or a real tree on which the command runs with each pattern. Non-trivial: each",
    bounds={"quick": "all labels of up to 5 of 9 tokens and each printable character in 16 forms, in 7 packages; 8 calls x 16 dependency lists, all pairs, in 4 packages x 10 patterns; the command on 256 trees x 8 patterns",
            "thorough": "labels of up to 6 tokens"})
SPECS["C22"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of tables and cell contents printed in all formats and read back by strict readers; the listing commands on small trees in all formats",
    note="All tables, contents and trees in the bounds. Strings in S-expressions are read with the escapes of C; contents are UTF-8; alignment is checked for printable ASCII. The undocumented format graphviz prints the native table.",
    passes=[Pass("tables", "opt")],
    rule="a case is all cell contents with two common first pieces in all places of tables with 1 to 3 columns; or all tables with a given first row; or a tree with given target names, on which all listing commands run in all formats. Non-trivial: each",
    bounds={"quick": "contents of up to 3 of 32 pieces (also NUL); each ASCII character with 9 followers; tables of up to 3 rows and 3 columns over 4..7 contents, last column plain or one of 6 lists (three rows of wide tables: every 7th third row); 81 pairs of names x 8 graphs x 13 command lines x 2 depths x 5 formats",
            "thorough": "contents of up to 4 pieces, all third rows"})
SPECS["C23"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of command words, option combinations and their places; bant's main() runs in a forked process for each and is compared with a reference of the documented command line",
    note="All words, options and combinations in the bounds on one project. What a command prints is decided by the other properties; here the same command run with a flags structure filled by the reference is the oracle, and a table of effects. Order of -o and -C is significant.",
    passes=[Pass("cmdline", "opt", lfl="-lutil")],
    rule="a case is all command words with a given beginning, all argument lists, output files, directories and terminals for a command, one option character, all formats with a first letter, or all combinations of options with a given first one. Non-trivial: each",
    bounds={"quick": "all words of up to 3 letters; all prefixes of the 14 commands with all single edits; 12 patterns (pairs) x 14 commands; each printable option character in 5 places; all words of up to 2 letters and all prefixes with edits as formats; 24 options and all ordered pairs x 14 commands x 2 patterns in 4 places",
            "thorough": "ordered triples of options"})
SPECS["C24"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of small projects written from a model; the commands run on each and their output, read by a strict reader, is compared with a reference computed from the model",
    note="All projects in the bounds. Include directories are compared as sets (project and bazel-bin first). Which lines of a .bazelrc apply (comments, configurations) is not decided by bant; directories created for strip_include_prefix are not emitted (documented).",
    passes=[Pass("compdb", "opt")],
    rule="a case is all sets of rules with two common members, all .bazelrc files with two common lines, or one string in all kinds of names. Both commands run with 10 patterns. Non-trivial: each",
    bounds={"quick": "sets of up to 3 and all but 2 of 23 rules x 10 patterns; sequences of 3 of 11 lines with and without final newline; 145 strings (all ASCII characters) in names of files, include directories, targets, project directory",
            "thorough": "sets of up to 4 rules, 4 lines, all pairs of strings"})
SPECS["C25"] = dict(
    level="model_checking",
    technique="stateless model checking of the real code: a controlled scheduler replaces pthreads and enumerates all interleavings up to a preemption bound, with happens-before race detection and detection of use after free on instrumented memory accesses; plus all truncations and changes of the cache file",
    note="All 32 threads exist; up to the given number of them takes part in all interleavings (they are alike), the others start when nothing else can run. Scheduling points are operations on mutexes, condition variables, atomics, threads and file accesses of workers, which is complete for executions without data race. Failing creation of threads is not covered (bant is compiled without exceptions).",
    passes=[Pass("prewarm", "mc")],
    rule="a case is a cache file content, a kind of program (ends at once, remembers, waits for the workers, in different order) and bounds, of which all schedules run, each in a forked process; or a command with 16 positions of the cache file. Non-trivial: each",
    bounds={"quick": "0..3 lines; 1 worker 3 preemptions and 1 spurious wakeup, 2 workers 2..3 preemptions, 2 workers 1 preemption and 1 spurious wakeup, 3 workers 1 preemption; 6 commands with 1 preemption, with all truncations and every third of 6 changes of each character under two extreme schedules, 13 kinds of unusable places; up to 5000 remembered paths",
            "thorough": "one more preemption, 4 workers, all 8 kinds of lines, all changes of characters"})
_TIDY = ["@scripts/run-clang-tidy-cached.cc"]
SPECS["C26"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of project states and of sequences of actions; the script's main() runs after each, its report is compared with what an empty cache would give, its invocations with a model of the cache",
    note="All states and histories in the bounds. clang-tidy and bazel are stand-ins whose output is a function of everything the result depends on; most runs call them within the process (the shell's quoting is interpreted), some with actual shell and processes. Headers are only considered if directly included with quotes, by basename; results without findings stay if the build environment changes (both by design).",
    passes=[Pass("tidy", "opt", srcs=["tidy.cc"] + _TIDY)],
    rule="a case is a tour through all states in one order with one cache, all sequences of actions with two common first ones, all forms of includes of a header, one character in all names, or messages with a common first kind. Non-trivial: each",
    bounds={"quick": "5184 states (4 x 3 x 3 x 3 x 3 contents of 5 files, 2 configurations, arguments, versions, checkouts) in 4 orders (every 5th in 4 more); sequences of 3 of 16 and 4 of 7 actions; all changes between (and back) 64 states of existence and content of 2 headers with one name and a file; 12 headers x 9 x 6 x 4 forms of includes; 122 characters in 8 places; 1000 combinations of messages",
            "thorough": "all states in 18 orders, sequences of 4 of 16 and 5 of 7"})
SPECS["C27"] = dict(
    level="model_checking",
    technique="enumeration of all crash points and failing operations on the real code (file operations are interposed), of faults of the invoked tool, of points at which two processes interleave; stateless model checking of the worker threads under a controlled scheduler with race detection",
    note="All points and faults in the bounds; crash of a process, not of the machine (data written is not lost). Writes are cut in half as torn writes. Two processes interleave with two switches. Processes with the same pid (other containers) using one cache are not covered.",
    passes=[Pass("tidy_crash", "opt", srcs=["tidy_crash.cc"] + _TIDY), Pass("tidy_mc", "mc", srcs=["tidy_mc.cc"] + _TIDY)],
    rule="a case is a point of being killed (followed by all points in the next run), a failing operation, a failing invocation with all failures of the next one, a point at which another run happens (up to all its points), or all schedules of a number of files, workers, preemptions. Non-trivial: each",
    bounds={"quick": "4 situations with 36..47 operations; pairs of kill points (every second); one or all further operations fail; 5 invocations x 10 failures, pairs; other run at each point, stopped at every third of its points; 1..4 files, 1..3 workers, 1 preemption (2 with up to 2 files and workers), killed at all points of all schedules with up to 1 preemption",
            "thorough": "all pairs of points, 4 workers, one more preemption"})
SPECS["C28"] = dict(
    level="model_checking",
    technique="exhaustive enumeration of dependency graphs x placements x states of packages x kinds of targets x patterns x depths; the commands run on trees on disk and their rows are compared with a reference",
    note="All combinations in the bounds. Locations are compared by file (lines and columns are C02). Aliases do not count as dependencies to load for lib-headers beyond what the depth says.",
    passes=[Pass("listing", "opt")],
    rule="a case is a set of graphs with a common placement, or states of two packages, each run with all patterns, depths and four commands. Non-trivial: each",
    bounds={"quick": "all 64 graphs without self-dependencies of 3 targets in 40 placements in 4 packages (one external) x up to 8 patterns x depths none,0,1,2,3,unlimited x 4 commands; 49 pairs of states of packages (BUILD, BUILD.bazel, both, missing, unreadable, syntax error, directory) x 27 kinds of targets x 8 graphs x 3 placements",
            "thorough": "all 512 graphs, all placements in 5 packages"})
SPECS["C29"] = dict(
    level="model_checking",
    technique="fault enumeration on the real code: all file system calls are interposed; every one (and every pair within a distance, and every suffix) fails; outcomes are compared with the run without failure",
    note="All points in the bounds on one project that exercises all kinds of access, within the process under AddressSanitizer. Failing memory allocation is not covered (bant is compiled without exceptions), failing output is C23. That less is listed after a failure is accepted.",
    passes=[Pass("osenv", "asan", env={"VF_PROP": "C29"})],
    rule="a case is one call of one command line that fails (with 4 errors), alone, with everything that follows, and with each of the calls after it. Non-trivial: each",
    bounds={"quick": "22 command lines with 40..200 calls; pairs up to 200 calls apart",
            "thorough": "all pairs"})
SPECS["C30"] = dict(
    level="model_checking",
    technique="enumeration of the environment's choices on the real code: directories are listed in all orders by an interposed file system, calls that change anything are intercepted",
    note="All orders in the bounds on one project made of what could depend on them. Hash tables of bant are only used for lookup, their seeds are not enumerated. Pre-warming (C25) is off.",
    passes=[Pass("osenv", "asan", env={"VF_PROP": "C30"})],
    rule="a case is a command line with all orders of one directory, or with two directories the other way round, types of entries told or not. Non-trivial: each",
    bounds={"quick": "22 command lines; up to 120 orders of each directory, larger ones reversed and each entry at each place; all pairs of directories; 7 states of the home directory without ~/.cache/bant",
            "thorough": "up to 5040 orders"})

# Of what there can be any number there are also many: all numbers up to 24
# (thorough: 150) and those next to powers of two and ten up to a limit.
_SIZES = {
    "C02": ("length, lines, ranges", 10000, 70000),
    "C03": ("length, number and nesting of tokens", 10000, 70000),
    "C05": ("elements, nesting, lengths", 300, 1100),
    "C06": ("elements, nesting, lengths", 300, 1100),
    "C07": ("operands, elements, variables", 300, 600),
    "C08": ("lengths, segments, patterns", 1100, 5000),
    "C09": ("entries, depth, links", 300, 1030),
    "C11": ("lengths and segments", 10000, 70000),
    "C12": ("lengths and segments", 2100, 10000),
    "C13": ("declarations, directories, lengths", 300, 1030),
    "C14": ("attributes, targets, elements, nesting", 2050, 10001),
    "C15": ("targets, packages, fan-out", 260, 1030),
    "C16": ("targets, packages, fan-out", 260, 1030),
    "C17": ("headers, libraries, aliases, proto and generated files, lengths", 300, 2100),
    "C18": ("libraries, headers, sources, dependencies, aliases, lengths", 130, 520),
    "C19": ("libraries, headers, sources, dependencies, aliases, lengths", 130, 520),
    "C20": ("libraries, headers, sources, dependencies, aliases, lengths", 130, 520),
    "C21": ("lengths, dependencies, targets", 600, 2100),
    "C22": ("cell lengths, rows, last columns", 1030, 5001),
    "C24": ("sources, libraries, options, lengths", 130, 600),
    "C26": ("files, includes, lengths", 70, 600),
    "C28": ("targets, packages, fan-out", 260, 1030),
}
for _id, (_what, _quick, _thorough) in _SIZES.items():
    SPECS[_id]["bounds"] = {
        "quick": SPECS[_id]["bounds"]["quick"] + f"; {_what}: 0..24 and next to powers of 2 and 10 up to {_quick}",
        "thorough": SPECS[_id]["bounds"]["thorough"] + f"; {_what}: 0..150 and next to powers of 2 and 10 up to {_thorough}"}
