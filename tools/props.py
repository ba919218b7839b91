#!/usr/bin/env python3
"""Source of properties.jsonl: ./tools/props.py writes it."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over.split(), "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files.split(),
                    "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                    "mechanism": [{"name": a, "where": b} for a, b in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "Arena memory is aligned, private and stable; its deque keeps all elements in order",
     "Every allocation from an Arena is aligned for any fundamental type, lies in memory valid until the arena is destroyed, and overlaps no other allocation, for every block size and every sequence of request sizes; no allocation changes the bytes of an earlier one. "
     "The arena backed deque keeps exactly the elements appended, in order, for every element type and block geometry, with indexing, iteration and size() agreeing after every operation, and a reference to an element stays valid and unmoved while more are appended.",
     "inputs histories", "all sequences of allocation sizes (0, 1, odd, block-1, block, block+1, large) and of container operations up to a depth, for several block sizes and chunk growth parameters",
     "The tests append a few values with one block size; alignment, exact-fit and block-crossing patterns depend on the sequence of sizes, and overlap is silent unless the right sequence runs under a checker.",
     "bant/util/arena.h bant/util/arena-container.h",
     [("Arena::Alloc bump allocation and new blocks", "bant/util/arena.h"), ("ArenaDeque chunk growth", "bant/util/arena-container.h"), ("ArenaDeque::operator[] and iterator", "bant/util/arena-container.h")],
     ["addresses returned, contents read back", "deque iteration and indexing"])
prop("C02", "Every piece of source maps to its exact file, line and column",
     "For any file content and any sub-range of it, the reported line and column (1-based in messages, end inclusive) are those obtained by counting newlines and characters, and the text of the given line is what is between its newlines. "
     "A project attributes every string of a parsed file, and every string that elaboration made (attributed to the expression it came from), to the file it came from and never to another one; registering and looking up disjoint ranges finds the covering range or none.",
     "inputs histories", "all texts up to a length over newline and other characters with all sub-ranges; all registration orders of ranges; several files in one project",
     "Tests look at a handful of positions in one file; off-by-ones sit at newlines, range ends, empty files and neighbouring ranges.",
     "bant/frontend/linecolumn-map.cc bant/frontend/named-content.cc bant/frontend/source-locator.cc bant/frontend/parsed-project.cc bant/util/disjoint-range-map.h",
     [("line index", "bant/frontend/linecolumn-map.cc"), ("range map lookup", "bant/util/disjoint-range-map.h"), ("elaborated location map", "bant/frontend/parsed-project.cc")],
     ["source locator output", "file:line:col in messages"])
prop("C03", "The scanner tokenizes every text losslessly and correctly",
     "For any byte sequence, scanning yields a finite sequence of tokens, in order, not overlapping, each a verbatim slice of the input of the right kind with only whitespace, comments and line continuations between them, ending in end-of-file: strings of all quote forms with escapes, numbers, identifiers, keywords, one and two character operators and 'not in'. "
     "Looking ahead never changes what is scanned, and afterwards the line index contains exactly all newlines passed.",
     "inputs", "all sequences of lexical pieces up to a length, with all patterns of looking ahead",
     "Tests scan a few dozen fixed strings; the interaction of adjacent pieces (quote forms, escapes, keywords as prefixes, comments, newlines inside strings) needs all combinations.",
     "bant/frontend/scanner.cc bant/frontend/scanner.h",
     [("Scanner::Next and Handle*", "bant/frontend/scanner.cc")], ["token stream", "line index"])
prop("C04", "No BUILD file, however malformed, makes bant crash, hang or stay silent",
     "For any text as BUILD file, parsing, printing, elaborating, querying, dependency exploration, canonicalizing, dependency checking and printing of results terminate without crash, memory error or undefined behaviour. "
     "A syntax error is flagged if and only if an error message naming the file and a location within it is printed; the complete top-level statements before the error are kept, and a text with no error yields a tree without missing expressions.",
     "inputs", "all token sequences up to a length; every prefix of, and every token deletion, duplication and substitution in, realistic files",
     "Tests parse well formed snippets and a few errors; crashes are at particular incomplete constructs combined with later stages.",
     "bant/frontend/parser.cc bant/frontend/elaboration.cc bant/frontend/print-visitor.cc bant/explore/query-utils.cc bant/tool/dwyu.cc",
     [("Parser error recovery", "bant/frontend/parser.cc"), ("null checks in visitors", "bant/frontend/ast.cc")], ["exit status", "error output", "AST dump"])
prop("C05", "Well-formed Starlark parses to the tree it was written as",
     "Every program of the supported BUILD subset (calls with positional and keyword arguments, assignments, tuple assignment, lists, maps, tuples, comprehensions, ternaries, unary and binary operators, subscripts, attribute access, string and number literals) parses without error to the tree of exactly its operators, operands and elements in order. "
     "Operator chains without parentheses group to the right. White space, newlines within brackets, comments and trailing commas do not change the tree.",
     "inputs programs", "all programs of a generator grammar up to a number of nodes, in several layouts",
     "Tests have a few examples of each construct; nesting of one construct in another and layout variants multiply.",
     "bant/frontend/parser.cc bant/frontend/ast.h bant/frontend/ast.cc",
     [("recursive descent productions", "bant/frontend/parser.cc")], ["AST dump"])
prop("C06", "Printed code parses back to the same tree",
     "The text that 'print' emits for any parsed expression or target (with or without elaboration) is itself parsed without error into the same tree with the same string values, for every kind of expression, nesting, and string content; printing is then a fixpoint. "
     "Highlighting matches (grep) and colours change only escape sequences, terminate for every regular expression, and print -g selects exactly the targets whose printed text contains a match.",
     "inputs programs", "all programs of a generator grammar up to a number of nodes; all string contents over quotes, escapes and letters up to a length; a set of regular expressions incl. ones matching the empty string",
     "Tests compare a few printed snippets; missing parentheses or wrong quoting only show on particular nestings or contents.",
     "bant/frontend/print-visitor.cc bant/tool/../frontend/ast.h bant/cli-commands.cc",
     [("PrintVisitor", "bant/frontend/print-visitor.cc"), ("StringScalar quoting", "bant/frontend/ast.cc")], ["print output"])
prop("C07", "Elaboration replaces expressions by exactly their value, or not at all",
     "After elaboration, every use of a top-level variable assigned before it is its value, + of two lists is the list of all elements in order, + of two strings is their concatenation, and a select() with a default branch is the value of this branch; + of a list and an expression that is not known to be a list is that list, and anything else stays as written. "
     "Names of called functions, keyword arguments, members and loop variables are not variables, and other files are never changed.",
     "inputs programs", "all programs of a generator grammar with variables, concatenations, selects, maps and format expressions up to a number of nodes; several statement orders",
     "Tests elaborate ten fixed snippets; nesting (select in + in a variable), order of definition, name shadowing and error cases need enumeration.",
     "bant/frontend/elaboration.cc bant/frontend/parsed-project.cc",
     [("SimpleElaborator", "bant/frontend/elaboration.cc")], ["AST dump after elaboration"])
prop("C08", "glob() expands to exactly the matching files",
     "glob(include, exclude) elaborates to the sorted list of exactly the files below the package directory whose package-relative path matches an include pattern and no exclude pattern, where * matches within one path segment, a ** segment any number of segments (as last one: everything below), and all other characters match literally. "
     "Whether include/exclude are positional or keyword arguments makes no difference, and a directory is searched whenever any path below it could match.",
     "inputs configurations", "all patterns and include/exclude pairs up to a size over segments, *, ** and regex-special characters, against all paths of a universe of trees",
     "Tests match a handful of patterns; the directory predicate that prunes the walk must agree with the file predicate for every pattern and depth.",
     "bant/util/glob-match-builder.cc bant/frontend/elaboration.cc bant/util/file-utils.cc",
     [("GlobMatchBuilder::BuildFileMatchPredicate/BuildDirectoryMatchPredicate", "bant/util/glob-match-builder.cc"), ("HandleGlob", "bant/frontend/elaboration.cc")], ["elaborated list", "match predicates"])
prop("C09", "Collecting files visits every wanted file exactly once and always terminates",
     "For every directory tree, including symbolic links to files and directories, dangling links, link cycles and unreadable directories, and for every order in which the system lists entries, collecting files terminates and returns all files satisfying the file predicate in all directories reachable through names the directory predicate accepts, each real directory visited once, under one such name. "
     "A directory that was rejected under one name is still found under another name that is accepted, and for predicates on names the set of real files found does not depend on the listing order.",
     "inputs schedules fault_sequences", "all small directory topologies with links, all listing orders, all answers of the directory predicate, failing opendir at each point",
     "Tests create one small tree; the order of readdir and of parallel listing is not under their control and cycles are not created.",
     "bant/util/file-utils.cc bant/util/file-utils.h",
     [("CollectFilesRecursive with inode set", "bant/util/file-utils.cc")], ["set of returned paths"])
prop("C10", "File content is read completely or reported as missing",
     "Reading a file returns all its bytes, unchanged, for every file size and for every way the operating system may split the reads, and returns 'no content' - never a truncated or padded one - if opening or reading fails at any point; no file descriptor is left open.",
     "fault_sequences inputs", "all sequences of answers of open/fstat/read (full, short, EINTR, error) up to a number of calls, file sizes around the buffer sizes, file growing or shrinking in between",
     "Tests read one small regular file where read() always returns everything.",
     "bant/util/file-utils.cc",
     [("ReadFileToString", "bant/util/file-utils.cc")], ["returned content", "open descriptors"])
prop("C11", "Labels parse, print and compare consistently",
     "Parsing a package or target label in any accepted form (absolute, relative with or without colon, shorthand without target name, with external project or @ for the main one; what bzlmod adds to the project name after a ~ is dropped) gives the project, path and name Bazel defines for it; ones with more than one colon or an empty path segment are rejected. "
     "Printing a label and parsing the output gives back an equal label, the form printed relative to a package parses back to the same target in that package, and equal labels and only those compare equal in a total order.",
     "inputs", "all strings up to a length over the label alphabet (@ / : letters . -) and all packages of a universe",
     "Tests list a few dozen labels; separators in all positions are what goes wrong.",
     "bant/types-bazel.cc bant/types-bazel.h",
     [("BazelPackage/BazelTarget::ParseFrom, ToString, ToStringRelativeTo", "bant/types-bazel.cc")], ["parsed parts", "printed text"])
prop("C12", "Patterns match exactly the targets they describe",
     "A command line pattern (target, package:all, package:*, path/..., name globs, ...) matches exactly the targets of the named package or recursive tree - never those of a package that merely shares a name prefix. "
     "A visibility entry (public, private, __pkg__, __subpackages__) lets exactly those targets see that Bazel documents, any other (package groups are unknown) lets all see, and a glob-like name pattern treats all characters other than * literally.",
     "inputs", "all patterns up to a length over the pattern alphabet against all targets of a universe",
     "Tests check single matches; false matches at prefix boundaries and special characters need the cross product.",
     "bant/types-bazel.cc bant/types-bazel.h bant/explore/query-utils.cc",
     [("BazelPattern::Match, BazelTargetMatcher", "bant/types-bazel.cc")], ["match result for each target"])
prop("C13", "External projects resolve to the directory that was declared for them",
     "Declaring external modules (bazel_dep, archive rules, with or without version and repo_name) and the directories that exist below the output base determine for each external project name the one directory found by the documented naming forms, an exact version being preferred (then the plain name, an override, any other version); only directories count, a repo_name is the name it is known by, and names neither declared nor present resolve to nothing. "
     "Listing the workspace prints each declared project and version (and each undeclared project present) once with name, version and path - given a pattern, only those the matching targets or their packages' load() refer to - and the resolution is independent of declaration order.",
     "inputs configurations", "all small sets of module declarations combined with all small sets of directory names",
     "Tests do not create workspaces at all.",
     "bant/workspace.cc bant/workspace.h bant/tool/workspace.cc",
     [("BazelWorkspace::FindPathByProject, BestMatchLocked", "bant/workspace.cc")], ["path returned", "workspace command output"])
prop("C14", "Queries report each rule's attributes exactly",
     "For every BUILD file, querying targets reports exactly the calls in the statements of the file (also inside lists, comprehensions and conditions there; what an assignment binds is data) whose rule name was asked for (or all), in file order, with each attribute exactly the last value given for it of matching kind (string, list, number/boolean) and default otherwise (a cc_library without headers counts as alwayslink), independent of the order of keyword arguments and of arguments of nested calls; default_visibility applies to later targets of that package only and only if they have none. "
     "Commands that list targets or library headers print exactly those rows for matching targets.",
     "inputs programs", "all files of up to 3 calls with all subsets/orders of attributes and kinds of values",
     "Tests query two or three fixed rules.",
     "bant/explore/query-utils.cc bant/explore/query-utils.h bant/cli-commands.cc",
     [("TargetFinder", "bant/explore/query-utils.cc")], ["query results", "list-targets output"])
prop("C15", "The dependency graph is exactly the reachable graph, loaded on demand",
     "From the targets matching a pattern, the graph contains exactly the targets reachable by deps (and an alias's actual) within the requested number of steps, each with exactly its parsed dependencies, and for every edge its inverse; packages are loaded from disk if and only if needed, at most once. "
     "Cycles, self-dependencies, missing packages, missing targets, unreadable files and aliases neither hang nor crash nor lose other edges.",
     "inputs programs configurations", "all dependency graphs over up to 4 targets in up to 3 packages, all start patterns and depths, with missing packages",
     "Tests build one small graph; reachability bugs need cycles, diamonds, lazily loaded packages and depth limits together.",
     "bant/explore/dependency-graph.cc bant/explore/dependency-graph.h bant/frontend/parsed-project.cc",
     [("BuildDependencyGraph", "bant/explore/dependency-graph.cc"), ("FindAndParseMissingPackages", "bant/explore/dependency-graph.cc")], ["graph contents", "lib-headers/depends-on output", "loaded packages"])
prop("C16", "Aliases and reverse dependencies are the exact inverse",
     "depends-on and has-dependents are exact inverses of each other: A is listed as dependent of B if and only if A is reachable in the project and B is a direct dependency (or actual) of A as written in its BUILD file; aliased-by lists for each target exactly the aliases in the selected packages whose actual it is. "
     "Each pair is listed as often as written, whatever the pattern and the order of files; a pattern only selects which targets are listed (with -r: where to start).",
     "inputs programs", "all graphs over up to 4 targets, with aliases, all patterns",
     "No test runs these commands.",
     "bant/explore/aliased-by.cc bant/explore/dependency-graph.cc bant/cli-commands.cc",
     [("ExtractAliasedBy", "bant/explore/aliased-by.cc"), ("has_dependents", "bant/explore/dependency-graph.cc")], ["command output"])
prop("C17", "Each header is attributed to exactly the libraries exporting it",
     "For every project the header index maps a path to exactly those libraries that export this header by that include path - package-qualified, via strip_include_prefix, include_prefix, includes, generated by proto or genrule - and to all direct and indirect aliases of these, and to nothing else. "
     "Looking up an include finds the exact entry if there is one, otherwise an entry sharing the most trailing path segments, but at least the required number.",
     "inputs programs", "all libraries over small sets of packages, headers and prefix attributes; all key sets and lookups over a segment alphabet",
     "Tests have a handful of libraries; combinations of prefix attributes and suffix lookups between neighbouring keys are not covered.",
     "bant/explore/header-providers.cc bant/explore/header-providers.h",
     [("ExtractHeaderToLibMapping", "bant/explore/header-providers.cc"), ("FindBySuffix", "bant/explore/header-providers.cc")], ["index contents", "lookup results"])
prop("C18", "dwyu never removes a dependency that is needed or protected",
     "For every project, dwyu suggests removing a dependency only if it is a known library that is not alwayslink (nor an alias of such), its line has no 'keep' comment (unless these are to be ignored), and every include of the target's sources and headers could be attributed; and after the suggested edits every included header provided by a dependency before still is provided by one. "
     "An unreadable, missing or undeterminable source is treated as unknown need: nothing is removed then. A dependency for which all of this holds and that provides no included header is suggested for removal.",
     "inputs programs", "all projects of up to 3 libraries with all dependency subsets, include subsets, flags, comments and missing files",
     "Tests check one suggestion per feature; wrong removals come from combinations (unknown include in one source, alias, keep, alwayslink).",
     "bant/tool/dwyu.cc bant/tool/dwyu-internal.h",
     [("DWYUGenerator::CreateEditsForTarget", "bant/tool/dwyu.cc")], ["edit suggestions"])
prop("C19", "dwyu suggests exactly the missing dependency when it is unambiguous",
     "If a target's source includes a header provided by exactly one library that the target may see (visibility, deprecation, testonly) and that is not yet among its dependencies, dwyu suggests adding this library, once, named relative to the target's package; it never suggests adding one that is not visible, ambiguous, itself, or already present. "
     "A library counts as ambiguous unless it is the only choice for a header, or the only one common to several headers. Includes in comments and string literals are not includes; quoted include directives with any spacing and path are.",
     "inputs programs", "all projects of up to 3 libraries with visibilities, testonly, alternatives, aliases and dependency subsets; all short line sequences for the include scanner",
     "Tests check single additions; visibility x alternatives x existing dependencies is a product.",
     "bant/tool/dwyu.cc bant/tool/dwyu-internal.h bant/types-bazel.cc",
     [("DWYUGenerator::DependenciesNeededBySources, ExtractCCIncludes", "bant/tool/dwyu.cc")], ["edit suggestions"])
prop("C20", "Applying dwyu's edits reaches a fixpoint; edits are valid commands",
     "Each suggested edit names an existing target and, for removals and replacements, a dependency literally present in it, in the form of one buildozer command per edit; applying all edits of a run to the BUILD files and running again suggests nothing more. "
     "The command's exit status says whether there were edits.",
     "inputs programs histories", "all projects of the dwyu spaces, edit application simulated, second run compared",
     "Tests look at one run only.",
     "bant/tool/dwyu.cc bant/tool/edit-callback.cc bant/cli-commands.cc",
     [("CreateBuildozerDepsEditCallback", "bant/tool/edit-callback.cc")], ["edit commands", "exit status"])
prop("C21", "Canonicalizing dependencies keeps their meaning and is idempotent",
     "For targets matching the pattern, canonicalize suggests replacing a dependency label if and only if it differs from the shortest form for that target's package (':name' in the same package, '//x/y' for //x/y:y, '@r' for @r//:r), the replacement denotes the same target, and after applying all edits it suggests nothing; other attributes and unparsable labels are untouched, exactly one edit per occurrence. The exit status says whether there are edits.",
     "inputs", "all label forms up to a length in all packages of a universe",
     "Tests have six labels.",
     "bant/tool/canon-targets.cc bant/types-bazel.cc",
     [("CreateCanonicalizeEdits", "bant/tool/canon-targets.cc")], ["edit suggestions"])
prop("C22", "Every output format is well-formed and carries the same content",
     "For every table with arbitrary (UTF-8) cell contents, JSON output is one valid JSON object per line with the header names as keys, CSV with its header row is RFC-4180 parsable, S-expressions and property lists are balanced readable lists, and aligned text has each column starting at the same position; each decodes back to exactly the cell contents. "
     "A list valued last column is a list in the structured formats, and one row per element in CSV and aligned text. The listing commands give the same set of rows in every format, only with targets selected by the pattern.",
     "inputs configurations", "all tables up to 3x3 with cells over quotes, commas, backslashes, newlines, non-ascii and empty, in all formats",
     "Tests print one table of plain words per format.",
     "bant/util/table-printer.cc bant/util/table-printer.h bant/cli-commands.cc bant/explore/header-providers.cc",
     [("TablePrinter implementations", "bant/util/table-printer.cc")], ["output text"])
prop("C23", "The command line selects exactly the documented command and options",
     "A command word is accepted if and only if it is a command or an unambiguous prefix of exactly one (an exact name always being itself), everything else is reported with a usage error and non-zero exit, as are unknown options, missing arguments, formats that are no unambiguous prefix of one and missing, invalid or too many patterns; every documented option is accepted wherever given and has its effect, the last one winning. An output file given receives the output instead of stdout, without terminal escapes; output that can't be written is a failure. "
     "Results go to the primary output only, diagnostics to stderr only, and with -q there are none of these.",
     "inputs configurations", "all prefixes and one-character edits of all command names; all option subsets up to size 2 with all commands on a small project",
     "No test runs the command line.",
     "bant/bant.cc bant/cli-commands.cc bant/session.h",
     [("RunCliCommand", "bant/cli-commands.cc"), ("option parsing", "bant/bant.cc")], ["exit status", "stdout and stderr"])
prop("C24", "The compilation database is valid and complete",
     "compilation-db PATTERN emits valid JSON: one entry per distinct source or header file of the matching cc_library, cc_binary and cc_test rules (labels of files in other packages resolved), with the current directory, and arguments that compile it: gcc, the common defaults, each C++ option of the .bazelrc (with implied defines) once, an -iquote for the project, bazel-bin, and all include directories of everything the matching targets transitively depend on (includes attribute, directories created for include_prefix, each external project used and its generated files, what protobuf needs), and -c with the file. "
     "compile-flags prints the same options and directories, one per line. No combination of attributes, missing projects or special characters breaks the format.",
     "inputs programs", "all sets of up to 3 (and all but 2) of 23 rules in 9 packages of 4 projects under 10 patterns; all sequences of 3 .bazelrc lines; special characters in all kinds of names",
     "No test covers it.",
     "bant/tool/compilation-db.cc",
     [("WriteCompilationDB, CollectIncDirs, ExtractOptionsFromBazelrc", "bant/tool/compilation-db.cc")], ["output of compilation-db and compile-flags"])
prop("C25", "Background file access runs safely under all schedules and never changes results",
     "With any number of worker threads and any interleaving, pre-warming performs each access listed in the cache file at most once, and all of them if the program lives long enough; it never touches anything else; ending the program at any time waits for what is being done, drops what has not begun, and has no deadlock, lost wake-up, data race or use after destruction. "
     "Pre-warming never changes any command's output or exit status, whatever the cache file contains and wherever HOME points to; afterwards the file lists each file and directory of the project that bant read exactly once.",
     "schedules fault_sequences", "all interleavings of main and up to 3 workers with up to 3 listed accesses up to a preemption bound; all truncations of and changed characters in the cache file for 6 commands; all kinds of unusable places",
     "Tests run one schedule, chosen by the machine.",
     "bant/util/filesystem-prewarm-cache.cc bant/util/filesystem-prewarm-cache.h bant/util/file-utils.cc",
     [("ThreadPool, FilesystemPrewarmCache", "bant/util/filesystem-prewarm-cache.cc")], ["file operations of the threads", "memory accesses", "cache file", "output of commands"])
prop("C26", "clang-tidy results are reused only for identical inputs",
     "scripts/run-clang-tidy-cached.cc reports for every source file of the project what clang-tidy says about its current content: a cached result is used only if path and content of the file, contents of the project headers it directly includes with quotes (found by basename), .clang-tidy, arguments and tool version are those it was made with, and, if it has findings, the build environment (MODULE.bazel, compilation database) is not newer; then it is used, clang-tidy is not invoked again. "
     "After any history of edits, reverts, renames, changes of configuration and runs, also in several checkouts with one cache, report (with project relative paths), summary of checks and exit status are those of a run with an empty cache.",
     "histories inputs", "all states of a small project visited with one cache in different orders; all sequences of actions up to a length with a run after each; all forms of includes; each ASCII character in all kinds of names",
     "The script has no tests.",
     "scripts/run-clang-tidy-cached.cc",
     [("FileGatherer::BuildWorkList, CreateReport, ContentAddressedStore, RepairFilenameOccurences", "scripts/run-clang-tidy-cached.cc")], ["report, summary, exit status", "clang-tidy invocations"])
prop("C27", "The clang-tidy cache survives crashes, failures and concurrency",
     "Killing run-clang-tidy-cached (and the clang-tidy it runs) at any point, any failing file operation, or any invocation of clang-tidy that crashes, is killed, interrupted or can not be started never leaves a cache entry that makes a later run report something else than a fresh run would; a run in which not all files could be processed fails. "
     "With any number of worker threads and any schedule, each file is processed once, without data race or deadlock, also if files have the same name and content; several runs at the same time with the same cache do not spoil it.",
     "crash_points schedules fault_sequences", "all points of being killed, also again in the following run; all failing operations; all kinds of failures of each invocation and of pairs; all interleavings of workers up to a preemption bound; all points at which another run happens",
     "The script has no tests.",
     "scripts/run-clang-tidy-cached.cc",
     [("ClangTidyRunner::RunClangTidyOn", "scripts/run-clang-tidy-cached.cc")], ["report, summary, exit status of this and following runs", "file operations", "memory accesses"])
prop("C28", "Listings show exactly what the pattern selects or depends on",
     "list-packages lists each package whose BUILD file the pattern selects or that contains a target reachable from matching targets within the given number of dependency steps (-r: any number), once; list-targets, lib-headers and genrule-outputs list all targets, headers (with each library or alias of it providing them) and generated files in these packages: without -r those of targets matching the pattern, with -r all of them. "
     "A package has one content however it is reached, BUILD.bazel if it has both files; nothing is listed twice, made up or left out.",
     "inputs configurations", "all graphs of three targets in all placements in five packages (two external), states of packages and kinds of targets x patterns x depths x commands",
     "Tests build single graphs in memory; no test runs the commands.",
     "bant/cli-commands.cc bant/explore/dependency-graph.cc bant/frontend/parsed-project.cc bant/explore/header-providers.cc",
     [("RunCommand", "bant/cli-commands.cc"), ("BuildDependencyGraph, PathForPackage", "bant/explore/dependency-graph.cc"), ("PrintProvidedSources", "bant/explore/header-providers.cc")], ["rows of the listings", "exit status"])
prop("C29", "No failure of the operating system crashes bant or makes its answers wrong",
     "Whatever file system call fails (open, read, stat, access, listing a directory, glob, current directory), once, several times or from some point on, each command ends with an ordinary exit status, without crash, hang or leaked file descriptor. "
     "dwyu and canonicalize then suggest no edit that they would not suggest without the failure, in particular they do not suggest removing a dependency because a source or directory could not be read; no listing shows anything that is not there.",
     "fault_sequences", "each file system call of 22 command lines fails, alone, with all following, and with each of the next 200, with 4 kinds of errors",
     "Tests never see a failing file system.",
     "bant/util/file-utils.cc bant/frontend/elaboration.cc bant/frontend/parsed-project.cc bant/explore/dependency-graph.cc bant/tool/dwyu.cc bant/tool/compilation-db.cc bant/workspace.cc",
     [("CollectFilesRecursive, ReadFileToString", "bant/util/file-utils.cc"), ("HandleGlob", "bant/frontend/elaboration.cc"), ("DependenciesNeededBySources", "bant/tool/dwyu.cc")], ["exit status", "edits and rows", "file descriptors"])
prop("C30", "bant only looks, and its answers do not depend on how directories are listed",
     "No command creates, changes, renames or removes a file or directory, starts a process or sends anything; all of the project is the same afterwards (only the file given with -o and the list of accessed files in the cache directory are written). "
     "Output and exit status of each command are a function of the content of the project: the sequence in which the file system lists directories and whether it tells the types of entries makes no difference, also if a package has two BUILD files, a directory has several names, or a header several providers.",
     "configurations", "all orders of each directory (up to 120, else each entry at each place), pairs of reversed directories, with and without types, for 22 command lines",
     "The order a test sees is whatever its file system has.",
     "bant/util/file-utils.cc bant/frontend/parsed-project.cc bant/workspace.cc bant/cli-commands.cc",
     [("CollectFilesRecursive", "bant/util/file-utils.cc"), ("FillFromPattern", "bant/frontend/parsed-project.cc")], ["output and exit status", "system calls that change something", "content of the tree"])

if __name__ == "__main__":
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(p, "w") as f:
        for e in P:
            f.write(json.dumps(e) + "\n")
    print(len(P), "properties")
