# The single source of properties.jsonl and MANIFEST.json: python3 tools/gen_meta.py rewrites both.
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level="model_checking", na=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, na=na, state=state))

p("C01", "Formatting is idempotent",
  "Formatting a file that the formatter produced changes nothing: for every file type (BUILD, .bzl, WORKSPACE, MODULE.bazel, other Starlark) the output of formatting is accepted by the parser as a file of the same type, and formatting it again gives exactly the same bytes.",
  ["inputs", "programs"], "every accepted source text of every file type",
  "Golden tests format about 130 hand-written files; the fixpoint property quantifies over all layouts (line breaks, blank lines, comments between any two tokens) of all programs.",
  ["build/print.go", "build/rewrite.go", "build/lex.go", "build/parse.y"],
  [["printer", "build/print.go: printer.file/statements/expr/seq"], ["rewrites", "build/rewrite.go: rewrites table"], ["comment assignment", "build/lex.go: assignComments"]],
  ["bytes of build.Format on the output of build.Format"],
  "explicit-state enumeration of texts; the transition is 'format' on the real code, the invariant is a self-loop after one step",
  "all seeds x <=1 (thorough: <=2) layout/comment deviations per program, all expression contexts to nesting 2 (thorough: 3 for short ones), 5 file types; longer deviations and deeper nesting are outside the bound")

p("C02", "Formatting preserves the meaning of the program",
  "Formatting never changes what a file means. Apart from the documented normalisations (merging, sorting and hoisting of load statements; the order of keyword arguments, positional/keyword/*args/**kwargs reordering; in BUILD-like files the order and duplicates of sortable string lists, joined and shortened labels, and argument order; redundant parentheses; quote and number spelling; docstring indentation), an independent Starlark parser reads the same program from the output as from the input.",
  ["inputs", "programs"], "every source text accepted by the reference Starlark parser or, for syntax it does not know, by the parser under test",
  "Golden files pin the printed text of a sample; no test compares meanings before and after for arbitrary layouts and operator nestings.",
  ["build/print.go", "build/rewrite.go", "build/parse.y", "build/quote.go"],
  [["operator precedence and parentheses", "build/print.go: opPrec, addParen, removeParens"], ["load rewriting", "build/rewrite.go: moveLoadOnTop, compressSameOriginLoads"], ["literals", "build/rewrite.go: editOctals, editFloats; build/quote.go"]],
  ["syntax tree of the printed text by go.starlark.net/syntax"],
  "explicit-state enumeration of texts with an independent reference parser as the oracle",
  "same space as C01; meaning is compared through a neutral tree modulo exactly the listed normalisations")

p("C03", "Formatting keeps every comment, next to what it annotates",
  "Every comment of the input occurs in the formatted output exactly once (the end-of-line comment of a duplicate string that is removed from a list may go with it). A comment at the end of a line of code stays attached to that code, and a comment line directly above a statement or list element stays before it.",
  ["inputs", "programs"], "every source text and every placement of comments between its tokens",
  "Tests place comments at a handful of positions; the guarantee quantifies over every gap between two tokens and over combinations of moved (sorted, merged) elements.",
  ["build/lex.go", "build/print.go", "build/rewrite.go"],
  [["comment assignment", "build/lex.go: assignSuffixComments, assignLineComments"], ["deduplication and load merging", "build/rewrite.go: deduplicateStringExprs, compressSameOriginLoads"], ["pending comments", "build/print.go: newline, flushComments"]],
  ["comments of the formatted text and the code tokens on or below their lines"],
  "explicit-state enumeration of comment placements on the real formatter with a token-level oracle",
  "every single (thorough: every pair of) comment placement in every gap of the seed programs and of all expression contexts of nesting 1")

p("C04", "Parsing is total: a syntax tree or a positioned error, nothing else",
  "For any bytes and every file type, parsing and formatting terminate without a panic and return either a syntax tree or a syntax error whose position lies inside the text; they never report an internal error, never accept text that formatting cannot print back as parseable text, and never modify the caller's buffer.",
  ["inputs"], "every byte sequence, well-formed or not",
  "Tests feed valid files and a few syntax errors; totality quantifies over all malformed token sequences, truncations and nestings.",
  ["build/lex.go", "build/parse.y", "build/parse.y.go", "build/quote.go", "build/print.go"],
  [["lexer", "build/lex.go: input.Lex"], ["error recovery", "build/lex.go: input.Error, parse"], ["parsing entry points", "build/lex.go: ParseBuild, ParseBzl, ParseWorkspace, ParseModule, ParseDefault"]],
  ["result and error of build.ParseX; bytes behind the input slice"],
  "exhaustive enumeration of all token words up to a length, run through the real parser",
  "all strings of <=3 of 54 tokens (thorough: <=4), all strings of 4 of 25 tokens, every truncation and single damage of the seed programs, nestings to depth 40")

p("C05", "String literals keep their value",
  "Every string literal that the parser accepts denotes the value that the Starlark language gives it (escapes, raw and triple-quoted strings, both quote kinds), its printed form denotes the same value, and every value printed by the formatter for a programmatically created string reads back as that value.",
  ["inputs", "values"], "every literal over the alphabet of characters that matter to quoting; every value",
  "quote_test.go has about 40 literals; escaping errors need particular neighbours (a backslash before a quote, octal digits, a newline before a triple quote).",
  ["build/quote.go", "build/lex.go", "build/print.go"],
  [["unquoting", "build/quote.go: Unquote"], ["quoting", "build/quote.go: quote"], ["string tokens", "build/lex.go: stringToken handling in Lex"]],
  ["StringExpr.Value, bytes of build.FormatString"],
  "exhaustive enumeration of literals up to a length against an independent decoder written from the language specification",
  "all literals with bodies of <=5 (thorough <=6) of the quoting alphabet in every quote style, and all values of the same lengths")

p("C06", "Every syntax tree prints as source text of the same tree",
  "A syntax tree built in memory, as tools built on this library do, prints as text that parses back to the same tree (up to redundant parentheses): operators, conditionals, lambdas, comprehensions, unary operators, dots, calls, indexes, slices, dicts, tuples and statements in every position of each other.",
  ["programs"], "every syntax tree",
  "Tests print trees that came from the parser, which already contain the parentheses; trees built by tools do not.",
  ["build/print.go", "build/syntax.go"],
  [["precedence", "build/print.go: opPrec, addParen, expr"], ["layout of sequences", "build/print.go: seq, useCompactMode"]],
  ["text of build.FormatWithoutRewriting and the tree parsed from it"],
  "exhaustive enumeration of trees to a nesting depth; print and reparse is the transition, identity the invariant",
  "all nestings of 2 levels of every node kind in every child position with every operator, 3 levels of a reduced alphabet, every file type")

p("C38", "The parser agrees with the Starlark reference parser",
  "Every text that the reference Starlark parser (go.starlark.net/syntax) accepts is accepted, and both read the same program from it: same statements, same grouping of operators, same arguments, same names, numbers and strings.",
  ["inputs", "programs"], "every source text",
  "parse_test.go compares a few trees with hand-written ones; a grammar conflict resolved the wrong way or a lexer slip shows only for particular token sequences.",
  ["build/parse.y", "build/parse.y.go", "build/lex.go"],
  [["grammar", "build/parse.y"], ["tokens", "build/lex.go: Lex"], ["indentation", "build/lex.go: input.indents"]],
  ["syntax trees of both parsers in a neutral form"],
  "exhaustive enumeration of token words and program texts, differential against an independent parser",
  "all words of <=3 of 54 tokens and of 4 of 34 (thorough 54); all unparenthesised operator words with <=3 (4) of 18 operators; expression nestings 1 and 2 in all statement contexts; layout deviations of the seeds; statement pairs. NUL, invalid UTF-8, CR in strings, bytes literals and numbers glued to words are outside")

p("C10", "buildozer list commands do exactly what they say to list attributes",
  "add, remove, move, replace and substitute on list attributes change, in the addressed rules, exactly the named labels: a value is added once (equal labels in any spelling count as equal), after the command no alternative of the attribute (any choice of select branches) contains a removed value, replaced values are replaced everywhere, moved values change attribute without being lost or duplicated, and no other element, select branch, variable, glob or concatenation is lost, duplicated or changed. An attribute that becomes empty by removing its last value disappears; a rule that a command does not concern stays byte-identical; a command that has nothing to do writes nothing and exits with 3.",
  ["inputs", "histories"], "every attribute shape (lists, variables, globs, concatenations, selects) and every sequence of commands on it",
  "edit_test.go and buildozer_test.sh run one command on one shape each; the laws quantify over all combinations of shape, command, spelling of the label, and histories of commands.",
  ["edit/edit.go", "edit/buildozer.go", "labels/labels.go"],
  [["list edits", "edit/edit.go: AddValueToList, ListAttributeDelete, ListReplace, ListSubstitute, AllLists, AllSelects"], ["commands", "edit/buildozer.go: cmdAdd, cmdRemove, cmdMove, cmdReplace, cmdSubstitute"]],
  ["bytes of the BUILD file after edit.Buildozer, its exit code"],
  "explicit-state exploration: states are BUILD files, transitions are real buildozer invocations, every transition is judged against an independent model of the command on label lists under all select choices",
  "31 value shapes (pairs over two attributes) x about 460 commands at depth 1; sequences of commands to depth 2 (thorough: 3) from 5 start states")

p("C11", "buildozer rule and scalar commands do exactly what they say",
  "set, set_if_absent, remove ATTR, rename, copy, copy_no_overwrite, set_kind, delete, new and the commands comparable to them change exactly the attribute or rule they name to exactly the value that the documentation gives them (strings, labels, lists, numbers, identifiers by the type of the attribute), leave everything else of the file unchanged, keep the file parseable and formatted, refuse what they document to refuse without changing the file, and report an unchanged file as unchanged.",
  ["inputs", "histories"], "every rule state and every sequence of commands",
  "Tests apply single commands to fixed rules; interactions (set then copy, rename onto an existing attribute, new before/after a rule) are not enumerated.",
  ["edit/buildozer.go", "edit/edit.go", "build/rule.go"],
  [["commands", "edit/buildozer.go: cmdSet, cmdSetIfAbsent, cmdRemove, cmdRename, cmdCopy, cmdCopyNoOverwrite, cmdDelete, cmdNew"], ["attribute values", "edit/buildozer.go: getAttrValueExpr"], ["rule insertion and deletion", "edit/edit.go: InsertAfter, DeleteRule"]],
  ["bytes of the BUILD file after edit.Buildozer, its exit code and standard error"],
  "explicit-state exploration of real buildozer invocations from all start states, judged transition by transition against an independent model",
  "sequences of about 120 commands to depth 2 (thorough: 3) on 3 kinds of targets; all new/delete commands on all files of <=3 statements")

p("C12", "buildozer dict commands do exactly what they say to dict attributes",
  "dict_add, dict_set, dict_remove, dict_replace_if_equal and dict_list_add change exactly the entries of the addressed dictionary whose keys they name: dict_add does not overwrite, dict_set does, dict_remove removes all entries with the key and only those (entries whose keys are not string literals stay), dict_list_add adds each value once, and no other entry, attribute or rule changes.",
  ["inputs", "histories"], "every dictionary attribute and every sequence of commands",
  "The tests have one or two dictionaries; the laws quantify over keys present or absent, key expressions, value kinds, selects and histories.",
  ["edit/buildozer.go", "edit/edit.go"],
  [["dict edits", "edit/edit.go: DictionarySet, DictionaryGet, DictionaryDelete"], ["commands", "edit/buildozer.go: cmdDictAdd, cmdDictSet, cmdDictRemove, cmdDictReplaceIfEqual, cmdDictListAdd"]],
  ["bytes of the BUILD file after edit.Buildozer, its exit code"],
  "explicit-state exploration of real buildozer invocations against an independent model of dictionaries",
  "all dictionary shapes x commands, sequences to depth 2 (thorough: 3)")

p("C13", "Load commands bind exactly the requested symbols and lose none",
  "After new_load and replace_load the file binds the requested names to the requested symbols of the requested module, every other binding of the file stays as it was, nothing is loaded twice from one module; substitute_load changes exactly the matching modules; fix unusedLoads removes exactly the bindings that nothing in the file uses. The same command has the same effect on every file of an invocation.",
  ["inputs", "histories"], "every set of load statements of a file and every list of requested symbols",
  "Tests have one load per case; the losses need a load with several of the requested symbols, aliases, or several files in one invocation.",
  ["edit/edit.go", "edit/buildozer.go", "edit/fix.go"],
  [["load edits", "edit/edit.go: InsertLoad, appendLoad, AppendToLoad, ReplaceLoad"], ["command arguments", "edit/buildozer.go: splitLoadArgs"], ["unused loads", "edit/fix.go: cleanUnusedLoads"]],
  ["bindings of all load statements of the files after edit.Buildozer"],
  "explicit enumeration of files and commands on the real tool with a binding-set model as the oracle; two files per invocation",
  "all files of <=2 (thorough: <=3) of 8 load statements with 9 bodies x 157 commands")

p("C14", "use_repo_add and use_repo_remove maintain exactly the imported repositories",
  "After use_repo_add every named repository is imported by a use_repo call of the addressed extension (each of its usages is one module extension whatever the spelling of its label), after use_repo_remove none is; imports of other extensions, of dev dependencies and of isolated usages, renamed imports and all other statements are unchanged; without a matching extension the command fails and changes nothing.",
  ["inputs"], "every MODULE.bazel file with extension usages and use_repo calls",
  "bzlmod_test.go tests the helpers on fixed files; the command is a composition over all spellings of extension labels, module names, dev and isolated usages.",
  ["edit/buildozer.go", "edit/bzlmod/bzlmod.go"],
  [["commands", "edit/buildozer.go: cmdImplUseRepo, isExtensionLabel"], ["extension usages", "edit/bzlmod/bzlmod.go: Proxies, AllProxies, UseRepos, NewUseRepo, AddRepoUsages, RemoveRepoUsages"]],
  ["imports of every extension usage in MODULE.bazel after edit.Buildozer"],
  "explicit enumeration of MODULE.bazel files and commands on the real tool with an import-set model as the oracle",
  "all files of <=3 (thorough: <=4) of 14 statements x 126 commands")

p("C15", "buildozer edits exactly the rules and files its targets address",
  "A target //pkg:name addresses the rules its documentation names (by name, by line %n, by kind %kind, all with *, the package declaration with __pkg__, the implicitly named rule) in exactly the BUILD files its package pattern names (//pkg, //pkg/..., an explicit file, relative packages; BUILD.bazel before BUILD, BUCK; for @repo// the build file that WORKSPACE names for the repository): a command changes each of them exactly once and nothing else; a target without a match is an error.",
  ["inputs"], "every file, directory tree and target pattern",
  "Test files have a few well-named rules; the properties quantify over unnamed, duplicate and nested calls, legacy macros in comprehensions, line numbers and trees with several BUILD-like files.",
  ["edit/edit.go", "edit/buildozer.go", "build/rule.go"],
  [["target resolution", "edit/edit.go: InterpretLabelForWorkspaceLocation, FindRuleByName, IndexOfRuleByName, ExprToRule"], ["expansion", "edit/buildozer.go: expandTargets, targetExpressionToBuildFiles, findBuildFiles, filterRules"], ["rules of a file", "build/rule.go: Rules, implicitRuleName"]],
  ["output of print kind startline", "files after set"],
  "explicit enumeration of files, trees and target patterns on the real tool with a resolver of the documented target syntax as the oracle",
  "all files of <=2 (thorough: <=3) statements x targets x rule type filters; trees of BUILD-like files x package patterns; external repositories in WORKSPACE files of <=2 rules; spellings of one target")

p("C16", "buildozer leaves comments and everything it does not address alone",
  "A buildozer command applied to a formatted file changes only the addressed statement: every other statement keeps its bytes, every attribute of the rule that is not addressed keeps its value and its comments, and a comment attached to a rule, an attribute or an element that still exists afterwards stays attached to it; no comment is duplicated.",
  ["inputs"], "every placement of comments in every file and every command",
  "Tests have few comments; a comment is lost only for particular combinations of its place and the command.",
  ["edit/edit.go", "edit/buildozer.go", "build/rule.go"],
  [["edits", "edit/edit.go: EditFunction, ListDelete, ListReplace, ListSubstitute, AddValueToListAttribute, RenameAttribute"], ["attributes", "build/rule.go: SetAttr, DelAttr"]],
  ["bytes of the BUILD file before and after edit.Buildozer"],
  "explicit enumeration of comment placements x commands on the real tool; monitors for the frame of a command and the anchors of comments",
  "all single placements (thorough: all pairs of placements) of line and suffix comments in 2 files x commands")

p("C17", "The result of buildozer does not depend on the schedule of its workers",
  "For every interleaving of the workers that process the files of one invocation, every file gets the content that it would get if it were processed alone, every file is read and written at most once, the exit code is the same and standard output and standard error have the same records.",
  ["inputs", "schedules"], "every schedule of the file workers",
  "The test suite runs one invocation at a time with whatever schedule the runtime chooses and single files; shared state between workers (command arguments, one file addressed twice) shows only under some schedules.",
  ["edit/buildozer.go"],
  [["workers", "edit/buildozer.go: Buildozer, rewrite, executeCommandsInFile"], ["grouping by file", "edit/buildozer.go: appendCommands, commandsForFile"]],
  ["files, exit code, stdout and stderr of edit.Buildozer"],
  "stateless model checking of the real code: a controlled scheduler enumerates all interleavings of the workers' read, command and write steps",
  "all schedules of the steps of 2 (3) files for every command, for a third of (thorough: all) pairs of commands")

p("C18", "A buildozer failure is contained, reported and reflected in the exit code",
  "A file that is missing, unreadable, unparseable, unwritable or not editable, or for which a command fails, keeps its bytes (with -k: has exactly the effects of the commands that succeed), exactly the failing files have their errors reported (one for each failure), all other files get exactly their changes, changed files are reported as fixed, and the exit code is 2 if anything failed, 0 if something changed, 3 if nothing did.",
  ["inputs", "schedules", "crash_points"], "every combination of faults of the files, commands and -k, under every schedule",
  "The tests do not inject I/O faults at all.",
  ["edit/buildozer.go"],
  [["per-file processing", "edit/buildozer.go: rewrite, executeCommandsInFile"], ["collection of results", "edit/buildozer.go: Buildozer"]],
  ["files, exit code, stdout and stderr of edit.Buildozer with injected read, write and edit failures"],
  "explicit enumeration of fault combinations x command sequences on the real tool, schedules enumerated by a controlled scheduler, against a sequential model",
  "all pairs of 6 faults of two files x <=2 (thorough: <=3) of 15 commands x -k x missing targets; all schedules of 3 command lists (thorough: 3 files)")

p("C20", "buildozer print shows the attributes as they are in the file",
  "buildozer print shows for every addressed rule one record with exactly the requested fields in their order: name, kind, label, path, line numbers, the rule's text and the attribute values as they are in the file (as text, as JSON and as a protocol buffer, which agree), it changes no file, and a value that is printed as a list parses back to the same list.",
  ["inputs"], "every attribute value and every list of fields",
  "The tests print a handful of values; formats and quoting differ for strings with blanks, lists of expressions, missing attributes and unformatted files.",
  ["edit/buildozer.go"],
  [["fields", "edit/buildozer.go: cmdPrint"], ["records", "edit/buildozer.go: printRecord"]],
  ["stdout of edit.Buildozer in text, JSON and proto modes"],
  "explicit enumeration of values x fields on the real tool against an independent rendering of the file's own text",
  "all lists of <=3 of the fields x the value shapes x the three output modes")

p("C21", "buildozer comment commands set, show and remove exactly the addressed comment",
  "After comment ATTR VALUE TEXT the addressed rule, attribute or value has exactly the comment TEXT (in place of what it had), print_comment prints it, remove_comment removes exactly it, and no other comment of the file changes, for every history of comment commands, with and without -eol-comments.",
  ["inputs", "histories"], "every history of comment commands",
  "Tests set one comment once; the laws are about replacement, several commands in sequence, multi-line comments and other comments nearby.",
  ["edit/buildozer.go"],
  [["commands", "edit/buildozer.go: cmdComment, cmdPrintComment, cmdRemoveComment, commentsText"]],
  ["bytes of the BUILD file, stdout of print_comment"],
  "explicit-state exploration of real buildozer invocations against a model of attached comments",
  "all states within 2 (thorough: 3) commands of the initial file; the third step of quick from every 8th state")

p("C19", "Command files and several commands per invocation do what single invocations do",
  "Several commands in one buildozer invocation have the effect of one invocation per command (up to layout), every file is written at most once, a command file given with -f has the effect of its lines one after another on the command line with the documented syntax (comments, empty lines, | and its escape, labels and commands in any order, the single label * for the labels of the command line, several files), and the exit code is that of the combined effect.",
  ["inputs", "histories"], "every sequence of commands and every command file",
  "The tests run a few command files; the equivalence quantifies over sequences of commands, escapes and line shapes.",
  ["edit/buildozer.go"],
  [["parsing", "edit/buildozer.go: appendCommandsFromReader, SplitOnSpaces, parseCommands"], ["execution", "edit/buildozer.go: rewrite"]],
  ["bytes of BUILD files, stdout and exit code of edit.Buildozer"],
  "explicit enumeration of command sequences and command files on the real tool against one invocation per command",
  "all sequences of 2 (thorough: 3) of 58 commands on 3-4 files; all command files of <=2 (thorough: <=3) of 30 lines; all strings of <=6 (7) of 4 characters as escapes")

p("C07", "Every syntax node's span is exactly its own text",
  "For every accepted text, the start and end position of every node of the syntax tree are consistent (byte offset, line and column in runes agree, also with non-ASCII text and CRLF), lie within the span of its parent, and the bytes between them are the node's own source text: parsed alone they mean the same as the node, and they neither start nor end with blanks.",
  ["inputs", "programs"], "every node of every accepted source text in every layout",
  "Only one test checks positions, of one file; suggestion tools, diagnostics and line-range prints rely on them for every node and layout.",
  ["build/syntax.go", "build/lex.go", "build/parse.y"],
  [["spans", "build/syntax.go: Span methods"], ["positions of tokens", "build/lex.go: readRune, pos"]],
  ["Expr.Span() of every node"],
  "explicit enumeration of texts (layout deviations of programs, expression contexts); every node's span is cut out, parsed alone by the reference parser and compared to the node",
  "all seeds x one layout/comment deviation, all expression contexts to nesting 2, each also with non-ASCII strings and CRLF")

p("C08", "Lists, arguments and loads are sorted exactly where and how documented",
  "The formatter orders string lists of sortable attributes (by kind of label, then by components, duplicates removed) and those marked 'keep sorted', use_repo arguments, named arguments of calls (by priority, then name), load statements (repositories, then packages, then relative labels) and loaded symbols, and leaves the order of everything else alone: 'do not sort', leave-alone, commented lists, non-sortable attributes, other file types.",
  ["inputs"], "every list, argument list and load block in every context and file type",
  "Golden files have a few sorted lists; comparisons must be a total order for all pairs of labels, and contexts multiply with file types and comments.",
  ["build/rewrite.go", "tables/tables.go"],
  [["lists", "build/rewrite.go: sortStringLists, SortStringList, sortStringExprs, makeSortKey"], ["arguments", "build/rewrite.go: sortCallArgs, ruleNamePriority"], ["loads", "build/rewrite.go: sortLoadStatements, compareLoadLabels, comparePaths, SortLoadArgs"]],
  ["order of elements in the formatted text"],
  "explicit enumeration of lists x contexts x file types on the real formatter against a model of the documented order",
  "all lists of 2-3 (thorough: 4) of 12 elements and of 2-4 (5) with separators in 29 contexts x 5 file types; all sequences of 2-4 arguments, of 2-3 loads of 12 modules, of <=5 loaded symbols")

p("C09", "Labels denote the same target after parsing, shortening and formatting",
  "Parsing, formatting, shortening and comparing labels agree with what Bazel takes a label to mean in its package: a printed or shortened label denotes the same target of the same repository and is never longer than needed, two labels are equal exactly if they denote the same target, and the label rewriting of the formatter (with -shortenlabels and -striplabels) changes no label's target.",
  ["inputs"], "every label in every package",
  "labels_test.go has about 40 labels; shortening is wrong only for particular coincidences of repository, package and target names.",
  ["labels/labels.go", "edit/edit.go", "build/rewrite.go"],
  [["labels", "labels/labels.go: Parse, ParseRelative, Format, FormatRelative, Shorten, Equal"], ["rewriting", "build/rewrite.go: fixLabels"], ["buildozer", "edit/edit.go: ShortenLabel, LabelsEqual"]],
  ["results of the label functions; label strings in formatted files"],
  "exhaustive enumeration of label strings against an independent denotation of labels",
  "all strings of <=6 (7) of {a b / : @ .} and of <=6 (7) label tokens in 4 packages, all pairs of the short ones, all of them as attribute values through the formatter")

p("C29", "Disabling comments disable exactly the named findings where they are",
  "A comment `buildifier: disable=category` (or buildozer:) before a statement disables the findings of this category in the statement, at the end of a line those of the line, and never a finding of another category (not even of one whose name is a prefix) or of another statement; a comment followed by an empty line, or one that doesn't name the category exactly, disables nothing; and disabled findings aren't fixed, while all other ones are.",
  ["programs"], "every file, finding, position and form of the comment",
  "A handful of positions in one file is tested for DisabledWarning.",
  ["warn/warn.go", "edit/edit.go", "build/lex.go"],
  [["disabling findings", "warn/warn.go"], ["attaching comments", "build/lex.go"]],
  ["findings of warn.FileWarnings", "findings after warn.FixWarnings"],
  "exhaustive enumeration of places and forms of comments in files that trigger every category; oracle: the findings without the comment and the spans of statements",
  "all places of a comment in all single snippets (about 110 .bzl, 45 BUILD) x 18 forms x categories, and in pairs of snippets (quick: 3 pairs per snippet)")
p("C31", "Control-flow lints report exactly what the control flow graph says",
  "For every function and file: `unreachable` reports exactly the statements no execution path reaches (after return, fail, break, continue, or branches that all end so), `return-value` exactly the functions that return a value on some path and none (or fall off the end) on another, and `uninitialized` exactly the uses of a local variable that some path reaches before the variable is assigned; nothing is reported for other code, and nothing depends on unrelated statements around it.",
  ["programs"], "every function body",
  "warn_control_flow_test.go has some dozens of bodies; the lints are recursive passes over branches, loops and scopes and a slip shows only for particular nestings of them.",
  ["warn/warn_control_flow.go", "bzlenv/bzlenv.go", "build/walk.go"],
  [["control flow", "warn/warn_control_flow.go: missingReturnValueWarning, unreachableStatementWarning, uninitializedVariableWarning"]],
  ["findings of warn.FileWarnings: line and category"],
  "exhaustive enumeration of all function bodies up to a size; oracle: reachability and definite assignment over an explicitly built control flow graph (states are program points x sets of assigned variables)",
  "all bodies with <=6 (7) of 10 branch kinds, <=6 (7) of 9 assignment kinds, <=3 (4) of 40 statement kinds; all file types x 8 surroundings x <=2 (3) statements. return-value is judged only for functions without unreachable code; uses in dead code are not judged")

p("C32", "Scope lints report exactly the unused, redefined and duplicate names",
  "For every file: `unused-variable` and `load` report exactly the names that no code in their scope reads (Starlark scoping: comprehensions, lambdas and functions have scopes of their own, first iterables, default values and annotations belong to the outer one), and `redefined-variable` exactly the top-level variables that are assigned again. Removing the reported unused or duplicate loads automatically removes no used symbol, leaves no reported one, keeps `@unused` ones, changes nothing else, and one round is enough.",
  ["programs"], "every nesting of scopes, definitions and uses",
  "The unit tests have single examples per construct; which scope a name belongs to depends on the combination of the surrounding constructs.",
  ["warn/warn_control_flow.go", "bzlenv/bzlenv.go", "warn/types.go"],
  [["unused and redefined", "warn/warn_control_flow.go: unusedVariableWarning, unusedLoadWarning, redefinedVariableWarning"], ["scopes", "bzlenv/bzlenv.go, warn/types.go"]],
  ["findings of warn.FileWarnings: line, category and name", "the file after automatic fixes"],
  "exhaustive enumeration of all scope programs up to a size; oracle: an independent name resolver (explicit scopes and bindings)",
  "all functions of <=2 statements of the full set with 4 headers, all files of <=2, functions and files of 3 of a smaller set with nested functions, pairs of loads x uses, files of <=4 (5) assignments")

p("C33", "Lints that read other files agree with the graph of all files",
  "`unnamed-macro` reports exactly the public functions without a name parameter from which a rule or a native rule can be reached through calls, aliases and loads of the repository, whatever cycles, missing or broken files there are, in whatever order functions are defined or files were linted before; the reported reason names a call at the reported line; repeated runs say the same; every file is read at most once. `deprecated-function` reports exactly the loads of functions whose docstring has a `Deprecated:` section.",
  ["programs", "histories"], "every call graph over several files",
  "warn_macro_test.go has a handful of graphs; the analysis caches results while it is in the middle of a cycle, which is right or wrong depending on the order of the graph's edges.",
  ["warn/warn_macro.go", "warn/warn_bazel_api.go", "warn/multifile.go"],
  [["reachability and its cache", "warn/warn_macro.go: macroAnalyzer.IsMacro, analyzeFile"], ["other files", "warn/multifile.go: FileReader.GetFile"]],
  ["findings and messages of warn.FileWarnings", "reads of the injected file reader"],
  "exhaustive enumeration of call graphs; oracle: least fixpoint over the explicit graph (states are symbols of all files)",
  "all call graphs of 3 functions (<=3 callees each) x which of them call a rule (thorough: 4 functions); 175 x 18 x 7 contents of three files that load each other, also after linting the others; parameter lists; all docstrings of 3 of 10 lines x 5 loads")

p("C22", "buildifier's modes do what they document, and touch nothing else",
  "fix rewrites exactly the files that aren't formatted and leaves the others (and their times and modes) alone; check, diff and print_if_changed write no file; stdout is the formatted input, the diffs, the changed file or the diagnostics; stderr names every problem; json and text diagnostics list each processed file in order with its findings; the exit code is 0 exactly when nothing is wrong, otherwise that of one of the problems (1 syntax, 2 usage, 3 runtime, 4 reformat or findings) and 0 with -format; a broken file doesn't stop the others; no temporary files stay; invalid combinations of flags change nothing.",
  ["histories"], "every list of files, standard input and combination of flags",
  "There are no tests of the command as a whole for combinations of modes, lint modes, formats, kinds of files and numbers of files.",
  ["buildifier/buildifier.go", "buildifier/utils/utils.go", "buildifier/utils/diagnostics.go", "buildifier/utils/tempfile.go", "buildifier/config/validation.go", "differ/diff.go"],
  [["processing files", "buildifier/buildifier.go"], ["diagnostics", "buildifier/utils/diagnostics.go"], ["flags", "buildifier/config/validation.go"]],
  ["stdout, stderr and exit code of the buildifier binary", "all files after the run"],
  "exhaustive enumeration of runs of the binary in scratch directories; oracle: model of the modes over the library's result for each file",
  "<=2 files (thorough: 3) of 14 kinds of contents or standard input x modes x lint modes x formats x -path x -type; lists of 1..31 (120) files; -r on standard input, -v, -multi_diff")
p("C23", "Flags override the one configuration file that applies",
  "buildifier with a configuration file behaves as with the same values as flags; a flag overrides the configuration; -config, else $BUILDIFIER_CONFIG, else the nearest .buildifier.json decides which single file is used; -config=off uses none; broken or missing configuration is a usage error and changes nothing; and the selected warnings are those documented for lists, 'all', 'default' and + or - modifiers, each exactly once, mixing both kinds being an error.",
  ["configurations"], "every configuration, environment and flag",
  "Unit tests check single fields of the configuration; combinations of sources and lists of warnings from several sources aren't covered.",
  ["buildifier/config/config.go", "buildifier/config/validation.go", "buildifier/buildifier.go", "wspace/workspace.go"],
  [["configuration", "buildifier/config/config.go"], ["selection of warnings", "buildifier/config/validation.go"]],
  ["stdout, stderr, exit code and files of runs of the buildifier binary", "LintWarnings of config.Config"],
  "exhaustive enumeration of sources of settings; oracle: the run with the effective settings as flags; model of the selection of warnings",
  "15 settings x all combinations of 5 sources with 2 values each and -config=off; all pairs of settings from two sources; lists of <=2 (thorough: 3) of 11 words in configuration and flag")
p("C25", "File types, packages and labels follow from paths as documented",
  "The type of a file is determined by its name alone, as documented (prefixes, suffixes, .oss, any case); the workspace is the nearest directory above with a file that marks it, the package the nearest one with a BUILD file inside of this workspace, the label the rest; directories and files of similar names don't count; and buildifier uses them however the file is named: relative, absolute, with .., or by -path.",
  ["configurations"], "every file name and directory structure",
  "Unit tests have a few names and one tree.",
  ["build/lex.go", "wspace/workspace.go", "buildifier/buildifier.go", "build/syntax.go", "warn/warn_visibility.go"],
  [["types", "build/lex.go"], ["workspaces", "wspace/workspace.go"]],
  ["File.Type of build.Parse", "wspace.SplitFilePath and FindWorkspaceRoot", "diagnostics of the buildifier binary"],
  "exhaustive enumeration of names and of directory chains on disk; oracle: models of the documented rules",
  "names of <=3 (thorough: 4) of 18 words in 4 directories; chains of <=3 (4) directories with 15 kinds of contents; 6 ways to name the file in chains of 2 (3)")
p("C26", "buildifier -r processes exactly the Starlark files below its arguments",
  "Directories are replaced by all files below them with names of Starlark files, in the order of their names, except in .git directories; files given explicitly are processed whatever their names; links to directories aren't followed; arguments keep their order; a missing argument is an error before anything is changed; check and fix mode report and fix exactly those files.",
  ["configurations"], "every directory tree and list of arguments",
  "Unit tests check single names only.",
  ["buildifier/utils/utils.go", "buildifier/buildifier.go"],
  [["finding files", "buildifier/utils/utils.go"]],
  ["utils.ExpandDirectories", "output of and files after the buildifier binary"],
  "exhaustive enumeration of directory trees on disk; oracle: model of the tree",
  "all directories of <=3 of 41 kinds of entries (files, directories of two levels, links) x lists of <=2 arguments")
p("C27", "Linting is pure, deterministic and compositional",
  "Linting a file doesn't change it and gives the same findings in the same order, every time, with a fresh or a used file reader, whatever else has been linted; linting for many categories reports what linting for each of them reports, in any order of the categories; findings are sorted by line and lie inside of the file; lines added before the code move them by as many lines; and the findings of independent statements don't depend on the other statements.",
  ["programs"], "every file and every order of warnings",
  "Unit tests lint one snippet for one category and compare messages; purity, determinism, composition and positions of all categories together aren't tested.",
  ["warn/warn.go", "warn/warn_control_flow.go", "warn/warn_macro.go", "warn/warn_docstring.go", "warn/multifile.go", "warn/types.go", "bzlenv/bzlenv.go"],
  [["running the lints", "warn/warn.go"], ["reading other files", "warn/multifile.go"]],
  ["findings of warn.FileWarnings", "the tree of the linted file"],
  "exhaustive enumeration of files of snippets that trigger every category; oracle: metamorphic relations",
  "all files of <=2 of about 110 (.bzl) / 45 (BUILD) snippets x 5 types of files x every category (thorough: <=3)")
p("C28", "Automatic fixes rewrite exactly the patterns they document, anywhere",
  "Applying the automatic fixes of a file rewrites every occurrence of a deprecated pattern with a documented replacement (ctx.new_file, attr.label(cfg = \"data\"), single_file, non_empty, depset iteration, integer division, native.* in BUILD files, ...) to its replacement, at any depth of nesting in other patterns, expressions and statements, with the arguments and operator precedence preserved, and changes nothing else: the result parses, has all comments, and nothing fixable is left. With a single category enabled only that category's patterns are rewritten.",
  ["programs"], "every nesting of patterns, arguments and contexts",
  "The unit tests fix each pattern with one argument in one context; fixes that nest in each other, or whose argument is of lower precedence than the new context, are not tested.",
  ["warn/warn.go", "warn/warn_bazel_api.go", "warn/warn_bazel.go", "warn/warn_operation.go", "warn/warn_cosmetic.go"],
  [["replacement engine", "warn/warn.go: FixWarnings, fixWarnings, runWarningsFunction"], ["patterns", "warn/warn_bazel_api.go, warn_operation.go, warn_bazel_operation.go"]],
  ["the file after warn.FixWarnings", "findings of warn.FileWarnings that remain"],
  "exhaustive enumeration of pattern terms; oracle: independent term rewriting, compared as neutral syntax trees",
  "150 patterns x 13 x 13 arguments x 35 expression contexts x 14 statement contexts (not all pairs), all pairs and triples of nested patterns, all pairs of statements; all categories together and each alone")

p("C34", "Suggested fixes are the fixes, and suggesting them changes nothing",
  "In suggest mode the findings are those of warn mode; each fixable one has a replacement of a range of the formatted file that gives exactly what formatting the file with only this fix applied gives, which is correct and well-formatted; the file is unchanged after suggesting; and after fixing, the findings that aren't fixable are left.",
  ["programs"], "every file and finding",
  "Unit tests compare the suggestions for one example; fixes that overlap, move statements or interfere with the formatter's rewrites aren't covered.",
  ["warn/warn.go", "build/print.go", "build/rewrite.go"],
  [["suggestions", "warn/warn.go"]],
  ["Replacement of the findings of warn.FileWarnings in ModeSuggest", "build.Format of the file"],
  "exhaustive enumeration of files of snippets that trigger every category; oracle: applying the fix of each finding to a fresh tree",
  "all files of <=2 of about 110 (.bzl) / 45 (BUILD) snippets x 5 types of files x every category (thorough: <=3 in BUILD files)")
p("C40", "Pattern lints report exactly the patterns they document",
  "Each lint about a deprecated or dangerous pattern (attributes, ctx functions, depsets, dictionaries, strings, globs, providers, keyword arguments, native, print, ...) reports every occurrence of the pattern at its line, wherever it is nested and however many others surround it, and reports nothing for similar code that is not the pattern (another object's method, keyword names, local names that shadow the symbol, other arguments). The findings are the same whichever other lints are enabled.",
  ["programs"], "every nesting of patterns, near misses and contexts",
  "The unit tests have a few positive examples per lint; false positives and missed occurrences depend on the combination of context and scope.",
  ["warn/warn_bazel_api.go", "warn/warn_bazel.go", "warn/warn_operation.go", "warn/warn_bazel_operation.go", "warn/warn_cosmetic.go", "bzlenv/bzlenv.go", "warn/types.go"],
  [["patterns", "warn/warn_bazel_api.go, warn_bazel.go, warn_operation.go, warn_bazel_operation.go"], ["scopes and types", "bzlenv/bzlenv.go, warn/types.go"]],
  ["line and category of every finding of warn.FileWarnings"],
  "exhaustive enumeration of pattern terms and near misses; oracle: the multiset of the patterns the term was built from",
  "the cases of C28: 90 patterns and 60 near misses x arguments x contexts x statements, nested two and three deep")

p("C41", "Docstring lints agree with the structure of docstrings and signatures",
  "function-docstring is reported exactly for public functions with at least five statements (comments are none) and no docstring; function-docstring-header exactly when the first line has no text or the second one does; function-docstring-args exactly when a required or started Args: block misses a parameter, documents one that doesn't exist or is called Arguments:; function-docstring-return exactly when a returned value isn't documented; and each finding is at the documented line, for every docstring, line ending and nesting.",
  ["programs"], "every docstring, parameter list and function body",
  "The unit tests have a dozen docstrings; combinations of blocks, indentations, continuation lines, line endings, nested functions and comments between statements aren't covered.",
  ["warn/warn_docstring.go"],
  [["parsing docstrings", "warn/warn_docstring.go"]],
  ["findings of warn.FileWarnings"],
  "exhaustive enumeration of docstrings, signatures and bodies; oracle: independent model of the documented structure",
  "all docstrings of <=4 lines of 23 kinds (thorough: 5) x parameter lists x bodies x public, private, nested x line endings")
p("C42", "Lints for native symbols load exactly the symbols that need it",
  "For every symbol that moved out of Bazel (rules_cc, rules_java, protobuf, rules_android, rules_python, rules_shell, repository rules) the native-* lints report each use of the global name, and each native.X call, that isn't bound to something else, and nothing else. The fix loads exactly the reported symbols from the documented file under the repository's apparent name in MODULE.bazel (includes followed; the legacy name if there's no such module), extends an existing load, never captures a name the file or function uses for something else, keeps everything else, and leaves nothing fixable.",
  ["programs"], "every symbol, use, binding and module file",
  "The unit tests try each symbol once in a file that doesn't bind the name; existing loads, local names, macros that wrap the rule they are named after, and several workspaces in one process aren't tested.",
  ["warn/warn_bazel_api.go", "warn/warn.go", "tables/tables.go", "edit/bzlmod/bzlmod.go"],
  [["usage search and load insertion", "warn/warn_bazel_api.go: notLoadedUsageCheck, insertLoad"], ["apparent names", "edit/bzlmod/bzlmod.go: ExtractModuleToApparentNameMapping"]],
  ["findings of warn.FileWarnings", "the file after warn.FixWarnings"],
  "exhaustive enumeration of files built from uses and bindings; oracle: an independent scope model and a table of symbols written down from the documentation",
  "55 symbols x 29 uses x 14 bindings before or after them x 7 MODULE.bazel files x 5 file types; two uses and two bindings for 4 symbols (thorough: all); all pairs of symbols")

p("C43", "Structure and naming lints report exactly what they document",
  "The lints about the structure of files report exactly the documented cases at their lines, and their fixes change exactly what they have to: misplaced package() calls move up in order, dictionary items get sorted and stay with their comments unless @unsorted-dict-items says otherwise, every occurrence of Skylark outside of URLs in comments and docstrings becomes Starlark, loads of internal files from outside their directory, bad and confusing names, duplicated rule names, positional arguments, statements without effect, missing module docstrings, legacy rule results and nested depsets are reported, and nothing else.",
  ["programs"], "every sequence of statements, dictionary, text, name and label",
  "Each lint has a few examples in its unit tests; positions, order, several occurrences at once, places where comments hang and prefixes of directory names aren't covered.",
  ["warn/warn_cosmetic.go", "warn/warn_visibility.go", "warn/warn_naming.go", "warn/warn_bazel.go", "warn/warn_control_flow.go", "warn/warn_bazel_api.go", "warn/warn_bazel_operation.go", "warn/warn_docstring.go", "build/walk.go"],
  [["package, dictionaries, Skylark", "warn/warn_cosmetic.go"], ["visibility", "warn/warn_visibility.go"], ["names", "warn/warn_naming.go"]],
  ["findings of warn.FileWarnings", "the file after warn.FixWarnings"],
  "exhaustive enumeration of files, dictionaries, texts and labels; oracle: independent models of the documented rules",
  "package-on-top: all files of <=4 of 14 statements; dictionaries of <=4 items of 10 kinds of keys in 15 contexts; texts of <=4 words in 30 places; 120 x 63 packages; 32 names x 38 bindings; files of <=3 of 28 calls; blocks of <=3 of 20 statements (thorough: one more each)")

p("C24", "Buildozer's options, inputs, outputs and exit codes are as documented",
  "The buildozer command applies its commands to exactly the files and rules its targets and options (-types, -k, -eol-comments, -edit-variables, -shorten_labels, -delete_with_comments) select, whichever way the commands reach it (arguments, -f file, -f -, a BUILD file on the standard input, -root_dir, any -numio and -P), writes results where it is told to (files, -stdout, -output_json), runs -buildifier if told to, reports modified files, errors and missing attributes on the standard error, exits with the documented code (0 changed or only printed, 1 usage, 2 errors, 3 nothing changed), and touches no other file. A failing file is left alone, and without -k no command is applied to it.",
  ["programs","configurations"], "every combination of commands, options, targets, files and ways to pass them",
  "The command's shell tests run single options on single files and aren't a part of the unit tests; the combinations of options, outcomes of several files and ways of passing commands decide whether scripts can rely on the tool.",
  ["buildozer/main.go", "edit/buildozer.go", "edit/edit.go", "edit/default_buildifier.go", "file/file.go"],
  [["exit codes, parallel runs, commands files", "edit/buildozer.go"], ["options", "buildozer/main.go"], ["documented codes", "buildozer/README.md"]],
  ["files, standard output and standard error of the buildozer command", "exit code"],
  "exhaustive execution of the real buildozer binary on all combinations; oracle: an independent model of the commands, targets, options and exit codes",
  "18 commands x 8 targets x combinations of <=1 semantic options x 11 ways to call x 5 pairs of files; all pairs of commands on 3 targets with and without -k (thorough: combinations of <=3 options, all ways to call)")

p("C36", "Conversion from Starlark's syntax trees keeps the program and its comments",
  "convertast.ConvFile converts every tree of go.starlark.net's parser to a tree of the build package that stands for the same program: node by node, and after printing it and parsing the text again; comments of statements are kept; it never panics.",
  ["programs"], "every program go.starlark.net's parser accepts",
  "The unit tests convert a few fixed programs; kinds of nodes, literals and nestings they lack are converted to something else, or make the conversion panic.",
  ["convertast/convert_ast.go", "build/print.go", "build/syntax.go"],
  [["conversion", "convertast/convert_ast.go"]],
  ["tree returned by convertast.ConvFile", "text printed for it"],
  "exhaustive enumeration of programs; oracle: comparison of the converted and reparsed trees with the reference tree",
  "the bounded grammar, comment and layout spaces of C01; comments inside of expressions excluded from the claim about texts, bytes literals excluded")

p("C39", "Tree traversals visit every node once; edits replace just what they return",
  "build.Walk, WalkOnce, WalkInterruptable, WalkStatements, WalkPointers, Edit and EditChildren visit exactly the nodes of the tree, each once, parents before their children, with the stack of ancestors; below a node at which the callback stops nothing is visited and everything else is; a node an edit returns takes exactly the place of the old one and nothing else changes.",
  ["programs"], "every syntax tree, and every node at which a traversal is stopped or edited",
  "The unit tests walk one or two files; a kind of child that a traversal forgets hides identifiers from every lint and fix that relies on it.",
  ["build/walk.go", "build/syntax.go"],
  [["traversals", "build/walk.go"], ["node types", "build/syntax.go"]],
  ["calls of the callbacks and their stacks", "tree after an edit"],
  "exhaustive enumeration of trees and stop/edit positions; oracle: the tree's structure by reflection",
  "the bounded grammar of C01, every node as stopping and editing point")

p("C44", "Buildozer's fixes change just what they are documented to change",
  "Each fix of `buildozer fix` (and edit.FixFile) applied to any BUILD file leaves the meaning of everything it isn't about: cleanUnusedLoads and movePackageToTop only remove unused symbols and move statements, removed items are only duplicates or no-ops, merged lists and licenses contain the same items, options and genrule commands mean the same; comments stay; fixes never make the file unparsable; applying a fix twice is the same as once; and a fix for which there is nothing to do changes nothing.",
  ["programs","histories"], "every BUILD file and every combination of fixes",
  "The unit tests give each fix one or two files; attributes of other shapes (quoted options, keyword arguments, comments, several lists) are changed in meaning or dropped.",
  ["edit/fix.go", "edit/default_buildifier.go", "edit/buildozer.go", "edit/edit.go"],
  [["fixes", "edit/fix.go"], ["fix command", "edit/buildozer.go"]],
  ["file after the fix", "success reported"],
  "exhaustive enumeration of files and fixes on the real code; oracle: independent model of each fix on the reference parser's tree",
  "each fix, all fixes together and unknown ones x rules with lists of <=2 (thorough: 3) options or labels, package defaults, genrule commands of <=2 (3) words and expressions of all shapes, with comments; 8 sets of file-level fixes x files of <=3 (4) of 19 statements")

p("C45", "The rule API is a table of the file's rules and their attributes",
  "build.File's Rules, RuleNamed, RuleAt, DelRules and build.Rule's Kind, SetKind, Name, ExplicitName, AttrKeys, AttrDefn, Attr, AttrString, AttrStrings, AttrLiteral, SetAttr and DelAttr behave as a table of the outermost calls of the file in source order with their keyword arguments in order: after any sequence of mutations every query gives what the table has, the unnamed rule of a package has its directory's name, and nothing but what was changed differs in the file or its printed text.",
  ["programs","histories"], "every BUILD file, path and sequence of mutations",
  "The unit tests query one file each; mutations, unnamed rules, nested and computed calls interact.",
  ["build/rule.go", "build/walk.go", "build/print.go"],
  [["rule API", "build/rule.go"]],
  ["answers of all queries", "the tree and its printed text"],
  "exhaustive exploration of histories of mutations on the real code against a table built from the reference parser's tree",
  "22 statements: all files of <=3 (thorough: 4) statements under 3 paths; all histories of <=2 mutations on files of <=2 statements (thorough: 3 on one)")

p("C35", "-tables replaces the tables, -add_tables extends them, and the tools follow",
  "buildifier's and buildozer's -tables replaces the built-in tables with those of the file and -add_tables adds to them, in any combination and wherever the file is (absolute, relative, found above the file, named in the configuration file); formatting and editing then sort lists, order attributes and shorten labels as the effective tables say, denylists included; a file that is missing or malformed is an error and changes nothing; nothing crashes.",
  ["configs","programs"], "every tables file and every way to give it",
  "The unit tests load one or two tables and look at the maps; what a table makes of formatting, and the combinations of entries and of both options, are not run.",
  ["tables/jsonparser.go", "tables/tables.go", "build/rewrite.go", "buildifier/buildifier.go", "buildozer/main.go"],
  [["reading and merging", "tables/jsonparser.go"], ["what tables mean", "build/rewrite.go"]],
  ["files after buildifier and buildozer", "exit codes"],
  "exhaustive enumeration of tables and options with the built binaries; oracle: independent model of the tables' meaning",
  "all combinations of entries of the 9 kinds (quick: up to three entries, and a quarter of the larger ones), each as either option, pairs of small ones, 4 locations, malformed files; 30 rules of 5 kinds")

p("C37", "unused_deps prints commands that remove exactly the unused dependencies",
  "For every Java rule, unused_deps prints commands that remove from its deps exactly those string entries that were direct dependencies of the compile action (their jars' manifests name them) and that the compiler didn't use, after adding what they export, or that move them to runtime_deps if their comment says so; it asks and builds just the given targets with the options given, changes no file, and with missing or broken outputs prints no command and doesn't crash; -extra_action_file writes exactly the unused labels.",
  ["histories","configs"], "every deps list, use by the compiler, manifest and state of the outputs",
  "The unit tests read two params files and a jar; the whole tool, with Bazel behind it, is never run.",
  ["unused_deps/unused_deps.go", "unused_deps/jar_manifest.go", "labels/labels.go"],
  [["tool", "unused_deps/unused_deps.go"], ["manifests", "unused_deps/jar_manifest.go"]],
  ["commands printed", "commands given to Bazel", "files"],
  "exhaustive enumeration of rules and build outputs with the built binary behind a stand-in for Bazel; oracle: independent model",
  "7 forms of labels x 16 uses and manifests x comments, 6 layouts of deps, 4 namings of outputs, 6 of params files, missing and malformed files; pairs of elements (quick: one in 16, thorough: one in 2); rules of external repositories excluded")

p("C46", "The linter is total over its own vocabulary and fixes only what it announces",
  "Linting and fixing with every category never crashes, whatever the program: findings have a category, a message and a place in the file; linting doesn't change the program; fixing changes the file only if a fixable finding was reported, and gives a program that parses.",
  ["programs"], "every program",
  "The unit tests give each category the programs it is about; near misses (the same names with other kinds of arguments, other categories' statements) crash it or make its fix nonsense.",
  ["warn/warn.go", "warn/warn_bazel.go", "warn/warn_bazel_api.go", "warn/warn_bazel_operation.go", "warn/warn_control_flow.go", "warn/warn_cosmetic.go", "warn/warn_docstring.go", "warn/warn_macro.go", "warn/multifile.go", "warn/warn_naming.go", "warn/warn_operation.go", "warn/types.go"],
  [["dispatch and fixing", "warn/warn.go"], ["categories", "warn/"]],
  ["findings", "fixed text"],
  "exhaustive enumeration of programs over the linter's vocabulary on the real code; oracle: invariants and the reference parser",
  "44 functions, 28 methods on 16 bases, 32 keywords, 31 atoms in all pairs and positions, all pairs (thorough: triples) of 88 statements at the top level and in bodies, in the kinds of files")

p("C47", "The linter resolves every name as the language does",
  "In every .bzl file, each use of a name is resolved by the linter's environment to the very variable it denotes in Starlark, with its kind, a definition that binds it and the enclosing function and nodes; names that the file doesn't bind are unresolved; every name is visited once.",
  ["programs"], "every program",
  "The unit tests resolve names in two programs; scoping errors need particular binding positions (else branches, loops, parentheses, comprehension clauses, defaults, nested functions).",
  ["bzlenv/bzlenv.go"],
  [["environments and bindings", "bzlenv/bzlenv.go"], ["users", "warn/warn_bazel_api.go"]],
  ["binding of each name", "kind", "definition", "function", "stack"],
  "exhaustive enumeration of programs on the real code; oracle: go.starlark.net/resolve on the same program",
  "all files of <=2 (a fifth of those of 3) of 46 top-level statements; all functions of 2 (quick: a fifth of 3) of 61 statements with 4 headers, nested and next to other functions; conditions and loops at the top level excluded (not allowed in Bazel)")

p("C48", "Types inferred by the linter are the types at run time",
  "In every straight-line program whose operators are applied to operands of one type, an expression for which the linter infers a type has that type when it is evaluated; the types of literals, constructors, comparisons, operators on them and variables assigned to them are inferred.",
  ["programs"], "every straight-line program",
  "The unit tests annotate a few programs; wrong types need reassignment, shadowing or particular operators, and let lints rewrite correct code.",
  ["warn/types.go", "bzlenv/bzlenv.go"],
  [["inference", "warn/types.go"], ["depset-iteration and integer-division use it", "warn/warn_operation.go"]],
  ["inferred type of each expression", "type of its value"],
  "exhaustive enumeration of programs on the real code; oracle: execution by the go.starlark.net interpreter",
  "90 expressions of 13 types, 10 operators between all pairs of a type; all programs of <=2 (thorough: 3) assignments of any kind to 2 variables, <=3 (thorough: 4) simple ones, each with about 20 probes in loops, comprehensions, lambdas and nested functions; branches that assign, defaults and operators on operands of several types excluded (heuristic by documentation)")

p("C49", "Every rewrite can be disabled or run alone and does only what it is for",
  "Formatting is the rewrites for the file's type, one after another; a set of rewrites (a Rewriter with a RewriteSet, or all but those of -buildifier_disable) changes nothing but what its rewrites are for: parentheses, order of argument classes, order of named arguments, labels, order of sortable lists, line breaks, position, merging and order of loads, use_repo arguments, docstring indentation, octal and float literals. The empty set changes nothing; -allowsort makes exactly the given contexts sortable; unsafesort turns off 'keep sorted' and -allowsort only.",
  ["programs", "sets of rewrites"], "every program, type of file and set of rewrites",
  "The unit tests run all rewrites on golden files, never a subset; buildozer and library users run subsets.",
  ["build/rewrite.go"],
  [["rewrites", "build/rewrite.go"], ["options", "buildifier/buildifier.go"]],
  ["tree before the rewrites", "tree after them, modulo what they may change"],
  "exhaustive enumeration of programs x sets of rewrites on the real code; oracle: canonical trees per rewrite, decomposition laws",
  "all expression, statement, argument, load, list and number spaces of C01 (without layout deviations; thorough: with) x each of the 15 rewrites alone, all but one, all, none; 3 texts x 5 types x <=2 of 16 disabled rewrites x 4 choices of -allowsort")
