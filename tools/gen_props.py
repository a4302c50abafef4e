#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json. Claimed is what lib/registry.py has a check for."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.dont_write_bytecode = True
import registry

TDB = ["src/typedb.cpp", "src/typedb.hpp", "src/scope.hpp", "src/lualib_mewa.cpp", "doc/typedb.md"]
PAR = ["src/lua_run_compiler.cpp", "src/lua_load_automaton.cpp", "src/lexer.cpp", "src/automaton.cpp", "doc/grammar.md"]
GEN = ["src/automaton.cpp", "src/automaton_parser.cpp", "src/automaton_tostring.cpp", "src/mewa.cpp", "doc/grammar.md"]

TV = "TLA+ model (TypeDb.tla) checked with TLC; model histories and recorded API traces validated against it"
LR = "TLA+ model (Lalr.tla, LrMachine.tla) checked with TLC; generated compilers run and compared with the model's runs"
LX = "TLA+ model (Lexer.tla) checked with TLC; token streams of the real lexer validated against the model's"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state))


TRUST = ("Trusted: TLC, the Lua driver that records calls and results, and the specification read as the documentation states it. "
         "Assumes scopes that nest, as the scopes of a syntax tree do.")

prop("C01", "Scoped instances: get_instance returns the value of the innermost covering scope",
     "get_instance(name) returns the value stored by the last set_instance for that name in the innermost scope that covers the current "
     "scope-step and holds one, and nil if there is none; this_instance(name) returns the one stored for exactly the current scope, or nil. "
     "This holds whatever the order in which scopes were visited, values stored or overwritten, and for every scope-step asked about.",
     ["histories"], "every history of scope/step moves, set_instance and queries over nested scopes, in any order of definition",
     "The tests query a handful of fixed scope trees in one order; an answer depends on the order of insertion, on which neighbours exist in the "
     "interval map and on the step asked, a space no list of cases covers.",
     ["src/scope.hpp", "src/typedb.cpp", "src/lualib_mewa.cpp", "doc/typedb.md"],
     [("interval map with up-links to the enclosing interval", "src/scope.hpp ScopedMap"), ("object instances", "src/typedb.cpp TypeDatabase::setObjectInstance/getObjectInstance")],
     TV, "All histories up to a depth over all nested scope families of a small domain, plus random long histories, each answer compared by TLC with the specification. " + TRUST)
prop("C02", "Type definitions: identity, overloads and lookup in exactly one scope",
     "def_type returns a new handle for every (scope, context type, name, parameter list) not defined yet and -1 for one defined already, def_type_as makes an existing "
     "type reachable under a second name with the same rule, and neither changes an existing type. this_type returns the type defined in exactly the current scope with exactly "
     "that name, context and parameters (nil if none), this_types and type lookup by name list every overload once, in every later state.",
     ["histories"], "every history of type definitions, synonyms and lookups over nested scopes, names, contexts and parameter lists",
     "Tests define a few types in one order; sharing of list heads between names, overloads and synonyms only goes wrong for particular orders of definition.",
     TDB, [("type definition", "src/typedb.cpp TypeDatabase::defineType, defineTypeAs"), ("overload chain", "src/typedb.cpp TypeRecord::next"), ("exact scope lookup", "src/typedb.cpp getThisTypes")],
     TV, "All definition histories up to a depth in a small domain, plus random long histories validated by TLC. " + TRUST)
prop("C03", "Reductions: found exactly where their scope and tag set make them visible",
     "get_reduction and get_reductions see exactly the reductions whose scope covers the current scope-step and whose tag is in the tag set asked for; a definition for the same "
     "pair of types in an inner scope hides the outer one there and only there. A second definition of the same pair and tag in the same scope is rejected and changes nothing, and the constructor "
     "and weight returned are those given at the definition.",
     ["histories"], "every history of def_reduction and queries over nested scopes, type pairs, tags and tag sets",
     "Tests hold two fixed reduction graphs; hiding depends on combinations of scope, pair and tag and on insertion order.",
     TDB, [("scoped relation map", "src/scope.hpp ScopedRelationMap"), ("reduction lookup", "src/typedb.cpp TypeDatabase::getReduction, getReductions")],
     TV, "All reduction histories up to a depth in a small domain, plus random long histories validated by TLC. " + TRUST)
prop("C04", "derive_type returns a shortest derivation or says why there is none",
     "derive_type returns a path of visible, selected reductions from one type to the other whose sum of weights is minimal, with the constructors of that path in order, and nil if there is no path. "
     "It reports an ambiguity exactly if two paths share the minimal weight, and never uses more reductions of the counted tags than the limit given.",
     ["inputs", "histories"], "every graph of weighted reductions over nested scopes, every pair of types, tag mask, counting mask and limit",
     "A shortest path search is right or wrong per graph; the tests have two hand-made graphs and fixed masks.",
     TDB, [("best first search", "src/typedb.cpp TypeDatabase::deriveType"), ("ambiguity detection", "src/typedb.cpp deriveType")],
     TV, "Every graph of up to three reductions (four in thorough) over three types, plus random graphs up to seven types; the specification enumerates all simple paths. " + TRUST)
prop("C05", "resolve_type returns all overloads of a name in the nearest context that has it",
     "resolve_type searches the name in the context types and in every type reachable from them by visible, selected reductions, and returns the context with the smallest weight sum that has the name, the path to it and every "
     "overload of the name visible there in the innermost scope that defines it. It reports an ambiguity when two contexts at the same distance have the name and finds nothing otherwise.",
     ["inputs", "histories"], "every set of definitions, context lists, reductions and tag masks",
     "The outcome depends on the whole graph, the nesting of scopes and the context list together; the tests resolve a few names in fixed graphs.",
     TDB, [("name resolution", "src/typedb.cpp TypeDatabase::resolveType"), ("scoped definitions", "src/scope.hpp ScopedMap")],
     TV, "Every small graph and every small definition history of the models, plus random ones, answers compared by TLC. " + TRUST)
prop("C06", "Scope cursor follows scope and step, and a rejected call changes nothing",
     "scope(s) and step(n) set the current scope and step and return the previous ones, scope({a,b}) without a step sets the step to the last one of the scope, and all later definitions and queries use exactly those. "
     "A call with arguments the method does not take (count, type, range) fails with an error. A call that fails, whatever the reason, leaves the cursor and every definition as they were, and the database goes on working.",
     ["histories", "fault_sequences"], "every history in which calls with wrong arguments are mixed with valid calls",
     "Tests call the API with valid arguments only; a half-done rejected call only shows in what later calls return.",
     ["src/lualib_mewa.cpp", "src/lua_parameter.cpp", "src/typedb.cpp", "doc/typedb.md"],
     [("scope and step functions", "src/lualib_mewa.cpp mewa_typedb_scope, mewa_typedb_step"), ("argument checking", "src/lua_parameter.cpp")],
     TV, "Random histories with 20-30 % rejected calls, and with calls that do not fit the declaration of the method, validated by TLC. " + TRUST)
prop("C07", "Scope trees show each definition exactly once, nested as the scopes are",
     "instance_tree, type_tree and reduction_tree show exactly the definitions made, each once in the node of its scope, and a node is a descendant of another exactly if its scope lies inside that one's. A tree keeps showing the definitions of when it was made, whatever is defined afterwards.",
     ["histories"], "every set of definitions over nested scopes, in any order of definition",
     "Trees are built from the interval maps by a traversal that meets siblings, gaps and missing parents; tests print two fixed trees.",
     ["src/scope.hpp", "src/tree.hpp", "src/typedb.cpp", "src/lualib_mewa.cpp", "doc/typedb.md"],
     [("tree building", "src/scope.hpp ScopedMap::getTree, src/tree.hpp"), ("tree access from Lua", "src/lualib_mewa.cpp instance_tree, type_tree, reduction_tree")],
     TV, "Trees of all model histories and of random histories, also shown again after later definitions, compared by TLC with the set of definitions. " + TRUST)
prop("C08", "Types keep name, context, constructor, parameters and scope as defined, for ever",
     "type_name, type_context, type_constructor, type_parameters, type_scope and type_string of a handle return what its definition said, however many types, names and scopes are defined afterwards. "
     "Equal names are the same name and different names never are.",
     ["histories"], "every history of type definitions with any byte strings as names, and every later state",
     "Interning and reallocation go wrong only with particular sets of strings or after growth; the tests have short fixed lists.",
     ["src/typedb.cpp", "src/identmap.hpp", "src/lualib_mewa.cpp", "doc/typedb.md"],
     [("identifier map", "src/identmap.hpp IdentMap"), ("type attributes", "src/typedb.cpp typeToString, typeParameters, typeConstructor, typeScope")],
     TV, "Random histories up to 60 types with nested contexts and parameters validated by TLC. " + TRUST)
prop("C09", "Lexer: longest match, keywords first, then the first declared pattern",
     "At every position the generated compiler takes the longest match over all lexeme patterns and keywords, on a tie the keyword and otherwise the first declared pattern, and passes the matched or selected group's text to the grammar. "
     "White space (bytes up to 32), IGNORE patterns and comments separate tokens and produce none, and a character nothing matches is an error rather than being skipped.",
     ["inputs", "programs"], "every set of lexeme patterns, keywords, ignore patterns and comments and every source text",
     "The test languages use disjoint standard patterns; which pattern wins depends on the pair of lexer and source.",
     ["src/lexer.cpp", "src/lexer.hpp", "src/automaton_parser.cpp", "doc/grammar.md"],
     [("scanner and match", "src/lexer.cpp Lexer::next, matchesTo"), ("activation by first character", "src/lexer.cpp"), ("definition of keywords", "src/automaton_parser.cpp")],
     LX, "Token streams of random lexers on random sources compared with the model. Trusted: TLC and the driver.")
prop("C10", "Every token carries the number of the line it starts on",
     "The line of a node, of a syntax error and of a lexer error is one plus the number of line ends before the token, for tokens after comments, strings, blank lines and indentation of any kind.",
     ["inputs", "programs"], "every source text with any mix of line ends, comments, tokens spanning lines",
     "Tests look at a few line numbers of simple sources.",
     ["src/lexer.cpp", "src/lua_run_compiler.cpp"], [("line counting", "src/lexer.cpp Scanner::next, skip"), ("node lines", "src/lua_run_compiler.cpp")],
     LX, "Line numbers of all tokens of random sources with comments and multi-line tokens compared with the model. Trusted: TLC and the driver.")
prop("C11", "Off-side rule: opening and closing tokens balance for every source",
     "With INDENTL an opening token is issued when a line is indented deeper than the innermost open block, one closing token for each block a shallower line leaves, and a new-line token for each line; every opened block is closed "
     "when the source ends. Tabs count as declared, and blank lines and comment lines change nothing.",
     ["inputs"], "every source text, with any indentation of its lines, tabs, blank lines, comments and missing last line end",
     "Tests have two well-formed indented sources; dedents between levels, comments and ends of source are not in them.",
     ["src/lexer.cpp", "doc/grammar.md"], [("indentation tokens", "src/lexer.cpp Lexer::next, IndentLexems")],
     LX, "All sources of a small alphabet up to a length and random ones compared with the model. Trusted: TLC and the driver.")
prop("C12", "A generated compiler accepts exactly its language and builds its derivation",
     "For every grammar mewa accepts, the generated compiler accepts exactly the sentences of the grammar and calls back the tree of a derivation of the source: the nodes are the productions' calls with their arguments, and the lexemes in source order.",
     ["programs", "inputs"], "every grammar (recursion, empty productions, hidden left recursion, unit cycles excluded by conflicts) and every token sequence",
     "Tests compile a few fixed languages and a few programs; the table construction must be right for every grammar and input.",
     PAR, [("LALR(1) table construction", "src/automaton.cpp Automaton::build"), ("parser loop", "src/lua_run_compiler.cpp luaRunCompiler"), ("table loader", "src/lua_load_automaton.cpp")],
     LR, "Random and enumerated small grammars and all short inputs plus random long ones. Trusted: TLC and the driver.")
prop("C13", "A grammar is rejected for conflicts exactly if it is not LALR(1)",
     "Grammar generation fails with a conflict message if two actions of the LALR(1) automaton contradict and no priority or associativity decides, and it succeeds if there is no such state. No table with an arbitrarily chosen action is ever written.",
     ["programs"], "every context-free grammar, with and without priorities",
     "Two hand-made conflict grammars are tested; look-ahead computation goes wrong on particular combinations of empty and shared prefixes.",
     GEN, [("look-ahead closure", "src/automaton.cpp"), ("conflict detection", "src/automaton.cpp Automaton::build")],
     LR, "Verdicts for random and enumerated small grammars compared with exact LALR(1) look-aheads; two recorded findings (LK1, LK2) where mewa over-approximates. Trusted: TLC and the driver.")
prop("C14", "Priorities and associativity decide conflicts as declared",
     "Where operators have priorities the higher one binds stronger, among equal ones L associates to the left and R to the right, and the tree of every expression follows from these rules alone. A conflict that priorities leave undecided is reported.",
     ["programs", "inputs"], "every operator table (binary, prefix, postfix; priorities, associativities) and every expression",
     "The tests have one operator table and a few expressions.",
     GEN + ["src/lua_run_compiler.cpp"], [("priority resolution", "src/automaton.cpp")],
     LR, "Random operator grammars, all short and random long expressions. Trusted: TLC and the driver.")
prop("C15", "Scopes and steps of the tree nest and number nodes in source order",
     "A production with {} carries the scope from the step at its begin to one past its end, one with >> the step reached, scopes of nested productions nest and disjoint ones do not overlap, and steps count the marked productions in order of completion.",
     ["programs", "inputs"], "every grammar with scope and step marks and every input",
     "Tests print a few scopes; the begin of a scope depends on parser states and on empty productions.",
     PAR, [("scope counter", "src/lua_run_compiler.cpp"), ("scope marks", "src/automaton_parser.cpp")],
     LR, "Scopes of all nodes of all runs of random marked grammars compared; nesting checked as an invariant of the model. Trusted: TLC and the driver.")
prop("C16", "Root nodes are processed in source order with the declared function and argument",
     "After the source is parsed each top node's function is called exactly once, in source order, with the node, the argument object of the grammar if it has one and the options if given. A failing function ends the run with its error.",
     ["programs", "inputs", "histories"], "every grammar and input, every number of root nodes, with and without arguments and options",
     "Tests have a single root node with one kind of argument.",
     ["src/lua_run_compiler.cpp", "doc/grammar.md"], [("root calls", "src/lua_run_compiler.cpp")],
     "TLA+ model (LrMachine.tla, Run.tla) checked with TLC; recorded calls compared with the model's", "Recorded calls of random runs compared with the model. Trusted: TLC and the driver.")
prop("C17", "The order of declarations in a grammar file does not change the compiler",
     "Lexemes, comments, ignores, INDENTL and productions may be declared in any order relative to each other; the compiler generated behaves the same as long as the order among patterns is the same.",
     ["programs", "configurations"], "every grammar and every interleaving of its declarations",
     "All test grammars declare lexemes before productions.",
     ["src/automaton_parser.cpp", "src/lua_load_automaton.cpp", "src/lexer.cpp"], [("token ids", "src/automaton_parser.cpp, src/lexer.cpp")],
     LR, "The same grammars printed with shuffled declarations. Trusted: TLC and the driver.")
prop("C18", "A syntax error is reported at the first token that continues no sentence",
     "For a source that is no sentence the compiler stops with a syntax error naming the first token (and its line) with which the tokens read so far are no prefix of a sentence, and listing as expected only tokens the parser can proceed with.",
     ["programs", "inputs"], "every grammar and every token sequence outside its language",
     "Tests have one syntax error.",
     PAR, [("error reporting", "src/lua_run_compiler.cpp")],
     LR, "Errors of all short and random inputs compared with the model. Trusted: TLC and the driver.")
prop("C19", "Ill-formed grammars are rejected, well-formed ones are not",
     "A text with unresolved or ambiguous names, nonterminals that are not referenced, productions given twice, a start symbol that is referenced or defined twice, improper patterns, priorities or commands, or tokens where "
     "none of the kind can stand, is rejected by mewa (with -g, -l, -s or none) with a message, the line of the first token that is wrong where it is a single one, a failure status and nothing written; every other "
     "text (conflicts aside, C13) is accepted.",
     ["programs"], "every sequence of tokens of the grammar language, with any white space and comments between",
     "Tests run only well-formed grammars.",
     ["src/automaton_parser.cpp", "src/mewa.cpp", "src/lexer.cpp", "doc/grammar.md", "doc/errorcodes.md"], [("grammar checks", "src/automaton_parser.cpp parseLanguageDef")],
     "TLA+ machine (Grammar.tla) reading token by token, checked with TLC for its laws; its verdicts compared with the real generator's",
     "All texts of the model up to 5 (6) tokens of a small alphabet and random grammars with up to two mutations. Trusted: TLC and the tokens rendered as text.")
prop("C20", "compiler:run writes exactly the target template filled with the printed sections",
     "A run of a compiler that succeeds writes the target template with each {name} replaced by the text printed into the section of that name in this run, in the order printed (print is the section Code; Source is the source "
     "file, Triple the name of the target file without directories and extension), or by nothing if there is no such section and the name is an identifier of two or more characters; all other text, braces included, is kept. "
     "It starts empty whatever earlier, enclosing or nested runs of this or other compilers printed or how they failed. A run that fails changes no output file. A run fails with the error of "
     "the operating system if its source or template cannot be read or if its output or debug output cannot be written completely, to a file or to a standard stream. "
     "After each run print, print_section and debug are what they were before it.",
     ["histories", "fault_sequences"], "every template, every sequence and nesting of successful and failing runs on any number of compilers",
     "Tests run one compiler once per process with one template.",
     ["src/lualib_mewa.cpp", "src/lua_run_compiler.cpp", "src/strings.cpp", "src/fileio.cpp", "doc/libmewa.md", "doc/intro.md"], [("run", "src/lualib_mewa.cpp mewa_compiler_run"), ("template mapping", "src/strings.cpp template_format")],
     "TLA+ machine (Run.tla) of nested runs, sections and files, its laws checked with TLC; its histories and random ones run by the real module and what they leave compared step by step with the machine by TLC",
     "All histories of 5 (6) steps and 2 (3) runs of the model (sampled for the replay) and random ones of up to 60 steps and 4 nested runs, some failing, with missing files, directories and full devices as files and standard streams. Trusted: TLC and the driver. Zero bytes in templates are out of scope.")
prop("C21", "The language description (-l) states the grammar as declared",
     "For every grammar accepted, mewa -l prints a Lua table with the settings and exactly one rule for each lexeme, ignored pattern, comment, indentation, bad token and production, in the order declared within its kind, with "
     "names, pattern, selection, priority, right side, scope, call, line and the attributes (@name) of the comments before the declaration as written there; reserved attribute names are rejected. The table of mewa -g has the same "
     "settings and loads as Lua; the module of mewa -s declares each function called once.",
     ["programs"], "every accepted grammar with every placement of comments, white space and attributes, declarations with attributes starting on lines of their own",
     "One fixed grammar without indentation and almost no attributes is described in the tests.",
     ["src/languagedef_tostring.cpp", "src/automaton_parser.cpp", "src/automaton_structs.cpp", "src/mewa.cpp", "doc/bridges.md"], [("description", "src/languagedef_tostring.cpp"), ("attributes", "src/automaton_parser.cpp parseLanguageDecoratorMap")],
     "TLA+ machine (Grammar.tla) that records the declarations it reads; TLC compares the description printed with them", "Random grammars with random layout, comments and attributes. Trusted: TLC, the driver and the tokens rendered as text.")
prop("C22", "Size and nesting of source and grammar change nothing but the time",
     "However long the source, deep its nesting or large the grammar and its tables, the compiler accepts the same language, builds the same trees and reports the same errors as for small ones, up to the memory available. "
     "The generator accepts grammars of up to 511 productions of up to 15 symbols, 255 nonterminals, 1023 terminals, 31 priorities and 4095 states, and reports which of these limits is exceeded.",
     ["inputs", "programs"], "every length and depth of source, every number of productions, terminals and states",
     "The tests' sources are a few lines and the grammars have at most a hundred productions; the packed tables are never filled.",
     PAR + ["src/automaton.hpp"], [("parse stack", "src/lua_run_compiler.cpp"), ("table encoding", "src/automaton.hpp, src/lua_load_automaton.cpp"), ("limits", "src/automaton.cpp Automaton::build")],
     "TLA+ closed forms (Sizes.tla) of grammars, sources and trees for all sizes, tied to the parser of LrMachine.tla on small sizes; what the real generator and compiler do compared with them by TLC",
     "17 families: small sizes at random, each limit and one more, and sources of up to 1e5 (5e5) words or nested 1e4 (5e4) deep. Trusted: TLC and the driver.")
prop("C23", "mewa.tostring shows a Lua value completely, as an expression of the same value",
     "For every value made of tables with string and number keys, strings, numbers and booleans, the text mewa.tostring(v, depth, indent) returns is a Lua expression that evaluates to v, with every table at the maximum "
     "depth (1 is v itself, 0 no limit) replaced by '...' and nothing else left out: strings byte by byte, numbers to 14 digits, integers up to 9e15 exactly. Cyclic tables are shown to the depth asked for. "
     "Equal values give equal texts in whatever order they were built, and a text without indentation is one line.",
     ["inputs"], "every tree of Lua values, cyclic ones included, every depth and both layouts",
     "Tests print a few fixed tables; what goes wrong depends on the combination of keys in a table, single bytes of a string or the range of a number.",
     ["src/lua_serialize.cpp", "src/lualib_mewa.cpp", "doc/libmewa.md"], [("serialization", "src/lua_serialize.cpp"), ("arguments", "src/lualib_mewa.cpp mewa_tostring")],
     "TLA+ model (LuaValue.tla) checked with TLC; its values and random ones shown by the real module, texts read back and validated with TLC",
     "All values of the model up to 2 or 3 entries, random trees and cyclic tables. Trusted: TLC, the driver and Lua's own reader of expressions. Functions, userdata and keys other than strings and numbers are out of scope (documented as not serialized).")
prop("C24", "Databases and compilers do not influence each other",
     "What one type database or compiler returns depends on the calls made to it alone, however many exist at the same time, how calls to them interleave and whether others are dropped and collected as garbage.",
     ["histories", "schedules"], "every interleaving of calls on several databases and of runs of several compilers with creations, drops and garbage collections",
     "Tests create one of each per process.",
     ["src/lualib_mewa.cpp", "src/lua_object_reference.hpp", "src/lua_userdata.hpp", "src/typedb.cpp"], [("userdata and environments", "src/lualib_mewa.cpp, src/lua_userdata.hpp"), ("object references", "src/lua_object_reference.hpp")],
     "TLA+ models TypeDb.tla and LrMachine.tla checked with TLC; recorded interleavings of databases, and of runs of compilers, validated against them one by one",
     "Random interleavings of two to four databases with collections, each projected trace validated by TLC; groups of 2 to 5 compilers created, run, dropped and collected in one process, each run compared with LrMachine. " + TRUST)

prop("C25", "Floating-point constants for LLVM are the number meant, and valid floats",
     "mewa.llvm_double_tohex(x) is the hexadecimal form of the bits of x; mewa.llvm_float_tohex(x) that of a 32 bit float nearest to x written as a double, the only form LLVM accepts for a float: "
     "zeros and infinities keep their sign, subnormal floats, underflow and overflow included; NaN stays NaN.",
     ["inputs"], "every double",
     "No test calls them; what goes wrong depends on the range and the last bits of the number.",
     ["src/lualib_mewa.cpp", "doc/libmewa.md"], [("conversion", "src/lualib_mewa.cpp mewa_llvm_float_tohex, mewa_llvm_double_tohex")],
     "TLA+ specification (Ieee.tla) of rounding between formats, checked with TLC against the nearest number for all numbers of small formats; the real functions' results compared with it by TLC",
     "1.3e4 (1.6e5) numbers at the borders of the formats and of rounding, and at random. Both floats are accepted for a number in the middle. Trusted: TLC and the driver.")

prop("C26", "The command line of mewa: options, what is written where, and templates",
     "The options of mewa mean the same in any order, in their short and long form and with the value attached or as the next argument, the last of several values counts. A run writes exactly one of script (-g), stubs (-s) and "
     "language description (-l), or nothing without any of these, to the file of -o or to the standard output, and the debug output (-V, -d) to the error output or the file of -d. The script is the template of -t (a default one else) "
     "with every %typesystem%, %language%, %cmdline%, %luabin% and %automaton% replaced, all other text kept. Unknown, contradicting, incomplete or missing arguments, and files that cannot be read or written completely, "
     "give a message and a failure status and leave the output file unchanged.",
     ["inputs", "configurations", "fault_sequences"], "every sequence of arguments, template and state of the files",
     "Tests run a few fixed command lines; the rest is combinations of options, orders, forms and failures.",
     ["src/mewa.cpp", "src/fileio.cpp", "MANPAGE"], [("arguments, templates", "src/mewa.cpp main, mapTemplate"), ("files", "src/fileio.cpp writeFile")],
     "TLA+ specification (Cli.tla) of the reader of the arguments, the effects of a run and the replacement in templates, checked with TLC; runs of the real program on sequences of arguments of the model and random ones judged by TLC",
     "All sequences of up to 3 (4) arguments of a small alphabet in the model, 1500 (2e4) of them and 4e3 (4e4) random ones with random grammars, templates and files run. Texts of mewa -s, -l, the table and the debug output are taken from reference runs (C19, C21 decide them). "
     "Unwritable: a missing directory, a directory, a full device. Not covered: values that are empty, placeholders that overlap, '--output FILE' without '='. Trusted: TLC and the driver.")

prop("C27", "mewa.stacktrace lists the functions being executed",
     "mewa.stacktrace(depth, ignore) lists the functions called and not ended when it is called, the innermost first, down to the one called by C (pcall, a compiler run, a coroutine) or the main chunk, each with the line its definition "
     "starts at, its file and its name, without those whose name contains a string of the list ignore, and at most depth of them. It does not fail whatever the stack.",
     ["inputs", "programs"], "every stack of calls, depth and list of names",
     "No test calls it; what goes wrong depends on the functions on the stack and where they are defined.",
     ["src/lua_parameter.cpp", "doc/libmewa.md"], [("trace", "src/lua_parameter.cpp pushStackTrace")],
     "TLA+ specification (StackTrace.tla) of calls and returns and of the trace, checked with TLC; traces taken in generated programs with random calls judged by TLC",
     "All histories of 4 (6) calls and returns of the model by shape, and 400 (6000) random ones of up to 300 with functions in several files of all kinds of headers, long paths, chunks without a file, protected calls and coroutines. "
     "The name of local and assigned functions only has to contain the name; the name of chunks and of functions without a file is not decided. Not covered: tail calls, more than 150 calls deep. Trusted: TLC and the driver.")


prop("C28", "The debug output of a compiler shows every step of the parser",
     "The debug output of compiler:run shows in order, one line per step, what the parser does: Shift with the token, its value and line, Reduce with the number of elements, the nonterminal, the look-ahead token, line and call, "
     "Accept, or Error with the token of a syntax error, and after the parse each root call with the function and what it returned. The state numbers shown are those of a stack machine: read this way, they are "
     "a renaming of the states of the LALR(1) automaton. Asking for debug output changes neither the calls made nor the errors reported.",
     ["inputs", "programs"], "every grammar and source text",
     "Tests compare the debug output of a few fixed programs; the steps differ with each grammar, source and error.",
     ["src/lua_run_compiler.cpp", "doc/libmewa.md"], [("steps", "src/lua_run_compiler.cpp printDebug*, luai_run_compiler"), ("calls", "src/lua_run_compiler.cpp callLuaFunction")],
     "TLA+ specification (LrMachine.tla) of the parser as a state machine with a history variable of its steps, checked with TLC; debug outputs of the real parser on random grammars and sources judged by TLC step by step",
     "435 (7200) random grammars with conflicts, priorities, calls, scopes and steps, 11–45 sources each with errors in tokens and syntax, identifiers up to 5000 characters. Reductions on look-aheads mewa adds (LK1–LK3) may be missing "
     "or additional before an error; quotes in arguments are not compared. Known finding DT1: the first step at the end of the source is not shown. Trusted: TLC and the driver.")


prop("C29", "The error of a function is the error of the compiler run",
     "If a function called on a root node fails, the run ends there with its error: an error written in the form of the errors of mewa, e.g. one of a nested run or of a call of the type database, is reported with the same code, "
     "argument and, if it has one, location; any other error as a Lua runtime error with its text complete, whatever it contains and however long it is; an error that is no text as a Lua runtime error without text. "
     "A run with a failing function never succeeds and never reports nothing.",
     ["inputs", "programs"], "every error value a function can raise",
     "Tests have a few fixed errors; losses depend on the length, the characters and the likeness to an error of mewa.",
     ["src/error.cpp", "src/error.hpp", "src/lua_run_compiler.cpp", "src/lualib_mewa.cpp"], [("errors as text", "src/error.cpp parseError, map2string"), ("calls", "src/lua_run_compiler.cpp callLuaFunction, lua_pcall_errorhandler")],
     "TLA+ specification (Errors.tla) of the text of errors, its reading and the error of a run, checked with TLC; errors of runs with failing functions judged by TLC",
     "Laws of reading and writing on all texts of up to 3 (4) pieces; 4000 (60000) errors: texts of up to 3000 bytes, texts of errors of mewa and changed ones, values that are no text, errors of Lua in chunks of all kinds of names, of nested runs and of calls of the type database. "
     "Not covered: zero bytes, file names with colon and blank, line numbers over 9 digits. Trusted: TLC and the driver.")

prop("C30", "The report of the generator shows the automaton it writes",
     "The debug output of mewa -g (-d) shows the terminals, nonterminals and productions of the grammar, its LR(0) states as the canonical collection of item sets, for each item the look-ahead tokens and what is done with it, "
     "the calls with their arguments, the number of conflicts solved by priority, and the action and goto tables, whose states and actions are those the compiler written goes through. "
     "Each conflict message names a token and productions that contradict each other in a state, and no such state and token is left out.",
     ["inputs", "programs"], "every grammar and every source",
     "Tests compare the report of one grammar with a stored one; wrong items, look-aheads, priorities or missing messages depend on the shape of the grammar, its number of states and the length of its names.",
     ["src/automaton.cpp", "src/automaton_structs.hpp", "src/automaton.hpp", "src/lua_run_compiler.cpp", "src/mewa.cpp"],
     [("report", "src/automaton.cpp print*, Automaton::actionString"), ("messages", "src/automaton.cpp getStateTransitionString, getShiftNodes, getReductionDef, insertAction"), ("items", "src/automaton_structs.hpp ProductionDef, Priority")],
     "TLA+ specification (Report.tla, over Lalr.tla) of the report as an automaton walked in parallel with the LR(0) automaton of the grammar, checked with TLC; reports, messages and debug steps of the real generator and compiler judged by TLC",
     "900 (20000) grammars: structured, of operators with priorities, random, with empty productions, with long names and arguments, enumerated. Look-aheads between the exact ones and those of the recorded findings (LK1, LK2). "
     "Of completed items with the same look-ahead label in one state only the first is shown by mewa (allowed). Trusted: TLC, the reader of the report and the driver.")


prop("C31", "mewa.compiler accepts exactly what describes a compiler",
     "mewa.compiler accepts a table exactly if it is a description as mewa -g writes it: the version is MAJOR.MINOR, with anything after a further dot, and of no newer major version (else #447, #448, #449), every entry known has the "
     "type declared (else #581, #582, naming the table), every call has a name and a function, and one with an argument named has its object (else #583, #584, naming it). Entries of unknown names and the order of entries "
     "have no effect: descriptions that mean the same compile the same. Nothing else is refused, and no such table crashes it.",
     ["inputs", "programs"], "every table with the entries of a description missing, added or changed, read in any order",
     "Tests load the descriptions the generator writes; refusals depend on which of many entries is wrong, on the numbers in the version and on the order in which Lua goes through a table.",
     ["src/lualib_mewa.cpp", "src/lua_load_automaton.cpp", "src/error.cpp", "src/lexer.cpp"],
     [("reading", "src/lua_load_automaton.cpp luaLoadAutomaton, parse*; src/lualib_mewa.cpp mewa_new_compiler"), ("version", "src/lua_load_automaton.cpp parseVersion"), ("refusals", "src/error.cpp Error::code2String")],
     "TLA+ specification (Load.tla) of descriptions read entry by entry in any order, with refusals and meaning, checked with TLC on all small tables; tables given to the real mewa.compiler judged by TLC",
     "Model: all small tables. 2500 (40000) descriptions of three compilers with 1-3 changes (versions, types, keys, missing and additional entries), those accepted run on sources. Not covered: wrong integers in action and goto tables "
     "(not consistent with each other: the compiler is not run), texts as keys that are numbers, invalid regular expressions, gaps in lists of texts. Trusted: TLC and the driver.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
            f.write(json.dumps(o) + "\n")
    m = {"version": 1, "setup_cmd": "python3 lib/mewabuild.py", "checks": [], "not_applicable": []}
    for p in P:
        if p["id"] in registry.CHECKS:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"],
                                "thorough_cmd": "python3 check.py %s thorough" % p["id"], "technique": p["technique"],
                                "level": "model_checking", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "no check built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
