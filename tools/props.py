"""The properties. `python3 tools/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS

P = []


def prop(id, title, statement, over, quant, why, files, mech, note, technique, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  note=note, technique=technique, observe=observe or []))


T, E = "src/token.cpp", "src/exception-handler.cpp"
S, F, PA, O = "src/simfil.cpp", "src/function.cpp", "src/parser.cpp", "include/simfil/operator.h"
MM = "src/model/model.cpp"

prop("C01", "Tokenising follows the documented language for every input",
     "For every byte string, splitting a query into tokens either yields exactly the tokens the language defines, in order and "
     "by longest match, with their kinds (keywords in any letter case) and values and one end marker at the end, or it "
     "raises an error. Text that is not part of the language (unknown characters including NUL and a lone '!', "
     "malformed numbers, unterminated strings, an unfinished escape) is always rejected, and nothing of a query is ever silently dropped.",
     ["inputs"], "every byte string as query",
     "Tests sample some forty hand-picked spellings; longest-match and rejection are statements about all byte strings and all token neighbours.",
     [T, "include/simfil/token.h"],
     [("tokenize", T), ("scanNumber / scanStringLiteral / scanWord / scanSyntax", T)],
     "Held on all strings of up to 3 characters over a 46 character alphabet plus hundreds of thousands of generated inputs, "
     "against an independent reference lexer, under ASan+UBSan. Escaped keywords (\\and) and floats beyond 1e+-290 are not judged.",
     "online comparison with a reference lexer over generated and exhaustive short inputs, ASan/UBSan", ["tokenize()"])
prop("C02", "Numeric literals denote exactly the written number or are rejected",
     "Every decimal (up to 2^63-1), hexadecimal or binary (up to 64 bits, two's complement) integer literal denotes exactly that "
     "integer, in any letter case and with any number of leading zeros, and every literal with a decimal point or non-zero decimal exponent denotes that real number as a "
     "double up to rounding error. A number that is out of range or malformed (digit not in base, letter or second "
     "decimal point behind a number, missing digits after a base prefix or exponent mark, fraction or exponent on a non-decimal "
     "number) is an error, never another value.",
     ["inputs"], "every numeric literal, in every token context",
     "Tests check about 25 literals; none of them is near a limit of 64 bits or has more than a few digits.",
     [T], [("scanNumber", T)],
     "Held on about 10^5 literals per kind built from known values of all magnitudes; doubles compared with a relative tolerance of 1e-12.",
     "value oracle over generated literals (exact integers, long double), ASan/UBSan", ["tokenize()"])
prop("C03", "Every text survives being written as string, regex or escaped word",
     "Any text written as a quoted string with its quote and backslashes escaped (and newline, tab and carriage return optionally "
     "as \\n, \\t, \\r), as a raw string or regular expression literal with only its quote escaped (all other backslashes are kept verbatim), or as a word with its special "
     "characters escaped is read back as exactly one token carrying exactly that text. Unterminated literals are errors.",
     ["inputs"], "every text of arbitrary bytes, each quote style and prefix spelling, any neighbouring tokens",
     "Tests try about 20 literals; escaping must be loss-free for every byte sequence and every run of backslashes and quotes.",
     [T], [("scanStringLiteral", T), ("scanWord", T)],
     "Held on generated texts (all single bytes, runs of backslashes/quotes, random bytes) in random contexts. A text ending in a backslash has no raw spelling and is skipped there.",
     "round-trip oracle over generated texts, ASan/UBSan", ["tokenize()"])
prop("C04", "Every token knows exactly where it came from",
     "The locations of the tokens of an accepted query are non-empty, in bounds, ascending and disjoint, and everything between "
     "them is whitespace. The slice of the query a location denotes, including prefixes such as re or 0x, re-tokenises to the same single token.",
     ["inputs"], "every accepted query",
     "One test checks locations of one five-token query without literals that have prefixes or escapes.",
     [T, "include/simfil/token.h"], [("Token::begin/end", "include/simfil/token.h"), ("Scanner::pos", T)],
     "Held on generated token sequences with hostile whitespace; locations also compared with the reference lexer.",
     "structural invariant monitor over token locations, ASan/UBSan", ["tokenize()"])
prop("C05", "Any text compiles to an expression or a reported error, safely",
     "Compiling any byte string, in every combination of compile options, either returns an expression or raises a standard exception; it never crashes, hangs, or invokes "
     "undefined behaviour. A compiled expression can be rendered to text, and a failed compilation leaves the environment as usable as before.",
     ["inputs", "configurations"], "every byte string and every combination of the compile options (nesting depth up to 200)",
     "Tests compile about 300 well-formed queries and a handful of errors; memory safety quantifies over all texts.",
     [PA, S, T], [("compile", S), ("Parser::parsePrecedence", PA), ("PrefixParselet / InfixParselet implementations", S)],
     "Held on generated, mutated and hostile texts under ASan+UBSan with hang detection.",
     "sanitizer-monitored fuzzing with outcome, rendering and environment-usability oracles", ["compile()", "Expr::toString()"])
prop("C06", "Keywords, functions, constants and types are case-insensitive",
     "Changing the letter case of keywords, word operators, function names, constants, cast type names and literal prefixes of a "
     "query changes neither whether it compiles nor its results. Field names match document keys in any letter case, while the letter case of strings, symbols and results is kept.",
     ["inputs", "programs"], "every query and every re-spelling of its case-insensitive words",
     "Tests check keyword tokens and one function in a few spellings.",
     [T, S, "include/simfil/environment.h"], [("keyword table", T), ("CaseInsensitiveCompare", "include/simfil/environment.h"), ("CastParser", S)],
     "Metamorphic: held on generated queries re-spelled at random, compared by results on random documents.",
     "metamorphic monitor over re-spelled queries, ASan/UBSan", ["compile()", "eval()"])
prop("C07", "Operators group by the documented precedence table",
     "A query without parentheses means the same as the fully parenthesised query obtained from the documented precedence table with left-to-right "
     "grouping of binary operators of equal precedence.",
     ["inputs", "programs"], "every operator expression",
     "Tests check about 20 operator pairs; the table defines the grouping for every sequence of operators.",
     [PA, S], [("Parser::parsePrecedence", PA), ("Precedence", "include/simfil/parser.h"), ("parselets", S)],
     "Held on random operator sequences: results and compiled structure equal those of the parenthesised form produced by an independent precedence-climbing printer.",
     "metamorphic monitor: implicit vs explicit grouping, ASan/UBSan", ["compile()", "eval()"])
prop("C08", "Folding constants at compile time never changes results",
     "Whether an operand is written as a constant or comes from the document with the same value does not change the results of a "
     "query: a constant sub-expression yields the same values as the unfolded expression (errors may surface at compile time instead), and nothing that "
     "depends on the document is ever folded.",
     ["inputs", "programs"], "every query and document",
     "Tests compare folding of some constant expressions with expected text only.",
     [S, F], [("simplifyOrForward", S), ("Context::Compilation phase, Undef values", S), ("MultiConstExpr", S)],
     "Metamorphic: literals are replaced by document fields of equal value and results compared; also compared with a non-folding reference interpreter.",
     "metamorphic monitor: constants vs document values, ASan/UBSan", ["compile()", "eval()"])
prop("C09", "Scalar operators compute the documented values for all operands",
     "Every operator and cast on scalar operands yields the documented value and type: 64-bit wrap-around integer arithmetic, double arithmetic, string concatenation "
     "and ordering, and/or returning an operand, comparisons of incompatible types false and != true. Divisions by zero and "
     "unsupported operand types are reported as errors; no operand value causes undefined behaviour.",
     ["inputs"], "every operator with every combination of scalar operand types and values, including the limits",
     "Tests use small operands; overflow, shift, cast and mixed type combinations are a product space.",
     [O, S, "src/value.cpp", "include/simfil/value.h"], [("OperatorXxx, UnaryOperatorDispatcher, BinaryOperatorDispatcher", O)],
     "Held on the full product of operator x operand type with boundary and random values, against an independent operator table.",
     "reference operator table over generated operands, UBSan/ASan", ["compile()", "eval()"])
prop("C10", "Paths, wildcards, sub-queries and subscripts select the right nodes",
     "For every document and every query built from fields, '_', '*', '**', subscripts, sub-queries and operators, the results are exactly "
     "those the language guide defines, in document order and with nothing lost or duplicated. A path without a match "
     "yields null.",
     ["inputs", "programs"], "every document and path query",
     "Tests use two small documents and about 60 paths; nesting and combination of path operators is unbounded.",
     [S, "src/model/nodes.cpp"], [("PathExpr, FieldExpr, WildcardExpr, AnyChildExpr, SubExpr, SubscriptExpr", S)],
     "Held on random documents x random queries, against an independent reference interpreter over the JSON document.",
     "reference interpreter over random documents and queries, ASan/UBSan", ["eval()"])
prop("C11", "Built-in functions compute what the guide documents",
     "any, each/all, count, trace, range, arr, split, select, sum, keys and re return the documented values for every argument list: "
     "counts equal the number of non-false values, slices are exactly the requested values, splitting then joining restores the text, sums equal the left-to-right fold, "
     "ranges contain exactly their members. Wrong argument counts are errors.",
     ["inputs", "programs"], "every built-in function with every argument list",
     "Tests call each function with a handful of small arguments.",
     [F, "src/types.cpp"], [("AnyFn, EachFn, CountFn, TraceFn, RangeFn, ArrFn, SplitFn, SelectFn, SumFn, KeysFn, ReFn", F)],
     "Held on random argument lists and document values against direct re-implementations.",
     "reference implementations and algebraic oracles per function, ASan/UBSan", ["eval()"])
prop("C12", "Evaluation is safe, repeatable and does not modify its inputs",
     "Evaluating any compiled query on any valid document either returns values or raises a standard exception, without crash, hang or "
     "undefined behaviour. It leaves the document, the string pool and the expression unchanged, and evaluating again, in "
     "another environment sharing the pool, or after recompiling gives the same outcome.",
     ["inputs", "programs", "histories"], "every compiled query, every document, every sequence of evaluations",
     "Tests evaluate each query once and look at the result only.",
     [S, F, O, "src/model/nodes.cpp", "src/overlay.cpp"], [("eval", S), ("StringPool::get (lookup only)", "src/model/string-pool.cpp")],
     "Held on random, partly ill-typed queries x documents; snapshots of document and pool compared before and after.",
     "sanitizers plus snapshot and repetition monitors", ["eval()", "StringPool", "ModelPool"])
prop("C13", "A consumer can stop evaluation at any result",
     "When the receiver of results asks to stop, no further result is delivered, from whatever operators and functions the query is built of. The "
     "results delivered before are a prefix of the full result list, and the evaluation remains usable afterwards.",
     ["programs", "fault_sequences"], "every query and every position at which the consumer stops",
     "Tests never stop an evaluation; only any(...) does so internally.",
     [S, F, "include/simfil/result.h"], [("Result::Stop forwarding", S), ("LambdaResultFn", "include/simfil/result.h")],
     "Held on random queries, stopping after every k-th result.",
     "trace monitor on the result callback with injected Stop", ["Expr::eval(ctx, value, ResultFn)"])
prop("C14", "Concurrent evaluation equals sequential evaluation, without races",
     "Any number of threads may evaluate the same compiled expressions on the same documents with the same environment at the same time, and may compile queries that add names to a shared string pool. "
     "Every thread gets exactly the results of a sequential run, and there is no data race.",
     ["schedules", "programs"], "every interleaving of concurrent evaluations (and compilations sharing a string pool)",
     "The existing tests are single-threaded.",
     [S, F, "src/environment.cpp", "src/model/string-pool.cpp"], [("atomic caches in FieldExpr and CallExpression", S), ("shared_mutex in StringPool", "src/model/string-pool.cpp")],
     "Held on the interleavings observed under ThreadSanitizer with injected yields; all per-thread results compared with the sequential baseline.",
     "ThreadSanitizer plus result comparison under stress", ["eval()"])
prop("C15", "No trace or warning is lost or mixed up, even under concurrency",
     "Every evaluation of a traced expression is counted exactly once under its trace name and its first values, up to the limit, are stored unchanged; every "
     "runtime warning is recorded exactly once. This holds for any number of threads evaluating at once.",
     ["schedules", "programs"], "every interleaving of traced evaluations and warnings",
     "One test evaluates a trace once on one thread.",
     ["src/environment.cpp", F], [("Environment::trace / warn with mutexes", "src/environment.cpp"), ("TraceFn", F)],
     "Conservation checked over concurrent runs under ThreadSanitizer and against a reference count.",
     "conservation monitor over recorded calls, ThreadSanitizer", ["Environment::traces", "Environment::warnings"])
prop("C16", "String pools map names to ids one-to-one, also under concurrency",
     "Interning the same text (letter case ignored) always yields the same id and different texts get different ids; resolving an id yields the text it was created with, for the lifetime of the pool and however many "
     "threads use it at once. Looking a name up never adds it, and running out of ids is an error, never a wrong id. The statistics count every added name (misses, bytes) and every successful lookup (hits) exactly once.",
     ["schedules", "histories"], "every history of intern and lookup calls by any number of threads",
     "No test exercises the pool on more than one thread, or near its capacity.",
     ["src/model/string-pool.cpp", "include/simfil/model/string-pool.h"], [("StringPool::emplace / get / resolve, shared_mutex", "src/model/string-pool.cpp")],
     "History checked for a one-to-one mapping, under ThreadSanitizer and ASan, including exhaustion of all 65k ids.",
     "history checker over concurrent intern/lookup events, ThreadSanitizer + ASan", ["StringPool"])
prop("C17", "Copied or reloaded string pools are equal and independent",
     "A copy of a string pool, and a pool read from the bytes another pool wrote, resolves every id and looks up every name exactly like the "
     "original, and stays valid when the original is changed or destroyed. Truncated pool data is rejected with an error.",
     ["histories", "inputs"], "every pool content and every later history of original and copy",
     "No test copies a pool; one test writes and reads a small one.",
     ["src/model/string-pool.cpp"], [("copy constructor, write, read", "src/model/string-pool.cpp")],
     "Held on random contents and histories under ASan.",
     "model-based comparison of original, copy and reloaded pool, ASan", ["StringPool"])
prop("C18", "Array arenas behave like independent growable arrays",
     "After any history of creating and appending, every array of an arena contains exactly the elements appended to it in order; indexing, iteration "
     "and sizes agree with each other, indices outside an array are errors, and a saved and reloaded arena is the same.",
     ["histories", "inputs"], "every history of operations on any number of arrays",
     "Tests use one or two arrays with a few elements.",
     ["include/simfil/model/arena.h", "include/simfil/model/bitsery-traits.h"], [("ArrayArena", "include/simfil/model/arena.h")],
     "Held on random histories against a vector of vectors under ASan/UBSan. The container dependency (sfl) is a stand-in.",
     "model-based history checker (vector of vectors), ASan/UBSan", ["ArrayArena"])
prop("C19", "Thread-safe array arenas lose nothing under concurrent use",
     "In the thread-safe configuration, threads may create arrays, append to different arrays and read finished arrays at the same time. Every array then has exactly the elements "
     "its writer appended, in order, and there is no data race.",
     ["schedules"], "every interleaving of creators, appenders (one per array) and readers",
     "One test runs a few threads on a multi-core machine without race detection.",
     ["include/simfil/model/arena.h"], [("ARRAY_ARENA_THREAD_SAFE, shared_mutex", "include/simfil/model/arena.h")],
     "Held on the interleavings observed under ThreadSanitizer with unique values per writer.",
     "ThreadSanitizer plus exactly-once checker over unique values", ["ArrayArena (ARRAY_ARENA_THREAD_SAFE)"])
prop("C20", "A model returns exactly the content that was stored",
     "Whatever sequence of scalars, strings, objects and arrays is stored in a model, every accessor (value, type, size, child by index, child by name, key, iteration, JSON export) "
     "returns exactly that content, and absent children are reported as absent.",
     ["inputs", "histories"], "every construction history and every accessor",
     "Tests build a few small models through JSON.",
     [MM, "src/model/nodes.cpp", "include/simfil/model/nodes.impl.h"], [("ModelPool::newValue/newObject/newArray, resolve", MM), ("Object, Array", "include/simfil/model/nodes.h")],
     "Held on random construction histories against a shadow tree, including integer limits, long and empty strings and wide nodes.",
     "shadow-model monitor over all node accessors, ASan/UBSan", ["ModelPool", "ModelNode"])
prop("C21", "Saving and loading a model preserves it; damaged data is rejected",
     "A model read from the bytes another model wrote has the same roots, values, names and query results, also when read into a pool that was used before. Truncated data "
     "is rejected with an error and never leads to undefined behaviour.",
     ["inputs", "crash_points"], "every model content; every truncation point of its bytes",
     "One test writes and reads one small model.",
     [MM, "include/simfil/model/bitsery-traits.h"], [("ModelPool::write / read", MM)],
     "Held on random models, every prefix of their bytes in small models; bitsery is replaced by a stand-in with the same interface.",
     "round-trip and truncation monitor, ASan/UBSan", ["ModelPool::write/read"])
prop("C22", "JSON documents survive import and export",
     "Importing a JSON document and exporting the model gives back an equal document: structure, order of elements, names, strings, numbers, "
     "booleans and nulls. Invalid JSON is rejected with an error.",
     ["inputs"], "every JSON document (integers outside 64 bit signed become floats)",
     "Tests import two documents and export none.",
     ["src/model/json.cpp", "src/model/nodes.cpp"], [("json::build / parse", "src/model/json.cpp"), ("ModelNode::toJson", "src/model/nodes.cpp")],
     "Held on random documents; keys differing by letter case only in one document and duplicate keys are not generated.",
     "round-trip oracle over random documents, ASan/UBSan", ["json::parse", "ModelNode::toJson"])
prop("C23", "Model validation accepts exactly the consistent models",
     "Validation finds no fault with any model that was built through the public interface or loaded from saved data, and reports every model that refers to roots, members, elements or names "
     "that do not exist.",
     ["inputs", "fault_sequences"], "every model, and every dangling reference put into it",
     "One test validates one model.",
     [MM], [("ModelPool::checkForErrors / validate", MM)],
     "Held on random models with single injected dangling references.",
     "fault injection with soundness and completeness oracle, ASan/UBSan", ["ModelPool::checkForErrors()"])
prop("C24", "Moving a model to another string pool preserves all names",
     "Switching a model to another string pool keeps every field name, value and query result, whatever the target pool already contains. A move that fails, e.g. because the target pool is full, leaves the model unchanged.",
     ["inputs", "histories"], "every model and every prior content of the target pool",
     "No test switches pools.",
     [MM], [("ModelPool::setStrings", MM)],
     "Held on random models and target pools (disjoint, overlapping, permuted ids).",
     "snapshot monitor before/after pool switch, ASan/UBSan", ["ModelPool::setStrings()"])
prop("C25", "Values behave like values: copies are equal, independent, leak-free",
     "Copying, assigning, moving (also onto themselves) and destroying query values of any kind, in any order, never leaks, double-frees or changes another value, "
     "and user-defined objects are created and destroyed exactly once each.",
     ["histories"], "every sequence of copy, move, assignment and destruction",
     "No test copies or assigns user-defined objects.",
     ["include/simfil/transient.h", "include/simfil/value.h"], [("TransientObject special members", "include/simfil/transient.h"), ("Value", "include/simfil/value.h")],
     "Held on random operation sequences with an instance-counting user type, under ASan.",
     "instance-conservation monitor over special-member histories, ASan", ["Value", "TransientObject"])
prop("C26", "Every raised error passes the registered exception handler once",
     "If an exception handler callback is registered, every exception the library itself raises (also one it handles internally; not those of the standard library or JSON parser) calls it exactly once before it "
     "is thrown, with the type name and message of that exception; without one, the same exception is thrown. An exception thrown by the handler itself reaches the caller instead, and the handler can be replaced or removed between errors.",
     ["inputs", "configurations", "histories"], "every error the library raises, every handler history",
     "No test registers a handler.",
     ["include/simfil/exception-handler.h", E], [("raise", "include/simfil/exception-handler.h"), ("ThrowHandler::set/get", E)],
     "Held on errors provoked from the tokenizer, compiler, evaluation, functions and models, with handlers registered, replaced, removed and throwing.",
     "event-log monitor: handler calls vs caught exceptions, ASan/UBSan", ["ThrowHandler", "raise<>()"])
prop("C27", "Nodes computed on the fly behave like stored nodes",
     "Objects with procedural fields present one consistent view: size, iteration, access by index, keys and access by name agree, with the computed fields first and then the stored ones. The fields injected into an overlay are found by name and shadow stored "
     "fields only under their own name, while everything else of the overlaid node is unchanged. Queries see computed and injected fields like any other field.",
     ["inputs", "histories"], "every combination of stored, computed and injected fields",
     "One test defines one procedural field.",
     ["include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h", "src/overlay.cpp"], [("ProceduralObject", "include/simfil/model/nodes.h"), ("OverlayNode", "src/overlay.cpp")],
     "Held on random combinations against a shadow map.",
     "consistency monitor over accessors and queries, ASan/UBSan", ["ProceduralObject", "OverlayNode"])
prop("C28", "User-defined functions, constants and types plug in faithfully",
     "A registered function is called with exactly the arguments written in the query and its results appear unchanged; constants have their registered value; user-defined types receive "
     "exactly the operators applied to them with operands in order. Unknown function names and word operators are errors. Every registered function and constant is found "
     "under its name in any letter case, describes itself under that name, and the errors for wrong arguments name the function and what was wrong.",
     ["programs", "configurations"], "every registered extension and every query using it",
     "One test registers one constant; two register a function.",
     [S, "src/environment.cpp", O], [("Environment::functions / constants", "include/simfil/environment.h"), ("MetaType::unaryOp / binaryOp / unpack", "include/simfil/transient.h")],
     "Held on random queries over recording extensions.",
     "event-log monitor at the extension interface, ASan/UBSan", ["Function::eval", "MetaType"])
prop("C29", "Debug hooks see every evaluation step, properly nested",
     "With a debug interface attached, begin and end callbacks of a successful evaluation are properly nested and balanced, their root is the evaluated expression, and results are the same as without it.",
     ["programs"], "every successful evaluation",
     "No test attaches a debug interface.",
     ["include/simfil/expression.h"], [("Expr::eval", "include/simfil/expression.h")],
     "Held on random queries: nesting and results compared with runs without hooks.",
     "trace-grammar monitor on hook events, ASan/UBSan", ["Debug::evalBegin/evalEnd"])
prop("C30", "The interactive tool prints what the library computes",
     "For any script of queries and commands, the command line tool prints the same results the library computes for each query, in single- and multi-threaded mode, reports errors without stopping, and ends at end of input.",
     ["inputs", "configurations"], "every script and document",
     "The tool has no tests.",
     ["repl/repl.cpp"], [("main, eval_mt", "repl/repl.cpp")],
     "Held on generated scripts; output compared with the library; run under ASan/UBSan and a watchdog.",
     "differential process-level monitor, ASan/UBSan", ["simfil-repl"])
prop("C31", "Exactly the well-formed queries compile",
     "A sequence of tokens compiles if operands and operators alternate as the language guide describes, brackets match, commas separate arguments of calls only, "
     "and casts name a known type; any other sequence (a missing operand, a surplus or unmatched bracket, anything left over behind a complete query) is rejected "
     "with an error, never compiled in part. Well-formed queries may be rejected only because evaluating a constant part of them fails. The compile options make no difference.",
     ["inputs", "configurations"], "every token sequence and every combination of the compile options",
     "Tests compile a few hundred well-formed queries and five malformed ones; accepting a prefix of a query or rejecting a rare combination goes unnoticed.",
     [PA, S], [("Parser::parsePrecedence / parseTo / parseList", PA), ("parselets and compile()", S)],
     "Held on all sequences of up to four tokens (20 kinds) and random derivations with up to three edits, against a recognizer. Calls are to a function that accepts any arguments.",
     "online comparison with a grammar recognizer over enumerated, derived and mutated token sequences, ASan/UBSan", ["compile()"])
prop("C32", "Compile options any and autoWildcard mean what they document",
     "Compiled with the option any (the default), a query yields exactly one bool, which is true if and only if some result of the plain query is neither null nor false. "
     "With autoWildcard, a constant query is evaluated as ** == (query) and every other query is unchanged. Both options combine in this order.",
     ["inputs", "configurations"], "every query, document and combination of options",
     "Tests use the any option for whole test queries with one result and check autoWildcard on three syntax trees.",
     [S, "include/simfil/simfil.h"], [("compile", S), ("AnyFn", F)],
     "Differential with the reference interpreter. Calls on constants may count as constant or not.",
     "online comparison with the reference interpreter's any(query) and ** == (query), ASan/UBSan", ["compile()", "eval()"])


prop("C33", "Tokens, expressions and errors describe what was written",
     "Rendering the tokens of a query (Token::toString or operator<<) gives the written operators, keywords, words, integers and strings, so that tokenising the rendered tokens gives the same tokens; "
     "a rendered expression shows exactly its operators with their operands in order and is the default name of a trace. A lexical error names a position within or right behind the broken token and the rest of "
     "the query from there, a surplus token is named in the error, and a comparison found constant while compiling is warned about once, with its rendering and value.",
     ["inputs"], "every query",
     "Tests compare about 150 rendered expressions, mostly folded ones, and no rendered token, error position or warning.",
     [T, S, PA], [("Token::toString", T), ("Scanner::fail", T), ("Expr::toString", S), ("simplifyOrForward", S)],
     "Held on generated token sequences, hostile texts and operator trees. Floats only need to be close; the wording of messages is free up to the named parts.",
     "online comparison with renderings derived from the reference lexer and the generated tree, ASan/UBSan", ["Token::toString()", "Expr::toString()", "Environment::warnings", "std::exception::what()"])

prop("C34", "Everything that is allocated is released",
     "Whatever is done with the library - queries compiled, evaluated, refused or failing in the middle of their evaluation, models built, imported, saved, loaded, cleared and destroyed, overlays, string pools, "
     "arenas, evaluations in several threads, installed error handlers - once the objects involved are gone, no memory stays in use on their account: doing the same again and again does not let the "
     "program grow. Neither does a long-lived environment or model grow by being queried, with the same or ever new queries, apart from the warnings and traces which it collects until its owner takes them, nor a string pool by being told or reading names that it knows, nor a model by being cleared and filled again.",
     ["inputs", "histories"], "every sequence of operations, repeated arbitrarily often",
     "Tests end without looking at the heap; a leak on an error path, a reference cycle or a cache that only grows changes no result.",
     [S, "src/value.cpp", MM, "src/model/nodes.cpp", "src/model/string-pool.cpp", "src/overlay.cpp"], [("simfil::eval", S), ("StringPool::emplace", "src/model/string-pool.cpp"), ("ModelPool::clear", MM)],
     "Held for heap blocks and bytes obtained by operator new, compared between repetitions of the same scenario in one process; what is built once per program is not counted.",
     "heap-level monitor (counting operator new/delete) over repeated scenarios, ASan/LSan", ["operator new/delete", "heap level before and after"])

prop("C35", "Operations that fail midway fail cleanly",
     "When an operation fails in the middle - the memory runs out, or user code called from it (a function, an operator of a type, a debug hook, a stream) throws - the error reaches the caller as an exception, "
     "the program goes on, nothing leaks, and everything stays usable: queries leave environment, model and names as they were, "
     "a member, element, root, name or array is added completely or not at all, names and ids stay one-to-one, models stay consistent; and the same operation tried again yields what it would have yielded at once.",
     ["inputs", "fault_sequences"], "every operation, every allocation and every call of user code in it as the point of failure",
     "No test lets an allocation or user code fail; each operation has hundreds of points where this can happen.",
     [S, MM, "src/model/string-pool.cpp", "src/model/nodes.cpp", "include/simfil/model/arena.h", T], [("StringPool::emplace", "src/model/string-pool.cpp"), ("ModelPool::setStrings", MM), ("ArrayArena", "include/simfil/model/arena.h"), ("simfil::compile", S)],
     "Held for faults injected into operator new (single ones and lasting ones) and into user code. A model that is loaded from a stream has no particular content after a failure, and nlohmann::json, which needs memory "
     "to destroy documents, is given it.",
     "fault injection into allocations and user code with an online comparison against the undisturbed run, heap-level monitor, ASan/UBSan", ["operator new", "results, state and invariants after each failure"])

prop("C36", "Size does not matter",
     "What holds for small inputs holds for large ones: arrays and objects of any length, documents of any depth, texts, names, literals, blanks, operator chains and argument lists of any length, models with any number of "
     "values, members and roots, nearly full string pools, and any number of results, traces, warnings and overlay entries are stored, read, saved, loaded and queried without loss, wrap-around or confusion; "
     "evaluating takes steps and memory in proportion to the query and to the data that it visits, and any/each stop at the value that decides.",
     ["inputs", "programs"], "every size up to the documented limits (65535 names, 2^24 entries per column)",
     "The documents of the tests have a dozen nodes; a 16 bit counter, a chunk boundary, an expression that is evaluated twice per level or a text that is copied once per piece shows beyond some thousand only.",
     ["include/simfil/model/arena.h", "src/model/nodes.cpp", MM, S, F, "src/token.cpp", "src/overlay.cpp"], [("ArrayArena", "include/simfil/model/arena.h"), ("WildcardExpr::ieval", S), ("split / range / trace / sum", F), ("tokenize", "src/token.cpp")],
     "Held up to 140000 elements, 65400 members, 700 kB texts, 400 chained and 3000 listed operands, 150 levels and 72000 entries of a kind (thorough: up to eight times that). Reading a query takes time in proportion to the square of a chain's length, "
     "since each operator is tried for a constant result; only evaluation is measured. Recursion needs stack in proportion to the nesting: the monitor runs with a stack of 1 GB.",
     "closed-form results, evaluation-step counting through the debug hooks and allocation metering over random large inputs, ASan/UBSan", ["results", "evaluation steps", "bytes allocated", "model entries after load"])

prop("C37", "Models live exactly as long as somebody uses them",
     "A node - however it was obtained, alone, as part of a result, a trace, a constant or an overlay - keeps its model and the model's names alive and stays usable with its content unchanged when everything else is released; "
     "once the last user is gone, so are model and string pool. A compiled expression needs neither the text it was compiled from nor the environment and models of its compilation, and evaluates to the same afterwards; "
     "tokens, errors, trace results and computed values own their texts.",
     ["inputs", "histories"], "every model, every way to obtain a node, every order of release",
     "Tests keep the model until the end; neither a premature release nor a model that is never released shows in a result.",
     ["include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h", MM, S, F], [("model_ptr / ModelNode::model_", "include/simfil/model/nodes.h"), ("ModelPool::root", MM), ("TraceFn::eval", F)],
     "Held for release orders of up to nine holders per model and sessions of up to five queries, with released memory overwritten. Names returned by keys() belong to the string pool and are not examined after its end.",
     "lifetime monitor (weak pointers against the set of holders) over random release histories, ASan/LSan", ["weak_ptr of model and string pool", "content of nodes, results, traces, expressions"])

prop("C38", "Outcomes depend on nothing but the inputs",
     "What tokens, expressions, results, errors, warnings and traces a text yields, what a document imports, exports and saves as, and which ids names get depends on the inputs only: it is the same in every process and on every thread, "
     "under every C and C++ locale the host program has set, whatever ran before, and for every build of the library (compiler, optimization, with and without assertions, signed or unsigned char, memory contents).",
     ["inputs", "configurations", "histories"], "every query, document and name, every locale, every build configuration",
     "Tests run in one build, in the C locale and in a fresh process; a dependence on locale, uninitialised memory, evaluation order or a side effect in an assertion shows on a user's machine only.",
     [T, E, S, F, PA, O, MM, "include/simfil/value.h", "include/simfil/environment.h", "src/model/string-pool.cpp", "src/types.cpp"],
     [("scanWord / scanNumber", T), ("CaseInsensitiveHash", "src/model/string-pool.cpp"), ("CaseInsensitiveCompare", "include/simfil/environment.h"), ("OperatorAsString / OperatorAsFloat", O)],
     "Compared between three builds on this machine (clang -O1 with sanitizers, gcc -O2 -DNDEBUG -funsigned-char, clang C++23 -DNDEBUG with thread-safe arenas) and nine locales. The sign of NaN is not compared; rounding modes are left alone.",
     "differential monitor: the same cases run again in the same process, under hostile locales and in co-processes of other builds, every outcome compared; ASan/UBSan", ["tokens, rendered expressions, values, errors, warnings, traces", "exported JSON, saved bytes, ids"])

NA_TODO = "check under construction"


def main():
    with open(f"{HERE}/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    ids = {p["id"]: p for p in P}
    m = {
        "version": 1,
        "setup_cmd": "python3 run.py --selftest",
        "checks": [{
            "property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": ids[i]["technique"], "level": "exploration", "level_note": ids[i]["note"],
        } for i in sorted(CHECKS)],
        "not_applicable": [{"property": p["id"], "reason": NA_TODO} for p in P if p["id"] not in CHECKS],
        "notes": "No hooks in /repo are needed: everything is observed at public interfaces. See DESIGN.md.",
    }
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for line in open(f"{HERE}/properties.jsonl"):
        jsonschema.validate(json.loads(line), s)
    print(len(P), "properties", len(CHECKS), "checks")


main()
