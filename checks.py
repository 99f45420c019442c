# What run.py runs per property. cases: (quick, thorough).
import os
HERE = os.path.dirname(os.path.abspath(__file__))
TOK = {"lib": "token"}
CHECKS = {
    "C01": {
        "stages": [dict(TOK, src="c01.cpp", cases=(4000, 120000))],
        "require": {"accepted": 50000, "rejected": 30000, "tokens": 300000, "exhaustive": 90000},
        "rule": "byte strings: token soup, hostile bytes, mutations, and all strings of <=3 (alphabet of 46) / 4 (alphabet of 18) "
                "characters; compared token by token with an independent reference lexer. Non-trivial: more than one token, "
                "or rejected for a distinct reason and prefix; distinct by reference token stream.",
    },
    "C02": {
        "stages": [dict(TOK, src="c02.cpp", cases=(1500, 60000))],
        "require": {"int": 100000, "float": 100000, "malformed": 100000},
        "rule": "numeric literals generated from a known value (any magnitude, base, spelling) or malformed on purpose, "
                "embedded in random contexts; distinct by literal.",
    },
    "C03": {
        "stages": [dict(TOK, src="c03.cpp", cases=(2000, 80000))],
        "require": {"string": 50000, "raw": 30000, "regexp": 30000, "word": 50000, "unterminated": 50000},
        "rule": "random byte texts written as string, raw string, regular expression and escaped word, embedded in random "
                "contexts; distinct by kind and text.",
    },
    "C04": {
        "stages": [dict(TOK, src="c04.cpp", cases=(2500, 80000))],
        "require": {"accepted": 50000, "tokens": 300000},
        "rule": "token soup with hostile whitespace, hostile bytes and mutations; non-trivial: accepted, with whitespace "
                "and a multi-character token; distinct by input.",
    },
    "C09": {
        "stages": [dict(src="c09.cpp", cases=(4000, 100000))],
        "require": {"queries": 200000, "raising": 20000, "results": 100000},
        "rule": "every operator and cast x every pair of operand kinds (null, bool, int, float, string, object, array, missing, range, "
                "regular expression) with boundary and random values, as literal or document field; compared with an independent "
                "operator table. Non-trivial: a result other than null; distinct by query and document.",
    },
    "C10": {
        "stages": [dict(src="c10.cpp", cases=(14000, 300000))],
        "require": {"queries": 100000, "matching": 30000, "nodes": 50000, "multi": 10000},
        "rule": "random documents (objects, arrays, scalars, nulls, odd and mixed-case names, limits of integers) x random queries of paths, "
                "wildcards, sub-queries, subscripts and operators; results compared one by one, nodes by identity, with the reference "
                "interpreter. Non-trivial: a result other than a single null; distinct by query and document.",
    },
    "C11": {
        "stages": [dict(src="c11.cpp", cases=(3000, 120000))],
        "require": {"queries": 100000, "raising": 3000, "law split": 2000, "fn select": 5000, "fn sum": 5000, "fn split": 5000, "fn keys": 5000},
        "rule": "every built-in function with random argument lists (document values, constants, limits, wrong counts and types), compared "
                "with reference implementations, plus algebraic laws. Non-trivial: a result other than null; distinct by query and document.",
    },
    "C26": {
        "stages": [dict(TOK, src="c26.cpp", cases=(8000, 300000)), dict(src="c26q.cpp", cases=(1500, 60000)),
                   dict(TOK, src="c26t.cpp", san="tsan", cases=(300, 20000), shards=4)],
        "require": {"errors": 50000, "throwing handler": 10000, "handler changes": 50000, "raised no what()": 1000, "raised tokenize": 10000, "concurrent errors": 10000},
        "rule": "random histories of registering, replacing, removing handlers and raising exceptions of many shapes directly, through the tokenizer, "
                "compiler, evaluation, functions and models; each error is provoked without, with a recording and with a throwing handler. "
                "Non-trivial: an error; distinct by error and handler history.",
    },
    "C05": {
        "stages": [dict(src="c05.cpp", cases=(2900, 120000))],
        "require": {"accepted": 10000, "rejected": 20000, "rendered": 40000, "triples accepted": 5000, "triples rejected": 100000},
        "rule": "generated queries (partly ill-typed), mutations and truncations of them, token soup, hostile bytes, random bytes, nesting up to 180 levels, "
                "chains of 400 operators, and triples of tokens; every combination of compile options. Distinct by rendered expression or error message.",
    },
    "C06": {
        "stages": [dict(src="c06.cpp", cases=(2500, 80000))],
        "require": {"respelled": 30000, "token lists": 30000, "registered": 15000, "contents": 15000, "matching": 5000},
        "rule": "generated queries in up to three random spellings of their keywords, functions, types, prefixes and field names, compared with the plain "
                "spelling and the reference interpreter; keyword and prefix tokens, registered functions and constants, and contents of strings. Distinct by spelling.",
    },
    "C07": {
        "stages": [dict(src="c07.cpp", cases=(1400, 60000))],
        "require": {"pairs": 50000, "compiled": 40000, "operator pairs": 4000, "matching": 20000},
        "rule": "random operator trees (any shape, typed, from the query generator, and every pair of binary operators) printed with the fewest parentheses the documented "
                "precedence table allows and with all of them; compiled structure, results and the reference interpreter are compared. Non-trivial: at least two binary "
                "operators and different spellings; distinct by query.",
    },
    "C08": {
        "stages": [dict(src="c08.cpp", cases=(3000, 80000))],
        "require": {"many values": 300000, "unfolded": 40000, "second document": 20000, "matching": 15000},
        "rule": "random queries and constant expressions, as written and with any subset of their constants hidden from folding by a function that is unknown at compile "
                "time; results compared with each other, with the non-folding reference interpreter, and on a second document. Distinct by unfolded query.",
    },
    "C12": {
        "stages": [dict(src="c12.cpp", cases=(1500, 80000))],
        "require": {"queries": 11000, "raising": 150, "evaluated": 7000, "values": 25000, "kept values": 2500},
        "rule": "random, mostly ill-typed queries and mutations of them on any node of random documents; bytes of model and string pool are compared before and after, "
                "outcomes with a repetition, another environment, a recompilation and after use on other nodes. Distinct by query and document.",
    },
    "C13": {
        "stages": [dict(src="c13.cpp", cases=(4000, 120000))],
        "require": {"queries": 30000, "stops": 80000, "early stops": 40000, "inner stops": 30000},
        "rule": "random queries with many-valued operands of every operator and function; evaluation stopped at every result (at most 12, else 6 positions) from outside "
                "and by a consumer within a query. Non-trivial: more than one result; distinct by query and document.",
    },
    "C29": {
        "stages": [dict(src="c29.cpp", cases=(3000, 100000))],
        "require": {"failing in between": 20000, "queries": 30000, "events": 500000, "stopped": 30000, "chains": 2000},
        "rule": "random queries evaluated with hooks that log begin and end events; nesting, balance, root step, results with and without hooks, stopped evaluations and "
                "chains with a known number of steps. Non-trivial: more than two expressions evaluated; distinct by query.",
    },
    "C15": {
        "stages": [dict(src="c15.cpp", cases=(4000, 120000)), dict(src="c15t.cpp", san="tsan", cases=(500, 20000), shards=4)],
        "require": {"traces": 8000, "trace calls": 20000, "warnings": 20000, "trace values": 20000},
        "rule": "random traced and warning queries evaluated repeatedly, on one thread (ASan) and on 2-4 threads at once (TSan); calls, values and warnings compared with "
                "those the reference interpreter counts. Distinct by query and document.",
    },
    "C14": {
        "stages": [dict(src="c14.cpp", san="tsan", cases=(1200, 40000), shards=5)],
        "require": {"concurrent evaluations": 40000, "concurrent compilations": 3000, "names added concurrently": 15000},
        "rule": "2-4 threads evaluate the same freshly compiled expressions on the same documents while up to 2 threads compile and extend the shared string pool; outcomes "
                "compared with a sequential run, races detected by TSan. Distinct by query and document.",
    },
    "C16": {
        "stages": [dict(src="c16.cpp", cases=(10000, 250000)), dict(src="c16t.cpp", san="tsan", cases=(2500, 60000), shards=4)],
        "require": {"emplace": 100000, "known names": 40000, "get": 80000, "resolve": 50000, "exhausted pools": 5, "concurrent events": 200000, "overflows": 40},
        "rule": "random histories of interning, looking up, resolving and static names (letter cases, arbitrary bytes, long common prefixes) against a map; pools filled "
                "to the last id; 2-6 threads interning, looking up, resolving, copying and saving at once, whose joint history must be a one-to-one mapping. Distinct by history.",
    },
    "C17": {
        "stages": [dict(src="c17.cpp", cases=(6000, 200000))],
        "require": {"copies": 8000, "reloads": 8000, "updates": 4000, "destroyed": 5000, "truncated": 4000, "names compared": 1000000, "full pools": 5},
        "rule": "random histories of adding names to, copying, saving and reloading, bringing up to date (partial saves), truncating and destroying up to six related pools, up to "
                "the last id; every pool is compared with its own map after each step. Distinct by history.",
    },
    "C18": {
        "stages": [dict(src="c18.cpp", cases=(8000, 300000))],
        "require": {"appends": 500000, "arrays compared": 80000, "elements compared": 2000000, "out of range": 500000, "reloads": 8000, "self appends": 20000, "changes": 20000},
        "rule": "random histories of creating, appending, changing, saving and reloading, shrinking and clearing, with three element types, five page sizes and all ways of reading "
                "(index, const, callback, iterator, range), against a vector of vectors. Distinct by history.",
        "assumptions": ["sfl::segmented_vector and bitsery are stand-ins with the same interface; the stand-in container checks every index"],
    },
    "C19": {
        "stages": [dict(src="c19.cpp", san="tsan", cases=(1600, 60000), shards=4), dict(src="c19.cpp", cases=(1200, 40000), shards=4)],
        "require": {"created": 20000, "appended": 300000, "read": 500000, "handed over": 5000},
        "rule": "2-6 writers create arrays, append unique elements, hand arrays over, copy while iterating and read their arrays back while up to 2 readers read finished "
                "arrays; two element types, small and large pages; under TSan and ASan. Every array is compared with what its owners appended. Distinct by schedule seed.",
        "assumptions": ["sfl::segmented_vector is a stand-in with the same interface and no internal synchronisation; one appender per array at a time"],
    },
    "C20": {
        "stages": [dict(src="c20.cpp", cases=(6000, 100000))],
        "require": {"uses of no node": 2000, "operations": 100000, "views": 300000, "children": 500000, "lookups": 200000, "absent lookups": 100000, "wide models": 10, "models compared": 4000},
        "rule": "random histories of building up to three models (shared or own string pool) through every way to add scalars, objects, arrays, shared nodes, extensions and roots, "
                "and of clearing them, with extreme values, odd names and nodes wider than a column page; every accessor of every node and the JSON export are compared with a shadow. Distinct by history.",
        "assumptions": ["sfl containers are stand-ins with the same interface"],
    },
    "C21": {
        "stages": [dict(src="c21.cpp", cases=(2500, 80000))],
        "require": {"loaded models": 5000, "used pools": 1500, "extended models": 500, "streamed models": 1000, "truncations": 100000, "wide models": 8, "huge models": 1},
        "rule": "models from random construction histories, saved and loaded into fresh, used, failed and the same pools, extended and saved again, several in one stream with "
                "their string pool; all accessors, validation and query results compared with a shadow; every truncation of small models and random ones of larger. Distinct by saved bytes.",
        "assumptions": ["bitsery is a stand-in with the documented wire format and error semantics"],
    },
    "C22": {
        "stages": [dict(src="c22.cpp", cases=(12000, 400000))],
        "require": {"imports": 20000, "exports": 30000, "round trips": 20000, "invalid": 60000},
        "rule": "random documents (limits of integers and floats, numbers beyond 64 bits, Unicode and control characters, odd names, deep nesting) in random spellings, imported one "
                "or several per model through all import functions, compared with the exported JSON, the nodes and a second import; broken texts. Distinct by text.",
        "assumptions": ["texts are judged by how they were generated, not by nlohmann::json"],
    },
    "C23": {
        "stages": [dict(src="c23.cpp", cases=(6000, 200000))],
        "require": {"consistent models": 5000, "loaded consistent models": 300, "dangling names": 600, "dangling root": 2000, "dangling member": 2000, "dangling element": 2000, "dangling column": 1000, "names with fixed ids left out": 200},
        "rule": "models from random construction histories, with none or one reference to an object, array, number, string, column or name that does not exist, put into any root, object or "
                "array (reachable or not), first or last existing index plus one and far beyond; also after saving and loading. Distinct by model and fault.",
    },
    "C24": {
        "stages": [dict(src="c24.cpp", cases=(3000, 100000))],
        "require": {"moves": 5000, "failed moves": 2, "extended after a move": 1500, "views": 200000, "lookups": 70000},
        "rule": "models from random construction histories moved one to four times to empty, equal, earlier, larger, permuted, re-spelled and nearly full string pools; all accessors and query "
                "results compared with the shadow, the old pool, a bystander model and the previous content of the new pool checked. Distinct by model and target.",
    },
    "C25": {
        "stages": [dict(src="c25.cpp", cases=(40000, 1500000))],
        "require": {"operations": 50000, "value checks": 200000, "failing copies": 500, "containers": 1000, "compiled": 3000, "evaluations with an error": 300, "evaluations with a failing copy": 100, "objects in queries": 20000},
        "rule": "random sequences of 5 to 60 copies, assignments, moves (also onto themselves), swaps, destructions and container operations on values of all kinds and bare user-defined objects of a hand-written and a "
                "template-based type, with copies that throw; and random queries over functions and constants that produce such objects, stopped anywhere. A ledger of all objects decides after every step who owns what. Distinct by history or query.",
    },
    "C27": {
        "stages": [dict(src="c27.cpp", cases=(1500, 40000))],
        "require": {"queries": 15000, "computed members": 20000, "computed objects compared": 10000, "hidden members": 300, "set": 8000, "injected queries": 2000, "overlay views": 20000},
        "rule": "random documents stored so that random objects compute a prefix of their members (scalars, stored nodes, other computed objects) with or without stored "
                "members; every accessor against the document, random queries against the reference interpreter; histories of overlays over stored, computed, scalar and "
                "overlaid nodes, every accessor and query after each step. Distinct by query and document.",
    },
    "C28": {
        "stages": [dict(src="c28.cpp", cases=(6000, 200000))],
        "require": {"descriptions": 3000, "queries": 35000, "raising": 2500, "impure queries": 9000, "calls with logged arguments": 12000, "operators": 90000, "several values": 7000, "registrations": 10000},
        "rule": "random nested queries over registered constants of every type, fields, and calls of registered functions (pure, impure, yielding many, one, two or no values, the "
                "context), with two user-defined types whose operators return the text of what was applied to what in which order; results and logged calls against an interpreter "
                "of the same tree. Unknown functions and word operators without an object must be errors. Distinct by query.",
    },
    "C30": {
        "stages": [dict(src="c30.cpp", san="tsan", repl=True, cases=(320, 5000))],
        "require": {"sessions": 60, "results printed": 400, "concurrent queries": 250, "compile errors": 40, "evaluation errors": 8, "options switched": 20, "definitions": 100, "defined constants used": 25},
        "rule": "the tool, built with TSan, run on random documents, definitions and scripts of valid, raising and malformed queries, commands and empty lines; its whole output "
                "compared with what the library computes in the harness, and its exit code. Distinct by printed query.",
    },
    "C31": {
        "stages": [dict(src="c31.cpp", cases=(2400, 60000))],
        "require": {"well-formed": 30000, "ill-formed": 100000, "derived": 50000, "enumerated": 150000},
        "rule": "random derivations of the operator grammar, the same with up to three tokens removed, repeated, swapped, replaced or inserted, token soup, mutated queries, and all "
                "sequences of up to four of 20 tokens, under all compile options; compared with a recognizer over the tokens of the reference lexer. Distinct by well-formed query.",
    },
    "C32": {
        "stages": [dict(src="c32.cpp", cases=(1200, 80000))],
        "require": {"queries": 25000, "any true": 5000, "any false": 5000, "expanded": 5000, "unchanged": 2000, "wildcard values": 50000, "defaults": 1500},
        "rule": "random constant and document-dependent queries under all four combinations of any and autoWildcard and under the defaults, compared with the reference interpreter's "
                "any(query), ** == (query) and both. Distinct by query, options and document.",
    },
    "C33": {
        "stages": [dict(TOK, src="c33.cpp", cases=(4000, 120000)), dict(src="c33q.cpp", cases=(1500, 60000))],
        "require": {"tokens": 100000, "rendered queries": 5000, "positions": 30000, "rendered": 20000, "traces": 2000, "constant parts": 5000, "trailing": 3000},
        "rule": "token kinds, tokens of random queries and hostile texts, positions in lexical errors; rendered expressions of random queries, names of traces, compile-time warnings and "
                "errors about surplus tokens, compared with a rendering of the same tree. Distinct by rendering.",
    },
    "C34": {
        "stages": [dict(src="c34.cpp", cases=(3000, 150000))],
        "require": {"allocations": 5000000, "repeated queries": 1500, "failing": 2000, "models": 700, "imported": 400, "refused documents": 250, "loaded": 300, "pool operations": 2000,
                    "arena operations": 10000, "concurrent evaluations": 400, "rejected": 300, "tokenized": 1000, "scenarios: handlers": 50, "scenarios: overlays": 50, "scenarios: long-lived environment": 250, "reuses": 170, "varied queries": 250},
        "rule": "scenarios (queries compiled, evaluated and failing, one environment used for long, models built, saved, loaded and copied, documents imported and refused, string pools, arenas, "
                "texts, overlays, threads, error handlers, models and pools used again and again) run three times with the same choices, all operator new/delete counted: the blocks and bytes in use after the third run must be those "
                "after the second. Distinct by scenario and its choices.",
    },
    "C35": {
        "stages": [dict(src="c35.cpp", cases=(1500, 150000), flags=["-include", f"{HERE}/harness/json-alloc.hpp"])],
        "require": {"failed operations": 10000, "retries": 10000, "faults in memory": 9000, "faults in user code": 1000, "operations: query": 240, "operations: build": 80, "operations: import": 70,
                    "operations: names": 90, "operations: arena": 45, "operations: load": 45, "operations: other names": 45, "operations: save": 30, "operations: export": 25, "operations: tokens": 50},
        "rule": "an operation (tokenize, compile, evaluate, add to a model, import, export, save, load, change names, add names, grow an arena) on random data is run undisturbed and then with one fault "
                "at up to 24 of its allocations (once, or from there on) and 24 of its calls of user code; compared with the undisturbed run: error or same result, old or new state, invariants, "
                "nothing left on the heap, the same result when tried again. Distinct by operation and data.",
    },
    "C36": {
        "stages": [dict(src="c36.cpp", cases=(800, 12000), hang_s=60)],
        "require": {"queries": 1500, "answers": 1500, "steps": 20000000, "values": 5000000, "elements": 3000000, "members": 1000000, "levels": 3000, "bytes": 4000000, "tokens": 200000, "models": 15, "entries": 2500000, "names": 700000, "traced": 150000, "warnings": 50000, "overlay entries": 20000, "long names": 5, "long tokens": 15},
        "rule": "documents, texts, queries, models, string pools, traces, warnings and overlays of sizes around powers of two and in between (arrays to 140000, objects to 65400 members, texts to 700 kB, chains to 400 and "
                "lists to 3000 operands, 150 levels, 72000 entries of a kind), whose results are known in closed form; steps of evaluation and bytes allocated are compared with the size. Distinct by size and kind.",
    },
    "C37": {
        "stages": [dict(src="c37.cpp", cases=(5000, 200000))],
        "require": {"nodes": 5000, "observations": 6000, "uses": 5000, "models released": 1200, "expressions": 1200, "node results": 20000, "results": 1500, "sessions released": 800, "traced": 5000, "token lists": 300, "errors": 500},
        "rule": "nodes of random models obtained in every way (roots, members, iteration, typed nodes, values, overlays, copies) are used and released in random order after their builder is gone; results, "
                "traces and expressions after environment, model and query text are; weak pointers tell after each step whether model and string pool live. Distinct by model or by query and outcome.",
    },
    "C38": {
        "stages": [dict(src="c38.cpp", cases=(2400, 80000),
                        prepare="mkdir -p locales && for l in tr_TR.UTF-8 de_DE.UTF-8 tr_TR.ISO-8859-9 de_DE.ISO-8859-1; do "
                                "localedef -i ${l%%.*} -f ${l#*.} locales/$l & done; wait; ls locales/*/LC_CTYPE | wc -l | grep -qx 4",
                        variants=[["g++", "-std=c++20", "-O2", "-DNDEBUG", "-funsigned-char"],
                                  ["clang++", "-std=c++2b", "-O1", "-DNDEBUG", "-DARRAY_ARENA_THREAD_SAFE", "-gline-tables-only"]])],
        "require": {"queries": 12000, "outcomes compared": 80000, "locales": 2400, "answers of other builds": 2400, "answers under memcheck": 200, "processes": 100, "other threads": 300, "string pools": 500, "texts": 1500, "documents": 1700, "errors": 2500},
        "rule": "documents, models built directly, queries in any case, texts and string pool histories run again, on another thread, with errors pending, under locales of other languages and character sets (set "
                "for C, for C++ and made of own facets), and by two other builds of the same sources (another compiler, standard and optimization level, no assertions, unsigned char, perturbed memory) in processes "
                "of their own with other histories; every outcome compared. Distinct by item and outcome.",
    },
}
