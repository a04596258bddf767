"""Writes /verif/properties.jsonl (run by hand; the output is committed)."""
import json

T = "pycep/transformer.py"
G = "pycep/bicep.lark"
M = "pycep/main.py"
U = "pycep/utils.py"
F = "pycep/rules/functions.py"
D = "pycep/rules/decorators.py"
V = "pycep/validator.py"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    anchors["observe_at"] = observe or ["return value of BicepParser.parse"]
    anchors["hook_needed"] = None
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": anchors,
    })


p("C01", "Every declaration is reported, once, in its section, with its own data",
  "For every document, the result contains exactly one entry per declaration, in the section of its kind "
  "(metadata, imports, extensions, parameters, variables, outputs, resources, modules, types, functions), under its "
  "declared name and in source order within the section, and no entry or section that does not come from a declaration. "
  "An entry is the same whatever other declarations surround it, how many there are, in which order they come, and even "
  "if declarations of other kinds have the same name. "
  "The reported target scope is the declared one, 'resourceGroup' if none is declared, and any other scope value is rejected.",
  ["inputs", "programs"],
  "all documents made of any number of declarations of all kinds, in any order, with equal or different names",
  "The tests parse some hundred fixed files, mostly with one kind of declaration each; they never vary order, number, "
  "name clashes between kinds or neighbours systematically.",
  [T, G], [("start", T), ("element rules", G), ("per element methods", T)],
  [("imports, child_resources", "elements collected on the side and appended at the end", T)])

p("C02", "Expressions keep every operand and operator, in order and nesting",
  "Every operator and accessor expression is reported as the tree that its tokens and parentheses denote under pycep's "
  "fixed convention: a binary operator, property access or nested-resource access takes everything to its right as second operand, a "
  "ternary takes everything to its right as false value, a unary operator takes everything to its right, an index or a list*/getSecret call "
  "binds to the operand directly before it, and parentheses group. "
  "Each operator has its documented type name and operand names, the null-forgiving '!' and safe-access '?' change nothing, and no operand, "
  "however falsy, is dropped, duplicated or swapped.",
  ["inputs", "programs"],
  "all expressions over all operators, accessors, ternaries, lambdas and parentheses, of any size",
  "Each operator is tested alone with one or two operand values; combinations of operators (14 binary ones already give 2744 triples), "
  "of accessors with operators and of falsy operands are not.",
  [T, G], [("operator rules", G), ("operator methods", T), ("function_accessor", T)])

p("C03", "Literals and identifiers are reported exactly",
  "A single-quoted string is reported as the exact characters between its quotes (escapes, interpolations, quotes, braces and comment-like text "
  "included), a multi-line string as its exact content without the delimiters and at most one directly following line break, "
  "an integer as the exact integer, true/false/null as True/False/None. "
  "An identifier is reported as an identifier marker (BicepElement) with its exact spelling and a string literal never is, so the two are "
  "always distinguishable, also when an identifier looks like a keyword or function name or a string has the content of one.",
  ["inputs"],
  "all string contents, integers, identifiers, in every value position",
  "Tests use a few dozen benign strings; content with escaped quotes or backslashes, nested interpolation, comment markers, unicode, "
  "control characters, leading or trailing blanks, empty strings or huge integers is unbounded.",
  [G, U, T], [("QUOTED_INTERPOLATION, MULTI_LINE_STRING", G), ("transform_string_token", U), ("sanitize_multi_line_string_token", U)])

p("C04", "Arrays and objects keep all items, in order, under their own keys",
  "An array is reported as a list with exactly its items in source order, whether they are separated by commas, line breaks or both, for any number "
  "and kind of items. An object is reported as a dictionary with exactly its keys (quoted keys with their quotes, keyword-like keys included) in source "
  "order, each with its own value, whatever the separators, sizes and nesting; a repeated key takes its last value.",
  ["inputs", "programs"],
  "all arrays and objects of any length, nesting, item kinds and separators",
  "Tests contain a handful of arrays and objects of fixed layout; item-kind adjacency, separators, lengths and nesting are unbounded.",
  [G, T], [("array, object, pair, key rules", G), ("array, object, pair, key", T)])

p("C05", "Function arguments are reported under the right parameter, none lost",
  "For every documented function and every number of arguments it takes, each argument is reported, unchanged, under the parameter name of its position "
  "(with the documented special rules for overloads), an omitted optional one as None, and a passed falsy one as itself; the function has its documented type name. "
  "Any other function is reported under its name as written with all arguments numbered in order, and a 'sys.' or 'az.' prefix of a known function changes nothing.",
  ["inputs", "configurations"],
  "all functions, with and without namespace, all arities they accept, all kinds of argument values in each position",
  "Most functions are tested with one argument list; falsy values, all arities and both namespaces together are not.",
  [F, T, G], [("FUNCTIONS table and its functions", F), ("function", T), ("function rule", G)])

p("C06", "Decorators are all reported, in order, with their argument, on their target",
  "Every decorator written before a declaration is reported in that declaration's decorator list, in source order, repeated ones included, and on no other declaration. "
  "Known decorators (with or without 'sys.') have their documented type name and carry their exact argument, falsy ones included, negative integers of minValue/maxValue "
  "as integers; flag decorators carry none; unknown ones carry their name as written and their argument if there is one.",
  ["inputs", "programs"],
  "all sequences of decorators with all arguments on all kinds of declarations",
  "Each decorator is tested on its own with one argument; sequences, all targets, falsy or negative arguments are not.",
  [D, T, G], [("DECORATORS table", D), ("decorator, decorators", T), ("decorator rule", G)])

p("C07", "Nested child resources are hoisted with inherited type, version and parent",
  "A resource declared inside the body of another resource (plain, conditional or looped, at any depth) is reported as its own entry named <parent>__<child>, with type <parent type>/<child type>, "
  "the parent's api version, its own existing flag and body, plus a dependency on its parent's reported name; it leaves no trace in the body of the parent, and everything else in the parent stays.",
  ["inputs", "programs"],
  "all nesting depths (one child per body), body kinds, positions of the child in the body, several parents per document, in every order",
  "Tests have three fixed nestings; depth, position, body kinds and several parents together are unbounded.",
  [T, G], [("process_child_resource", T), ("child_resource", T), ("child_resource rule", G)],
  [("child_resources", "hoisted children of the parse", T)])

p("C08", "Loops and deployment conditions keep source, variables, filter and body",
  "Every loop of a resource, module, variable, output or object property is reported with its kind, its item and index variable names, the iterated expression, its filter condition (None without one) and its body; every conditional "
  "deployment with its condition and body. Each of these parts is the exact representation of the written expression, whatever expression it is and whichever layout the loop has.",
  ["inputs", "programs"],
  "all loop kinds, iterated expressions, filters, bodies and conditions, in all places where they can stand",
  "Tests fix one expression per loop kind; falsy or operator conditions, bodies and sources of other kinds, and other hosts are not combined.",
  [T, G], [("loop rules", G), ("loop, loop_array, loop_array_index", T), ("deploy_condition", T)])

p("C09", "Module references are classified and split without loss",
  "A module path is classified as local path, registry (public or private), registry alias, template spec or template spec alias by its scheme, and its registry, path, tag, alias, subscription, resource group, name and version are the exact "
  "parts of the written reference, which is also reported in full; a reference of a registry or template spec scheme without these parts is rejected, never reported as something else. "
  "A resource's type and api version are the exact texts before and after the '@'.",
  ["inputs"],
  "all module references composed of the parts' alphabets, all resource type references",
  "Tests have about one reference per scheme; characters, lengths and segment counts of the parts are unbounded.",
  [T], [("module_path and its patterns", T), ("type_api_pair", T)])

p("C10", "Data types and signatures are reported with their full structure",
  "The type of a parameter, variable, output, function parameter or function result is reported as its name, as an array wrapping its item type once per '[]', or as a union with all its members in order, nested to any depth; "
  "the nullable mark changes nothing, a variable without type gets no type, a parameter without default gets default None. "
  "A function's parameters are reported under their names in order with their own types, followed by its result type and body; a type declaration is reported with its value, a top-level union as its members joined by ' | '.",
  ["inputs", "programs"],
  "all type expressions over names, unions and array suffixes, in all places with a type; all function signatures",
  "Tests have a dozen type expressions; nesting of unions and arrays and numbers of parameters are unbounded.",
  [T, G], [("data_type, union_type, array_suffix rules", G), ("data_type, union_type", T), ("custom_func", T), ("type_value", T)])

p("C11", "Comments, blank lines and spacing never change the result",
  "Two documents that differ only in spaces and tabs between tokens, in block or '#' comments between tokens, and, at the end of a line, in line comments, blank lines and the kind of line break (LF or CRLF, also none at the end of "
  "the document) have equal results. Text in strings that looks like a comment is never treated as one.",
  ["inputs", "programs"],
  "all placements of trivia in all gaps of documents with every construct",
  "Tests put comments in some fixed places; the product of gaps, kinds of trivia and constructs is unbounded.",
  [G], [("_CPP_COMMENT_NL, ignore directives", G), ("start rule", G)])

p("C12", "Line numbers delimit exactly the declaration",
  "With line numbers on, every entry has as start line the line of the first character of its declaration (including its decorators) and as end line the line of its last character, counted in the given text whatever precedes, follows or "
  "is inside it (comments, blank lines, multi-line strings, CRLF); a default scope has 0 and 0. "
  "Apart from these two keys the result is identical to the one with line numbers off, which has no such keys.",
  ["inputs", "configurations"],
  "all documents, both settings",
  "Line numbers are tested on one file per element kind with fixed layout.",
  [T, M], [("add_line_numbers branches", T), ("propagate_positions", M)])

p("C13", "A parse depends only on its text, not on the history of the parser",
  "The result or rejection of a parse is the same as on a fresh parser with the same settings, whatever was parsed before on this or another parser, successfully or not, and whatever the caller did to earlier results. "
  "A result that was returned never changes by later parses, and a changed file is read anew.",
  ["histories"],
  "all sequences of parse, create_tree, failing parse, mutation of results and file rewrites on one or more parsers",
  "Tests share one parser but check each result only once, in one order; leakage shows for particular sequences only.",
  [M, T], [("BicepParser.parse: fresh transformer per parse", M), ("BicepToJson.__init__", T)],
  [("imports, child_resources", "per parse accumulators", T)])

p("C14", "One parser can be shared by threads",
  "If threads call parse and create_tree concurrently on one parser (or on different ones), then under every interleaving of their steps each call has the result or rejection it has when it runs alone.",
  ["schedules"],
  "all interleavings of two or three concurrent calls on one parser or on several",
  "The tests are single-threaded.",
  [M, T], [("BicepParser.parse: no state shared between calls", M), ("per parse transformer", T)])

p("C15", "Text and file input are equivalent, and every call answers per contract",
  "Parsing a file gives the same result as parsing its decoded UTF-8 content (line breaks as Python's text mode reads them) as text, under every locale, also for empty, comment-only or CRLF content; exactly one of the two inputs must be given, and otherwise a TypeError is raised. "
  "The tree rendering accepts exactly the documents that the grammar part of parse accepts, with the same requirement on inputs; neither call modifies the file or the text given.",
  ["inputs", "configurations"],
  "all documents, all combinations of arguments, locales and line endings",
  "Tests parse files in the locale of the build and texts separately, never both for the same content.",
  [M, V], [("_create_tree", M), ("BicepValidator", V)], observe=["return values and exceptions of parse and create_tree"])

p("C16", "Malformed input is rejected or fully represented, never silently cut",
  "For every sequence of tokens, parsing either raises an error or returns a result that accounts for every name, literal and operator of the input, exactly once and in order (of equal keys of an object and equally named entries of a section, the last one). "
  "In particular a document that is truncated, or in which a token is missing, doubled, replaced or swapped with another, is never reported as if the affected part did not exist.",
  ["inputs"],
  "all token sequences up to a length, all truncations and token edits of documents with every construct",
  "Tests contain almost no malformed input; there are unboundedly many malformed inputs.",
  [G, M, V], [("the grammar and its conflict resolution", G), ("BicepValidator", V)])

p("C17", "Results are plain, independent JSON data",
  "A result consists of dictionaries with string keys, lists, strings, integers, booleans and None only, survives a JSON round trip unchanged and can be pickled and copied; "
  "no two positions of a result, and no two results, share a mutable object, so changing one place changes nothing else.",
  ["inputs", "histories"],
  "all documents with every construct in every position, all pairs of positions",
  "Tests compare results with JSON by equality, which sees neither leaked token objects nor sharing.",
  [T, U, F, D], [("conversion of tokens by str()/BicepElement", T), ("transform_string_token", U), ("UNKNOWN_* and DECORATORS builders", D)])

p("C18", "Results do not depend on cache, process, configuration or environment",
  "The outcome of a parse is the same with the grammar cache on or off, with an absent, warm, truncated, garbage or foreign cache, with several processes sharing the cache, in a process forked after the parser was made, under every hash seed, working directory and locale. "
  "The parser writes nothing outside the temporary directory, nothing at all with the cache off, and leaves no unusable cache behind.",
  ["configurations", "crash_points", "fault_sequences"],
  "all combinations of cache state, cache setting and environment; all cut points of a cache file",
  "Tests run in one process with one environment and a warm cache.",
  [M], [("Lark(... cache=cache)", M), ("LARK_GRAMMAR", M)], observe=["return value of parse", "file system"])

p("C19", "A value has one representation, wherever it is written",
  "Every kind of value (literal, identifier, string, array, object, function call, operator, accessor, ternary, parenthesised expression, lambda) is reported identically in every place where a value can stand: variable, parameter default, output, array item, "
  "object property, function argument, decorator argument, index, operand, ternary branch, condition, loop source, filter or body, lambda or function body, at any nesting of these.",
  ["inputs", "programs"],
  "all pairs and triples of value kinds and value positions",
  "Tests put a few values into a few positions; the product of value kinds, positions and nestings is not covered.",
  [G, T], [("value, value_brackets rules", G), ("array, pair conversions", T)])

p("C20", "Every input is answered in reasonable time",
  "Parsing terminates with a result or an error for every input, in time that does not explode with the length of the input: repeating any fragment of code, string, interpolation, comment or garbage some dozen times, closed or unclosed, stays fast, and "
  "a valid document with hundreds of declarations, items or arguments or dozens of nesting levels is parsed, not rejected.",
  ["inputs"],
  "all inputs of the form prefix, repeated fragment, suffix over an alphabet of token fragments",
  "Tests only contain small well-formed documents; run time on hostile ones is never observed.",
  [G, V], [("terminal regular expressions", G), ("LALR grammar", G)])

p("C21", "Imports, extensions and metadata are reported completely",
  "Every imported symbol is reported under its name with its file path and, only if it has one, its alias, for single, braced and wildcard imports with any number of symbols; a namespace import is reported under its quoted name without further data. "
  "An extension is reported with its configuration object (empty ones included) and alias, each only if written; a metadata declaration with its exact value.",
  ["inputs", "programs"],
  "all import statements (forms, numbers of symbols, aliases), extensions and metadata, in any number per document",
  "Tests have one import per form; combinations of several statements and numbers of symbols are not covered.",
  [T, G], [("custom_import, import_alias", T), ("extension, metadata", T), ("_import_statement rule", G)],
  [("imports", "imports of the parse, appended at the end", T)])

p("C22", "A call leaves the process as it found it",
  "Constructing a parser, parsing and rendering a document, from text or from a file, successfully or not, changes nothing in the process of the caller: no file stays open, nothing is written to standard output or error, and working directory, environment, "
  "recursion and digit limits, signal handlers, warning filters, logging, locale, random state, garbage collector settings, threads and the like are as before. What a document took in memory is given back with its result: a process that handles any number of documents or parsers does not grow.",
  ["histories", "configurations"],
  "all sequences of calls of every kind (accepted, rejected at every stage, wrong arguments, unreadable files) up to a length, all constructs; long series of calls with ever new contents",
  "Tests look at results only; a setting that stays changed after a failing call or memory that is kept per document never fails one of them.",
  [M, T, U, V], [("parse, create_tree, _create_tree", M), ("BicepToJson.__init__", T)], observe=["state of the process before and after each call"])

p("C23", "A call that is broken off has no consequences",
  "If an exception breaks off a parse or tree rendering at any point (an interrupt, a timeout raised by a signal handler, no memory, the end of the stack), then the call never answers with a wrong or incomplete result, an interrupt is passed on as it is, and every later call, "
  "on this or another parser, answers as if the broken call had not been made; earlier results and the state of the process stay as they were.",
  ["crash_points", "histories"],
  "all points (lines of pycep and of the parsing library) of calls of every kind, all remaining stack depths, pairs of broken calls",
  "Tests never break off a call; what is left behind depends on the very line where it happens.",
  [M, T], [("parse, create_tree: no state outside the call", M), ("BicepToJson.__init__: accumulators per parse", T)],
  [("imports, child_resources", "per parse accumulators", T)], observe=["answers of calls after the broken one"])

p("C24", "Syntax errors point at the fault",
  "If something stands in a text that cannot stand there (a character that no token has, a closing bracket that closes nothing), parse and create_tree raise an error whose line and column, as attributes and in its message, are those of the first such place, counted from one in the given text "
  "or decoded file, whatever stands before it (comments, blank lines, tabs, CRLF, long lines, multi-line strings) or after it; and no syntax error points before the last token up to which the text agrees with a valid document. A text with an odd number of triple quotes is instead "
  "rejected as a whole, with a ValueError that says that the content is invalid and names the file, if it is one.",
  ["inputs"],
  "all documents of the catalogue with every fault at every gap, every trivia before it, pairs of faults, every token edit, distances up to tens of thousands of lines and columns, text and file",
  "Tests have a handful of invalid texts and look at the kind of the error only.",
  [M, G, V], [("_create_tree: errors of the parsing library and of the validator", M), ("multi_line_string_valid", V)], observe=["line, column and message of the error"])

p("C25", "The tree rendering shows everything that is written",
  "create_tree shows every name, string, integer and function or decorator name of a document exactly once, in source order, each on a line that is indented by its depth. The rendering of several declarations is composed of the renderings of each; a value is rendered the same wherever it stands, but "
  "for the indentation; documents with different results have different renderings (an alias `None` aside, which looks like an absent one); and spacing, comments, line breaks and the line number setting do not change a rendering.",
  ["inputs"],
  "the documents of the models of C01-C10, C19, C21; all pairs and long sequences of declarations; every value in every place; all pairs of some hundred documents that differ in little; every trivia at every gap",
  "Tests render a single document.",
  [M, G], [("create_tree", M), ("rules and their aliases", G)], observe=["value of create_tree"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
