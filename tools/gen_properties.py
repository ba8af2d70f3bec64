#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

R="src/reader.rs"; C="src/compiler.rs"; J="src/model/json.rs"; S="src/model/schema.rs"; I="src/import.rs"; RES="src/resolve.rs"; D="src/doc_comments.rs"; M="src/main.rs"; E="src/error.rs"; SG="src/suggest.rs"; PR="src/model/protocol.rs"

p("C01","A compiled protocol says exactly what the IDL declared",
  "For every valid protocol written in Avro IDL, the emitted protocol JSON read under the Avro specification denotes exactly what was declared: protocol name, namespace, doc and custom properties; every named type with its kind, full name, doc, aliases, custom properties, fields (name, type, default, order, aliases, doc, properties), symbols, enum default or size; and every message with its request, response, errors, one-way flag, doc and properties. Types appear in declaration order, each defined in full at its first use and referred to by name everywhere after, and nothing is added, lost or reordered.",
  ["inputs"],"all valid protocol files over the whole declaration grammar (nesting, forward, backward and self references, several namespaces, several variables per declaration, annotations, docs, defaults), of any size",
  "the existing tests compare a fixed list of files and snippets with golden JSON; interactions between features (a forward reference inside a union inside an imported namespace, a default on the third variable of a declaration) are unbounded and are not sampled",
  [R,C,J,S],[("declaration walk","src/reader.rs walk_* functions"),("JSON emission with first-use inlining","src/model/json.rs protocol_to_json, schema_to_json, field_to_json, message_to_json")],
  ["IdlOutput.json of Idl::convert / convert_str"])
p("C02","Every successful compilation yields a well-formed Avro document",
  "Whatever the input, if compilation succeeds then each emitted document satisfies the Avro specification's structural rules: every named type is defined exactly once and before any reference to it, every reference resolves (and is not spelled like the keyword of a complex type if its name has a namespace), type names and their namespaces, field and parameter names and enum symbols are legal Avro names (with Unicode letters and digits allowed), fields, symbols and request parameters are unique, and unions neither nest nor repeat a branch. Enum defaults name a symbol, one-way messages return null and declare no errors, fixed sizes are non-negative integers and order values are legal.",
  ["inputs","programs"],"every input the compiler accepts, including mutated and randomly assembled sources and imported JSON, not only sources built to be valid",
  "tests check chosen outputs against chosen expectations; they never apply a validity predicate to the outputs of arbitrary accepted inputs, where an accepted-but-invalid program would show",
  [R,C,J,RES,I,S],[("name validation at registration","src/resolve.rs SchemaRegistry::register"),("reference validation","src/compiler.rs validate_all_references"),("known-name tracking during emission","src/model/json.rs named_type_preamble"),("union checks","src/reader.rs union walking")],
  ["IdlOutput.json","SchemataOutput.schemas"])
p("C03","Extracted schemata are complete, self-contained and agree with the protocol",
  "Extracting schemata from any accepted IDL gives exactly one entry per named type, imported types included, in declaration order and titled with the type's simple name. Each entry on its own is a complete Avro schema that defines every type it mentions exactly once before use, and each definition in it has the same meaning (full name, fields, types, defaults, docs, aliases, properties) as that type has in the compiled protocol.",
  ["inputs","programs"],"all valid IDL files in protocol, schema and bare-declaration form, with arbitrary reference graphs between types in several namespaces",
  "golden schemata exist for a handful of files; whether a type's closure is inlined correctly depends on the reference graph, of which there are unboundedly many",
  [C,J,RES],[("per-type emission with fresh known names","src/compiler.rs Idl2Schemata::extract_impl"),("closure lookup","src/model/json.rs build_lookup")],
  ["SchemataOutput.schemas of Idl2Schemata::extract / extract_str"])
p("C04","Schema-mode files compile to exactly the declared main schema",
  "For a file with a main schema declaration (with or without a namespace declaration), compiling gives the Avro schema denoted by that type expression, with all named types it reaches inlined at first use and resolved in the file's namespace, and nothing else. A file holding only bare named declarations or only imports is refused when a single document is asked for, yet its types can still be extracted.",
  ["inputs","configurations"],"all type expressions (primitives, logical types, arrays, maps, unions, nullables, references, annotations on them) over all sets of accompanying named types, with and without a namespace declaration",
  "about twenty schema-mode tests use one type expression each; nested expressions over several accompanying types and namespaces are not covered",
  [R,C,J],[("schema-mode walk","src/reader.rs walk_idl_file"),("schema-mode emission and bare-file rejection","src/compiler.rs Idl::convert_impl")],
  ["IdlOutput.json","Err from Idl::convert","SchemataOutput.schemas"])
p("C05","Names resolve by Avro namespace rules, whatever the writing style",
  "A type reference denotes the fully qualified name it spells, or, if undotted, the name in the namespace of the innermost enclosing declaration; a declaration's namespace comes from its own dotted name, else from its namespace annotation, else from the enclosing file or protocol. Rewriting a program by replacing any reference, alias or declaration by another spelling of the same full name leaves the denoted types unchanged, a reference whose full name is declared nowhere is an error, and types with equal simple names in different namespaces (the empty one included) are never confused in the output.",
  ["inputs","programs"],"all placements of same-named and differently-named types over several namespaces, including none, and all equivalent spellings of declarations, references and aliases",
  "tests fix one or two namespaces and one spelling; confusion needs particular coincidences of simple names, enclosing namespaces and spelling",
  [R,J,S,RES],[("namespace computation at declaration","src/reader.rs compute_namespace and related"),("reference construction","src/reader.rs make_reference"),("shortening on output","src/model/json.rs schema_ref_name, named_type_preamble, alias_ref_name")],
  ["IdlOutput.json","SchemataOutput.schemas","Err from compile"])
p("C06","Importing JSON is equivalent to importing the same definitions as IDL",
  "For any set of definitions, importing them as Avro IDL, as a protocol JSON file or as schema JSON files (in any legal JSON spelling: inline or by reference, dotted or separate namespace, with or without defaults, docs, logical types and custom properties) contributes types and messages with the same meaning. In particular re-importing a protocol's own compiled output into an empty protocol of the same name and namespace yields the same definitions and messages again.",
  ["inputs","configurations"],"all definition sets and all legal JSON spellings of them, through all three import kinds",
  "the import tests use a few hand-written JSON files; equivalence over arbitrary schemas and spellings needs generated pairs of inputs and a comparison of the two results",
  [I,C,J],[("JSON schema to model","src/import.rs json_to_schema and helpers"),("flattening of inline definitions","src/import.rs flatten_schema"),("protocol import","src/import.rs import_protocol")],
  ["IdlOutput.json of a file importing JSON"])
p("C07","Import graphs are followed completely, once each, in order, from the right place",
  "For every graph of files importing each other, cycles, diamonds, self-imports and differently spelled paths to one file included, compilation terminates and yields every reachable declaration exactly once, ordered by position in a depth-first reading of the import statements and declarations. An import path is looked up first relative to the file that states it and then in the import directories in the order given; if it is nowhere, compilation fails naming it, and a message defined by a file itself wins over a same-named message that file imports.",
  ["inputs","programs","configurations"],"all import graphs over files in several directories, all mixtures of the three import kinds, all import-directory lists and all ways of spelling relative paths",
  "tests have two-file cycles and one nested import; order and lookup depend on the whole graph, on shadowed file names and on directory order",
  [I,C],[("visited set and search","src/import.rs ImportContext::resolve_import, mark_imported"),("sequential processing","src/compiler.rs process_decl_items, resolve_single_import")],
  ["IdlOutput.json","SchemataOutput.schemas","Err from compile"],
  state=[("visited files","canonical paths already imported in this compilation","src/import.rs ImportContext")])
p("C08","A default value is accepted exactly when it fits its type",
  "A field or parameter default written in IDL is accepted exactly when it is a valid Avro default for the declared type: JSON kind and integer range for primitives, strings for enum, fixed, bytes and string, element by element for arrays and maps, some branch for unions, and for records an object supplying every field that lacks a default with a fitting value; otherwise compilation fails. This also holds when the type is a reference to an already declared type, and an accepted default is emitted with the same value.",
  ["inputs"],"all pairs of a type (any nesting, through references to declared types) and a JSON value, valid or one step away from valid",
  "tests try individual type/value pairs; the accept/reject frontier over nested types is unbounded, and mistakes lie at its corners (integer bounds, float forms, missing record fields, empty containers)",
  [S,R,C],[("default validation","src/model/schema.rs is_valid_default, validate_record_field_defaults"),("deferred validation through references","src/compiler.rs process_decl_items")],
  ["Ok/Err of Idl::convert_str","field default in IdlOutput.json"])
p("C09","Literals in IDL denote the same values in the output",
  "Every integer, floating-point, string, boolean, null, array and object literal written in IDL, in any spelling the language allows (decimal, hexadecimal or octal radix, suffixes, exponents and hexadecimal floats, every escape sequence including Unicode ones), appears in the output as the JSON value it denotes under Java literal rules. Not-a-number and infinite values become the strings naming them, floating-point values are correctly rounded to double precision, and an integer outside the signed 64-bit range is rejected rather than altered.",
  ["inputs"],"all literals of each kind in all their spellings, at numeric boundaries, in defaults and in annotation values",
  "unit tests list a few dozen literals; rounding, boundaries, radix/sign combinations and escape adjacency form an unbounded space",
  [R],[("integer literals","src/reader.rs parse_integer_as_json"),("floating-point literals","src/reader.rs parse_floating_point_literal, hex float parsing"),("string literals","src/reader.rs unescape_java")],
  ["values of annotations and defaults in IdlOutput.json"])
p("C10","Annotations land on the construct they are attached to, unchanged",
  "Each custom annotation's value appears, as the same JSON, on exactly the construct it precedes: protocol, named type, field or parameter variable, message, or primitive, array, map or logical type expression. Namespace, aliases and order annotations take their Avro meaning where the construct supports it and are ordinary properties elsewhere, an annotation whose name is structural for its construct is rejected, and an annotation on a type reference is rejected instead of altering the referenced type.",
  ["inputs"],"all annotation names, values and positions, repeated over all constructs, including names special for one construct but not for another",
  "tests annotate a few constructs with a few names; the name-by-position matrix with arbitrary JSON values is not covered",
  [R,J,S],[("property processing by context","src/reader.rs process_schema_properties"),("reserved names","src/reader.rs *_RESERVED tables"),("emission","src/model/json.rs finish_named_type, field_to_json, message_to_json")],
  ["IdlOutput.json","Err from compile"])
p("C11","Logical types are spelled, promoted, bounded and kept as Avro defines",
  "Each logical-type keyword compiles to its Avro base type with that logical type, decimal keeping its precision and scale, and a logical type given by annotation on a fitting base type gives the same result as the keyword. An unfitting, incomplete or unknown logical type leaves the base type and all its annotations untouched, a decimal with zero precision or scale above precision is rejected in keyword form, and the same rules apply to logical types in imported JSON.",
  ["inputs","configurations"],"all logical types, base types, precision and scale values, extra annotations, and both keyword, annotation and imported-JSON forms, in any type position",
  "tests pick single logical types in single positions; base/logical mismatches, bounds and the three input forms multiply beyond them",
  [R,I,S,J],[("keyword forms","src/reader.rs walk_primitive_type"),("annotation promotion","src/reader.rs try_promote_logical_type"),("JSON form","src/import.rs logical-type handling")],
  ["IdlOutput.json"])
p("C12","Semantically invalid programs are always rejected",
  "A program that breaks one of the language's rules is rejected with an error, wherever in the program the fault lies and whatever surrounds it: duplicate type, field, parameter or symbol names, undefined references in any type position, nested or repeating unions, an error thrown twice by one message, illegal or reserved names and namespaces, ill-typed special annotations, imported JSON definitions lacking a part, an enum default that is not a symbol, a non-void one-way message, a wrong-kind default written in IDL, a missing or unreadable (for instance not UTF-8) file. No document is produced in that case.",
  ["inputs","programs"],"all valid programs with one fault of any of these kinds planted at any applicable position",
  "each rule has a test or two in a minimal program; that the rule is applied at every position, in every file of an import graph and in every file mode is not tested",
  [R,C,RES,S,I],[("reader checks","src/reader.rs walk_* duplicate and reserved checks"),("registry checks","src/resolve.rs SchemaRegistry::register"),("reference check","src/compiler.rs validate_all_references")],
  ["Err from Idl::convert, Idl2Schemata::extract"])
p("C13","Diagnostics point at the fault",
  "When a program with a single semantic fault is rejected, the error names the file that contains the fault and its highlighted region lies on the faulty construct in that file's text; the name or value at fault is mentioned. When several names are undefined, all of them are reported, each once, in source order. When several defaults of one record or message do not fit the declared types they refer to, all of these are reported, each once, in source order.",
  ["inputs","programs"],"all faulty programs of the kinds above, with arbitrary surrounding text (multi-byte characters, comments, long lines, any line ends) and the fault in the main or an imported file",
  "snapshot tests fix about thirty minimal programs, nearly all ASCII and with one faulty construct; position arithmetic fails on shifted, non-ASCII or multi-file text",
  [E,R,C],[("span recording","src/error.rs SpanWithSource, ParseDiagnostic"),("span selection","src/reader.rs make_diagnostic; src/compiler.rs validate_all_references, wrap_import_error")],
  ["labels and source of the returned miette report"])
p("C14","No input crashes the compiler, and every report can be rendered",
  "For every input text, well-formed or not, and every content of imported files, each entry point returns a result or an error without panicking or aborting. Every error and warning it returns can be rendered, and each highlighted region lies inside the text it refers to, on character boundaries.",
  ["inputs"],"all byte sequences that are valid text (and, for files, arbitrary bytes), with emphasis on near-valid, truncated and spliced sources and JSON, up to moderate nesting depth",
  "tests feed a few dozen broken inputs; panics live in unforeseen combinations (multi-byte characters near errors, truncated tokens, odd JSON shapes)",
  [R,E,I,D,C],[("error strategy and token handling","src/reader.rs error listeners and refine_* helpers"),("JSON import","src/import.rs"),("offset handling","src/error.rs")],
  ["Ok/Err of every public entry point","rendering of returned reports"])
p("C15","Results are a pure function of sources and configuration",
  "Compiling the same sources with the same import directories always gives identical output, identical warnings in identical order, and on failure an identical error, in any process and however often it is repeated. A builder's earlier calls, successful or failed, never influence a later call's result, and after each call the drained warnings are those of that call alone.",
  ["inputs","histories"],"all inputs, valid and invalid, repeated runs, and all sequences of conversions, extractions and drains on one builder",
  "single-shot tests cannot see run-to-run variation from hash ordering or state carried between calls of a reused builder",
  [C,J,R],[("fresh context per call","src/compiler.rs IdlCompiler::compile"),("ordering of diagnostics","src/compiler.rs validate_all_references")],
  ["IdlOutput, SchemataOutput, errors and drain_warnings over histories"],
  state=[("accumulated warnings","warnings kept by a builder after a call","src/compiler.rs IdlCompiler.accumulated_warnings")])
p("C16","Doc comments attach to their declaration with exact text; strays are reported",
  "A doc comment directly before a declaration (protocol, type, field, variable, parameter, message; other comments and annotations in between allowed) becomes that declaration's doc, with comment delimiters, leading star columns and common indentation removed and the text otherwise unchanged; with several in a row the last one counts. A doc comment that documents nothing never changes the output and yields exactly one warning located on it, and ordinary comments yield neither.",
  ["inputs"],"all comment texts (any characters, indentation, star styles, line ends) at all token positions of all programs",
  "tests cover one comment file and some unit cases of stripping; text shapes and positions combine freely",
  [D,R],[("extraction and stripping","src/doc_comments.rs"),("orphan detection","src/reader.rs orphan warnings")],
  ["doc values in IdlOutput.json","IdlOutput.warnings"])
p("C17","Layout and lexical spelling never change the result",
  "Changing only whitespace, line ends, ordinary comments, optional backticks around names, the radix or suffix of integers, or the escaping inside strings never changes the compiled output or whether compilation succeeds. Text after an end-of-input control character is ignored.",
  ["inputs"],"all valid programs and all re-spellings of each at every token boundary",
  "tests have one layout per program; a metamorphic comparison over many layouts of one program is needed",
  [R,"src/generated/idllexer.rs"],[("lexing and identifier extraction","src/reader.rs extract_name and literal parsing"),("comment handling","src/doc_comments.rs, src/reader.rs")],
  ["IdlOutput.json of paired sources"])
p("C18","The command-line tool does exactly what the library does, and nothing on failure",
  "For every input and option set, the tool's standard output or output file holds the library's result as JSON, the schemata command writes exactly one correctly named file per extracted schema into the given directory and nowhere else, and dashes and omitted arguments mean the standard streams and the current directory as documented. A written file ends with exactly one line end, standard output with none, as the reference tool's do. On any failure the exit status is non-zero and the problem is reported on standard error, and when the input cannot be read or compiled no output is produced nor an existing output file changed; warnings go to standard error only and do not alter the status.",
  ["inputs","configurations"],"all argument combinations over files, directories, standard streams and import directories, for valid, warning-producing and failing inputs, over pre-existing outputs",
  "the CLI tests run about twenty fixed command lines; agreement with the library and absence of side effects over arbitrary inputs and argument shapes are not checked",
  [M,C],[("argument handling and output","src/main.rs run_idl, run_idl2schemata"),("directory walk","src/compiler.rs extract_directory")],
  ["process exit status, stdout, stderr and the file tree of the avdl binary"])
p("C19","Extracting a directory equals extracting its IDL files one by one in order",
  "Extracting schemata from a directory tree gives the concatenation, in sorted path order, of what each IDL file in it gives alone, with the warnings likewise concatenated; other files and the layout of unrelated directories are ignored, and files do not see each other's types except through imports. If any file fails, the whole extraction fails, and the warnings of the files before it remain retrievable.",
  ["inputs","configurations"],"all directory trees mixing IDL files, other files, nested and empty directories, and names that sort in various ways",
  "one or two tests use a flat directory; nesting, ordering, oddly named entries and failing members are not covered",
  [C],[("directory walk and concatenation","src/compiler.rs Idl2Schemata::extract_directory")],
  ["SchemataOutput of Idl2Schemata::extract(dir)","drain_warnings"])
p("C20","Nullable shorthand means a two-branch union ordered by its default",
  "A type followed by a question mark denotes the union of null and that type, null first; where the declared variable's default is not null, the other branch comes first, decided for each variable separately. The result is the same as writing the corresponding explicit union, in every position where a type may occur and for every type that may be made nullable, and making null itself nullable is rejected.",
  ["inputs"],"all nullable types in all positions (fields, several variables of one declaration, parameters, responses, containers, unions, main schemas) with any default",
  "tests cover a few primitives with null and non-null defaults; several variables sharing a nullable type, logical types, references and nested positions are not combined",
  [R],[("nullable construction and reordering","src/reader.rs walk_nullable_type, fix_optional_schema")],
  ["field types in IdlOutput.json"])
p("C21","Warnings are never lost, invented or duplicated",
  "Each warning-worthy construct (a misplaced doc comment, an illegal alias, an annotation dropped from a union, an unrecognised character) in any reachable IDL file yields exactly one warning that identifies its file and place, file by file in the order the files are read, and programs without such constructs yield none. The warnings are delivered with a successful result, remain retrievable when the compilation later fails, and never turn a success into a failure or change its output.",
  ["inputs","programs","histories"],"all valid and faulty programs and import graphs with any number of warning-worthy constructs anywhere in them",
  "tests check a few single-warning files; counts, order and file attribution over import graphs and failing programs are not tested",
  [C,R,E],[("collection across imports","src/compiler.rs resolve_single_import, parse_and_resolve"),("orphan and lexer warnings","src/reader.rs parse_idl_named")],
  ["IdlOutput.warnings, SchemataOutput.warnings, drain_warnings"],
  state=[("accumulated warnings","warnings kept for retrieval after failure","src/compiler.rs IdlCompiler")])
p("C22","Suggestions for undefined names are sound and nearest",
  "When an undefined type name is reported with a suggestion, the suggested name is a primitive or a declared type and none of these is strictly closer to the misspelt name in edit distance counted in characters. A name of five or more characters that is one character edit away from exactly one declared type or primitive always receives that suggestion. A suggestion is never more than two edits away. A note that primitives are written in lower case comes with a suggested primitive exactly when the name differs from it only in the case of letters. `void` used as a type and `decimal` used without precision and scale are explained as that instead. A keyword suggested for a word in a syntax error is a keyword of the language, and none is closer to that word.",
  ["inputs"],"all sets of declared names, ASCII or not, and all misspellings of them",
  "tests try a few typos against one or two declared types; nearest-ness needs many candidate names at controlled distances",
  [SG,C],[("edit distance","src/suggest.rs levenshtein"),("candidate choice","src/compiler.rs suggest_similar_name")],
  ["help text of the returned report"])
p("C23","Comments and formatting in imported JSON never change its meaning",
  "Inserting line or block comments, whitespace, or a different member order into an imported JSON schema or protocol leaves the compiled result unchanged, while comment-like text inside JSON strings is preserved exactly. Escapes and number spellings in imported JSON are read as standard JSON.",
  ["inputs"],"all JSON schema and protocol files and all placements of comments and whitespace between tokens, with strings holding comment-like text",
  "tests use a few commented files; the interaction of comment removal with strings, escapes and quotes is unbounded",
  [I],[("comment stripping","src/import.rs read_json / json_comments use")],
  ["IdlOutput.json of a file importing JSON"])
p("C24","Work grows moderately with input size",
  "For every shape of program (wide or chained type graphs, shared references, long unions, nested containers, long doc comments, many imports or messages), the work done and output-independent memory used to compile it grow at most polynomially of low degree: doubling the size of the input multiplies the work by a small constant. No program of moderate size makes compilation exhaust memory or time.",
  ["inputs"],"all parametrised families of programs and imported files, as the parameter grows",
  "tests use small inputs, on which exponential and linear behaviour look alike",
  [S,C,J,I,R],[("default validation through references","src/model/schema.rs, src/compiler.rs resolve_for_validation"),("inlining","src/model/json.rs schema_to_json"),("import visited set","src/import.rs ImportContext")],
  ["number of allocations made by a compilation"])
p("C25","Exactly the texts of the IDL grammar are well-formed",
  "A text that conforms to the Avro IDL grammar (keywords as names, any layout and comments included) is never reported as malformed. A text that does not conform is always rejected, and the first syntax error reported states the line and column (line from 1, column from 0, in characters) of the first token that continues no conforming text, or of the end of the file; only a brace that is never closed may be reported before it, at the end of the file. A character that begins no token never passes without an error or a warning.",
  ["inputs"],"all texts: token and character edits of valid programs and arbitrary sentences of the grammar",
  "tests hold a few dozen malformed texts; conformance is a statement about every text, and a parser that recovers silently accepts what no test holds",
  [R],[("lexer preparation and error collection","src/reader.rs parse_idl_named, blank_empty_comments, CollectingErrorListener"),("error choice","src/reader.rs refine_errors_with_source")],
  ["Err/Ok of a conversion and the line:column of its report"])
p("C26","Malformed imported JSON is rejected, never reinterpreted",
  "A .avpr or .avsc file that is JSON but not a well-formed Avro protocol or schema, because a required part (protocol name, type, name, fields, symbols, size, items, values, request, response) is missing or of the wrong JSON kind, or an optional part (namespace, aliases, enum default, field order, errors, one-way, types, messages) is of the wrong kind, is rejected wherever in the file and however deep the mistake lies, by compiling and extracting alike, with a report that names the file and highlights the import that brings it in. No part of it is silently dropped or replaced by an empty one. Null counts as absence for namespaces, docs and enum defaults.",
  ["inputs"],"all protocol and schema files with one malformed part anywhere, imported directly or through other files",
  "the unit tests feed a few hand-made malformed files to the JSON readers; that every part is required and checked at every place is a statement over all files and positions",
  [J,C],[("JSON readers","src/import.rs json_to_schema, parse_record, parse_enum, parse_fixed, json_to_field, json_to_message, import_protocol"),("attribution to the import","src/compiler.rs resolve_single_import")],
  ["Err of Idl::convert and Idl2Schemata::extract of a file importing JSON, and its report"])
p("C27","Syntax mistakes are named for what they are, where they are",
  "Whatever a syntax-error report claims beyond `unexpected token` is true of the text, and true at the place it highlights: an empty union or an array/map without type parameter is one (and exactly it is highlighted); a trailing comma precedes the end of an enum and follows the symbol named; a fixed size that is no integer belongs to a fixed type of that name; a missing name follows its keyword; a brace said never to be closed is open there and opens the construct named; an annotation said to lack its value is written so; an import said to lack its kind does; an unterminated string is one; `did you mean` quotes the very token highlighted; an unexpected end of file is the end. Comments, strings, layout and the spelling of names never mislead these claims. Such a mistake planted alone in an otherwise valid file is named for what it is at its place.",
  ["inputs"],"all texts that are not well-formed: planted mistakes of each kind at any place, token and character edits, every layout",
  "the unit tests hold one or two texts per kind of mistake with plain layout; the reports are guessed from the text around the error, so that comments, strings and unusual names are where the guesses go wrong",
  [R],[("error enrichment","src/reader.rs enrich_antlr_error, refine_errors_with_source, detect_* functions, CollectingErrorListener")],
  ["messages, labels and helps of the Err of a conversion"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
