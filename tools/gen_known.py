#!/usr/bin/env python3
"""Writes /verif/known_findings.json (findings suppress their own reproducer only; fixed entries suppress nothing)."""
import json
findings = [
 {"property": "C06", "key": "dotted-name-and-namespace",
  "what": "imported JSON {\"type\":\"fixed\",\"name\":\"a.b.C\",\"namespace\":\"x.y\",\"size\":3} is read as x.y.C; Avro ignores the namespace attribute of a dotted name (a.b.C). Pinned by the existing unit test record_with_qualified_name_explicit_namespace_takes_precedence, so not repaired"},
 {"property": "C18", "key": "same-simple-name",
  "what": "`avdl idl2schemata` on a.R and b.R writes both to R.avsc, so the first is lost without a word. The Java tool does the same; telling the two apart needs a decision on naming, so not repaired"},
 {"property": "C25", "key": "oneway-throws-response",
  "what": "protocol P { record oneway {} oneway a(); } is rejected: a message may not begin with the unquoted name of a type called oneway or throws, though the grammar allows it as it does every other keyword. The cause is in the antlr4rust runtime (its set of acceptable next tokens loses the two), so not repaired here; backticks work"},
]
fixed = [
 ("C17", "eaf6e55", "`/**/` followed later by `*/` was lexed as one doc comment, so the text in between vanished"),
 ("C09", "2a6c0f4", "-0x8000000000000000 and its octal form were rejected"),
 ("C09", "a0203de", "hexadecimal floating-point literals lost low bits or were rejected"),
 ("C05", "54dd39e", "a type of the null namespace (imported into a protocol with a namespace) was emitted without \"namespace\":\"\", so its name and references changed meaning"),
 ("C02", "f7c72a5", "illegal field and symbol names (`x-y`, `a.b`) were accepted and emitted"),
 ("C02", "7755d37", "imported JSON that is not valid Avro (nested or repeating unions, illegal names, enum defaults that are no symbol, one-way messages with a response) was accepted and emitted, illegal type names were silently dropped"),
 ("C06", "6132957", "named types defined inside the messages of an imported .avpr were not declared (references rejected, extraction lacked them)"),
 ("C07", "3f9e9f2", "a message of an imported IDL file was overridden by a same-named message that file imports"),
 ("C24", "06442a3", "validating a default of a reference type expanded the whole type graph: exponential time and memory for chained records with several references each"),
 ("C08", "06442a3", "a default with a wrong part was accepted whenever any type reachable from its type was declared later or recursive"),
 ("C11", "4d2015c", "imported JSON: a logical type on an unfitting base changed the base type or dropped properties, decimals with bad precision were rejected; IDL: a decimal annotation with scale above precision was promoted, an ill-typed scale dropped"),
 ("C12", "40ab421", "an imported .avpr file holding 42 (or null, [], {}, or types or messages of the wrong shape) was accepted as an empty protocol"),
 ("C15", "425864c", "an undefined name used twice in different places was reported at a place that varied from run to run"),
 ("C12", "a58f38e", "an undefined name in the main schema of an imported IDL file was accepted"),
 ("C12", "7f25ae4", "an undefined name in the top-level schema of an imported .avsc (\"Missing\" or [\"null\",\"Missing\"]) was accepted"),
 ("C12", "13826b9", "an undefined name in a message of an imported protocol was accepted if the importing file is no protocol or replaces the message"),
 ("C13", "754c32b", "an undefined name in an imported JSON file was attributed to the wrong import statement or file"),
 ("C13", "39cccae", "`fixed A ( 0 ) ;` followed by a stray `)` was reported as a non-integer size of A"),
 ("C14", "6757fe0", "an unexpected end of file highlighted a region past the end of the text"),
 ("C14", "a4eed53", "an unrecognised character after multi-byte characters on its line was highlighted elsewhere, also in the middle of a character"),
 ("C08", "8a8ab56", "defaults of message parameters whose type is a reference were not validated"),
 ("C14", "e9dcb5a", "the error for a text that is neither a protocol nor a schema highlighted part of a multi-byte character"),
 ("C15", "f907b5d", "warnings of an earlier call were still returned after a call that failed to read its input or an empty directory"),
 ("C21", "f907b5d", "warnings of the files read before the failing one were lost when extracting a directory failed"),
 ("C19", "379c8bb", "a directory named x.avdl made the extraction of its parent fail"),
 ("C15", "8fcc627", "the annotations dropped from a union were listed in an order that varied from run to run"),
 ("C22", "12ebcaa", "edit distances mixed byte lengths with character positions, so that a name that is not ASCII was suggested for anything, or never"),
 ("C14", "ea86c38", "a report whose highlighted region begins more than 65,535 columns into its line made the renderer (and so the tool) panic"),
 ("C25", "d269938", "a comment holding U+0000 or U+10FFFF was not recognised as a comment, and the rest of its text was parsed as IDL"),
 ("C06", "e2f78d5", "types of an imported protocol whose name is dotted (and states its namespace that way) were read without that namespace"),
 ("C26", "3a9cd51", "imported records without fields, enums without symbols, messages without request or response were accepted as empty ones; aliases, symbols, namespaces, enum defaults, errors and one-way of the wrong kind were dropped"),
 ("C26", "be84b5b", "imported field orders other than the three lower-case words were dropped"),
 ("C27", "148d8b5", "syntax-error reports were guessed from the text of comments (wrong constructs, symbols and braces named)"),
 ("C27", "e2835a1", "a comma before a closing brace outside enums was reported as a trailing comma of an enum"),
 ("C27", "b1d9d11", "annotation and keyword reports were taken from ANTLR's merged text: wrong or inexistent annotation names, words of different tokens glued together"),
 ("C27", "284ac22", "reports of syntax mistakes named parts of words (dotted, quoted, non-ASCII names, names like x.fixed or x.record) as keywords or names"),
 ("C12", "18a0f03", "an error repeated in the throws clause of a message was accepted, and the protocol written could not be read back"),
 ("C12", "a6ce14c", "an undefined name in an entry of an imported protocol's types that defines nothing (\"zq\", [\"null\",\"zq\"], an array of it) was accepted"),
 ("C27", "c98b18d", "a stray `)` after a string holding `fixed Zq(` was reported as a non-integer size of that fixed"),
 ("C18", "6adfdb6", "`avdl idl` exited with 0 when the last (or only) line of its output could not be written to standard output"),
]
json.dump({"findings": findings, "fixed": [f"fixed: property={p} {c} {w}" for p, c, w in fixed]}, open('/verif/known_findings.json','w'), indent=1)
