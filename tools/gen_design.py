text = r'''# Deciding avdl's properties by generated-input search

Family: property-based testing and fuzzing. One Rust harness (`harness/`, binary `vh`) links the library from
`/repo` by path and drives it (and, for C18, the `avdl` binary built from `/repo`) with generated cases.

* **Engine** (`tape.rs`, `runner.rs`): every case is decoded from a *choice tape* (a sequence of bounded integers). A
  seeded generator fills the tape (`VERIF_SEED` x property x case number); a failing tape is shrunk (block deletion,
  zeroing, value minimisation) and stored as the replay file (`run.sh --replay FILE`). Nothing else is random.
* **Isolation**: cases run in worker processes with a counting allocator. A worker that dies (stack overflow, abort),
  exceeds the per-case allocation budget or 25 s of CPU time in one case is confirmed by running that case alone and is
  then a violation; a wall-clock timeout is an error exit, never a violation. A quick run that has not ended after 500 s stops and
  answers with the cases explored so far (label `stopped-early`; it takes about a minute on 8 cores).
* **Oracles** (none calls avdl): a model of Avro IDL programs and its generator (`gen_.rs`), spellers to IDL
  (`render.rs`) and to JSON (`jsonr.rs`), an independent Avro-specification reader of the output (`spec.rs`), planted
  semantic faults (`faults.rs`), an independent lexer and an Earley recogniser for the grammar (`syntax.rs`; the lexer
  is maximal munch over the documented token rules), and per-property reference functions in `checks/`.
* **Access to avdl**: the public API only (`api.rs`); there are no hooks in `/repo`. `api.rs` renders every report it
  gets (all handlers), and checks every label. Reports with more than 8 MB of related volume are rendered only in part.
* **Work files** live in a fresh directory of `/dev/shm` (or `/tmp`) per worker, removed at the end. C18 runs the tool
  with its working directory and all its arguments inside such a directory.
* Quick tiers take 5-60 s each; thorough tiers run the same generators with larger sizes and 10-20 times the cases.
  The evidence file counts cases, non-trivial cases (rule stated per check) and shows samples.

## How each property is decided

Why generated search reaches what the tests cannot is the same throughout: the statements quantify over programs,
graphs, spellings, histories; the 703 tests sample a few dozen hand-written ones and mostly compare with recorded
output. Below: generator -> oracle; then the limits of the claim.

| id | generated | oracle |
|---|---|---|
| C01 | protocol models (types in several namespaces, forward/backward/recursive references, docs, annotations, defaults, messages) in random IDL spelling | the output read by the independent reader equals the model; order and place of definitions equal a depth-first first-use traversal of the model |
| C02 | valid models, token mutants, spliced sources, imported JSON with non-Avro parts | well-formedness predicate over every accepted output |
| C03 | models in the three file forms | each entry self-contained, its definitions equal the model's, entries in declaration order |
| C04 | schema-mode models, bare and import-only files | reader(output) = main type of the model; bare files refused but extractable |
| C05 | models with forced simple-name coincidences over namespaces | meaning equals model; equality between re-spellings; a dangling spelling must be rejected |
| C06 | one model as IDL, `.avpr` and `.avsc` files in random legal JSON spellings | equality with the model in each; re-import fixpoint |
| C07 | file graphs on disk with cycles, diamonds, shadowed names, search directories, odd path spellings | reference depth-first reading of the graph |
| C08 | (type, value) pairs near the validity frontier, in fields and parameters, also nested and long | independent default-validity function; accepted values emitted unchanged |
| C09 | literals by grammar with boundary bias | independent Java-literal decoder (exact big-integer rounding) |
| C10 | annotation name x value x construct | placement table applied to the model |
| C11 | logical types as keyword, annotation, imported JSON | promotion table applied to the model |
| C12 | valid model + one planted fault (main file, imported IDL, imported JSON) | must be rejected by compile and extract |
| C13 | as C12, place of the fault known; sets of undefined names | every label lies in the faulty construct of the right file; the offender is mentioned; order |
| C14 | byte/token/grammar/JSON mutants, truncations, splices | no panic or abort; all reports render; spans in bounds, on character boundaries |
| C15 | repeated runs with fresh hash seeds; call histories on one builder | equality between runs and with fresh builders |
| C16 | doc texts x token boundaries | independent stripping function; placement; warning positions |
| C17 | two spellings of one token sequence (valid or damaged) | equality of result |
| C18 | file trees x command lines for the binary, faults in the file system | library result + before/after file-tree diff |
| C19 | directory trees | concatenation of single-file results |
| C20 | nullable types and defaults in every position | explicit-union twin in one program, branch order |
| C21 | graphs with planted warning constructs, success and failure | exact expected warnings; twin without the constructs |
| C22 | sets of similar names, undefined references; misspelt keywords | naive edit distance |
| C23 | one JSON document in two texts | equality |
| C24 | parametrised program families at n and 2n | allocation count / bytes / output size ratios |
| C25 | token mutants of programs; sentences of the grammar | independent lexer + Earley recogniser: acceptance, position of the first error |
| C26 | generated Avro JSON with one structural mutation at any depth | table of required parts |
| C27 | planted and random syntax mistakes | each claim of each report checked on the independent token list; planted mistakes must get their own report |

### Limits of the claims (what was left out, and why)

* **C02** A reference spelled like the keyword of a complex type (`record`, `map`, ...) must carry a namespace-free
  full name; null-namespace references from a namespaced scope cannot be expressed in Avro JSON (see C05).
* **C05-C08, C12, C13, C23, C26** avoid programs in which a namespaced type mentions a null-namespace one, since no
  JSON spelling of them exists; C01/C02 read those with a rule that accepts a null-namespace type by its bare name.
* **C08** covers defaults written in IDL. Defaults of fields whose type is declared later are not validated by avdl (nor
  by Java) and are excluded; fields in imported JSON keep whatever default they have (C26 does not judge them either).
* **C09** no `\uu` escapes (not in the language); lone surrogates excluded.
* **C10** aliases that are dotted but illegal names are excluded (they warn, C21).
* **C11** a precision/scale given as a whole float (`4.0`) and annotations contradicting a logical keyword are excluded.
* **C12** types named like primitives inside a namespace are accepted from JSON; of two messages with one name in one
  file the last wins; JSON imports that redefine a known type are skipped by design: none is claimed a fault.
* **C13** the source shown may end at U+001A; for a duplicate or illegal type name any part of the declaration counts.
* **C14** nesting is bounded at 300 levels: deeper nesting overflows the stack of the recursive-descent ANTLR runtime
  (documented limit, no claim). For the same reason import chains above about 1000 files and chains of forward
  references above about 500 records are outside every claim (the resolver recurses along them; measured with the
  unoptimised command). Bodies of seven and more mutations are capped in size. The parser is
  an interpreter of ANTLR tables, for which edge coverage says little, so structured mutators are used without coverage
  feedback.
* **C16** docs between an annotation and its keyword are strays; star-only docs may be no doc or an empty one; U+0000 and
  U+10FFFF are replaced in generated docs.
* **C18** for failures to *write*, only a nonzero status and a report are required; a closed pipe is no error; two
  types of equal simple name overwrite each other (known finding); extra positional arguments are not claimed.
* **C19** sorted order is the component-wise path order; warnings carry paths as given. Unreadable subdirectories are
  skipped silently by the walk (not claimed).
* **C21** order between kinds of warnings within one file is not compared; warnings of a file that itself fails to parse
  may be lost; `aliases` on protocols and messages is an ordinary property there.
* **C22** void and decimal are no suggestible names in type positions; suggestions reach two edits.
* **C24** the bound is count(2n) <= 6 count(n) + 20 000, bytes <= 6 bytes(n) + 2 MB, re-measured once. The renderer of a
  report with thousands of cascaded syntax errors over one long text is quadratic (miette scans the text per report);
  that is not part of compiling and not claimed.
* **C25** the first error reported is compared; texts holding characters that begin no token only need some report.
  Lists of expected tokens are not judged. Known finding: `oneway`/`throws` as the name of a message's result type.
* **C26** docs of another kind, null optional parts, field defaults and the union `[]` are tolerated.
* **C27** lists of expected tokens and ANTLR's own phrasing are not judged, nor claims beside characters that begin no
  token; "never closed" means open at the first error; stray tokens between keyword and brace are tolerated, as are
  number tokens inside annotation names.

Refinements after false alarms: C16 once compared docs of a schema whose *properties* looked like a protocol's (fixed in
the reader); C27 tolerances above; C08 forward references; C21 order between kinds. Each was corrected in the oracle.

## Defects found

`known_findings.json` lists the findings left open (three) and every repaired defect with its `fix:` commit (35 commits).
A finding is matched by an exact key computed from the failing case, so other violations of the property still alarm.

## Planted bugs (`seeded/`)

Written from property text and code, each verified (compiles, 703 tests as before, demo 0/1). `first` = caught by the
check as it stood when the bug was planted; `strengthened` = missed at first, the generator or oracle was extended.

| bug | check | |
|---|---|---|
@@TABLE@@

A mutation campaign (one-token operator, constant, branch and call mutations over `src/`, ~1 100 mutants that survive
the 703 tests) was run over all checks as a further yardstick. Survivors were read one by one: most are equivalent (dead
branches, messages, capacity hints) and the others led to extensions (JSON fault kinds, defaults nested in containers,
messages in schema mode, warnings over imports, help texts, search-directory order, report claims = C25-C27).
'''
first="avpr-message-ns C06, backtick-mid C17, default-omit-nullable C08, doc-indent-first C16, empty-record-ns C05, extract-order C19, import-dir-first C07, logical-drops-precision C11, null-annotation C10, null-main-schema C04, nullable-shared C20, raw-json-key C09, refs-through-types C24, suggest-early C22, throws-default-ns C01, union-dup-text C12, warn-dedupe C21"
late="default-span-first C13, escape-panic C14, extract-cache C03, import-case C07, json-comment-lines C23, skip-same-size C18, cached-imports C15"
import json,os
extra=json.load(open('/verif/tools/planted.json')) if os.path.exists('/verif/tools/planted.json') else {}
rows=[]
for s,k in ((first,'first'),(late,'strengthened')):
    for x in s.split(', '):
        i,c=x.split(); rows.append((i,c,k))
for i,(c,k) in extra.items(): rows.append((i,c,k))
rows=[r for r in rows if os.path.isdir('/verif/seeded/'+r[0])]
rows.sort()
open('/verif/DESIGN.md','w').write(text.replace('@@TABLE@@','\n'.join('| %s | %s | %s |'%r for r in rows)))
have={r[0] for r in rows}
print('missing:',[d for d in os.listdir('/verif/seeded') if d not in have])
