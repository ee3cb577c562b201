#!/usr/bin/env python3
# Writes properties.jsonl. Kept as a script so that the long texts are readable.
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Concurrent readers of one parsed configuration get the solo result",
"Any number of goroutines may evaluate, decode, inspect and navigate the same parsed configuration at the same time, each with its own variables and functions, whether it was parsed from native or JSON syntax, merged from several files, dynamically expanded, transformed or received over the packed transport. Each of them gets exactly the values and diagnostics it would get if it were alone, on first and on repeated use, and none of them changes the configuration. No two of them access the same memory without synchronisation.",
["schedules","inputs"],"all interleavings of 2 to 6 readers over one configuration, all mixes of reading operations, generated configurations",
"The existing tests are single-threaded: each evaluates a freshly parsed configuration once. Per-node scratch state (such as the item slot of a splat expression), lazily filled caches and slices that share a backing array only misbehave when two evaluations overlap.",
["hcl/hclsyntax/expression.go","hcl/hclsyntax/structure.go","hcl/hclsyntax/expression_template.go","hcl/json/structure.go","hcl/merged.go","ext/dynblock/expand_body.go","ext/transform/transform.go","hclpack/structure.go","hclpack/expression.go","hcled/navigation.go","gohcl/decode.go","hcldec/public.go"],
[("per-context item slot of splat expressions guarded by a lock","hcl/hclsyntax/expression.go"),("remaining-body views share the parsed body and differ only in what they hide","hcl/hclsyntax/structure.go"),("expression re-parse on evaluation of packed and JSON expressions","hclpack/expression.go, hcl/json/structure.go")],
[("parsed body and expressions","shared by all readers, must stay as parsed")],
["value and diagnostics of every read","a dump of the configuration before and after","happens-before order of every memory access"])

p("P02","Unrelated work in one process never interferes",
"Goroutines that parse, format, edit, encode, pack, decode or print diagnostics for inputs of their own get byte for byte what each would get alone. This holds in every interleaving and after any earlier work of the same process, including work that failed, and no two of them access the same memory without synchronisation.",
["schedules","histories","inputs"],"all interleavings of 2 to 6 goroutines that each run their own sequence of library operations on their own inputs, and all histories of earlier work",
"Tests run one operation at a time in a fixed order; hidden package-level state (shared sentinel objects, scratch buffers, caches, parser tables) only shows when operations on different inputs overlap or follow each other.",
["hclwrite/format.go","hclwrite/parser.go","hclwrite/generate.go","hclwrite/ast_body.go","hcl/hclsyntax/public.go","hcl/hclsyntax/parser.go","hcl/hclsyntax/scan_tokens.go","hcl/json/parser.go","hcl/diagnostic_text.go","gohcl/encode.go","hclpack/pack_native.go","ext/typeexpr/get_type.go"],
[("token formatter with a shared end-of-line sentinel","hclwrite/format.go"),("package-level parser and operator tables","hcl/hclsyntax/parser.go"),("schema derivation from Go types","gohcl/schema.go")],
None,["bytes, values and diagnostics returned to each goroutine","happens-before order of every memory access"])

p("P03","Specs, functions and parent scopes can be shared by concurrent decoders",
"A decoding specification, a Go struct type used for decoding, a user-defined function, a parent evaluation context and a diagnostic-source table may be built once and then used at the same time by many goroutines that decode or evaluate different configurations. Each goroutine gets exactly the result it would get alone, and sharing is free of unsynchronised access, including the very first concurrent use.",
["schedules","inputs"],"all interleavings of 2 to 6 decoders over shared specifications, functions and scopes, generated specs and configurations",
"Tests use each spec, function and context from one goroutine. First-use initialisation, appends to slices owned by the spec and writes into a shared scope are invisible without overlap.",
["hcldec/spec.go","hcldec/decode.go","hcldec/schema.go","hcldec/block_labels.go","ext/userfunc/decode.go","hcl/eval_context.go","gohcl/schema.go","hcl/diagnostic_text.go","ext/typeexpr/public.go"],
[("schema built from a spec on each decode","hcldec/schema.go"),("label names prepended while descending into nested block specs","hcldec/spec.go"),("base context fetched on demand by user functions","ext/userfunc/decode.go")],
None,["value and diagnostics returned to each goroutine","happens-before order of every memory access"])

p("P04","Every item of a body is delivered exactly once across its consumers",
"When a body is consumed piecewise, each consumer taking the attributes and blocks it knows from what the previous ones left, then over the whole chain every attribute and every block is delivered to exactly one consumer or reported as unsupported at the end, in source order per consumer and with its labels and expression intact. A consumer that requires an attribute that is not there, or has already been taken, is told so. Asking the same body again, from the same or another goroutine, delivers the same items again, and a chain's result does not depend on what other chains over the same body do.",
["histories","schedules","inputs"],"all consumption histories (chains and trees of partial reads, repeats, full reads, attribute-only reads), interleaved over one body, for native, JSON, merged, expanded, transformed and packed bodies",
"Tests read a body once or twice with fixed schemas. The quantifier is over histories: which names earlier readers took, in which order, how often, and on which derived view.",
["hcl/hclsyntax/structure.go","hcl/json/structure.go","hcl/merged.go","ext/dynblock/expand_body.go","hclpack/structure.go","hcl/structure.go","ext/transform/transform.go"],
[("hidden-attribute and hidden-block sets of a remaining body","hcl/hclsyntax/structure.go, hcl/json/structure.go, hclpack/structure.go"),("delegation to several bodies with duplicate detection","hcl/merged.go")],
[("hidden sets","names already delivered to an earlier consumer")],["content, remaining body and diagnostics of every read"])

p("P05","Results do not depend on the process's internal randomness",
"Given the same inputs, every operation of the library and of its commands returns the same values, the same set of diagnostics (text and source ranges) and the same output bytes in every process, whatever the hash seeds and map iteration order of that process are. Repeating it within one process changes nothing either.",
["schedules","inputs"],"all map seeds and iteration offsets of the runtime, for generated valid and invalid configurations and every operation",
"A test run sees one random iteration order per map; an order-dependent result that shows in one order out of many passes most runs, and tests with one-element maps can never see it.",
["hcl/hclsyntax/expression.go","hcl/traversal.go","hcl/hclsyntax/didyoumean.go","hclwrite/ast_body.go","hclwrite/generate.go","hcl/diagnostic_text.go","gohcl/encode.go","gohcl/schema.go","hcldec/spec.go","hcldec/schema.go","cmd/hcldec/vars.go","cmd/hcldec/diags_json.go","hcl/merged.go","hcl/hclsyntax/structure.go"],
[("suggestions computed while ranging over maps of names","hcl/hclsyntax/expression.go, hcl/traversal.go"),("schemas and diagnostics built while ranging over maps","hcldec/spec.go, hcl/hclsyntax/structure.go"),("block lists kept in sets","hclwrite/ast_body.go")],
None,["values, diagnostics and bytes under different map seeds"])

p("P06","hclfmt -w never destroys a configuration file",
"While and after hclfmt rewrites a file in place, the file always holds either exactly its previous content or exactly its complete formatted content; this holds when any system call fails or is cut short, when the process is killed at any point, when the machine loses power at any point, and for a concurrent reader. The file keeps its permissions, a symbolic link stays a link, a file that needs no change, or that fails the syntax check asked for with -check, is left alone, and no other file is changed; an orderly run leaves no other file behind.",
["crash_points","fault_sequences","inputs"],"every system-call boundary of the rewrite, every error, short write, kill and power loss at it, generated files",
"The command has no tests at all, and a test could not place a crash or a full disk between two system calls.",
["cmd/hclfmt/main.go","hclwrite/public.go","hclwrite/format.go"],
[("rewriting the input file with its formatted form","cmd/hclfmt/main.go")],
[("target file","old or complete new content at every instant")],["file system state at every instant and after restart"])

p("P07","hclfmt's exit status and output tell the truth",
"If hclfmt exits with status 0 then every file it was asked to process was read completely and its complete formatted form is in the file (with -w) or on standard output (without), with -check no file has syntax errors, and with -require-no-change no file needed formatting. If a file could not be read or written, fails these checks, or the output could not be delivered, it exits with a non-zero status and says why on standard error.",
["fault_sequences","inputs","configurations"],"all single and double system-call failures and short transfers on inputs, outputs and standard streams, all flag combinations, generated files",
"The command has no tests; failing reads, closed pipes and full disks do not occur in a unit test.",
["cmd/hclfmt/main.go","hclwrite/public.go"],
[("processing loop over files and standard input","cmd/hclfmt/main.go")],None,["exit status, standard output, standard error and file contents"])

p("P08","hcldec exits 0 only with the complete correct result delivered",
"If hcldec exits with status 0, its output (standard output or the file named with -o) is the complete JSON rendering of the value that the specification assigns to the configuration and variables, or the complete list of referenced variables when those were asked for. If an input could not be read, is invalid or does not conform, or the output could not be delivered in full, it exits with a non-zero status and reports the reason on standard error, problems found in its inputs in the requested diagnostic format; it never crashes.",
["fault_sequences","inputs","configurations"],"all single and double system-call failures and short transfers on specification, variables, configuration files and outputs, for generated specs and configurations whose value is known by construction",
"The spec-suite tests compare outputs of fault-free runs for a fixed set of files; none of them lets a read, write or close fail.",
["cmd/hcldec/main.go","cmd/hcldec/spec.go","cmd/hcldec/vars.go","cmd/hcldec/diags_json.go","hcldec/spec.go","hcldec/decode.go","hclparse/parser.go"],
[("writing the result and the diagnostics","cmd/hcldec/main.go, cmd/hcldec/diags_json.go"),("decoding by specification","hcldec/spec.go")],None,["exit status, both streams and the output file"])

p("P09","A passing spec-suite verdict is earned",
"If the specification-suite runner exits with status 0, then for every test file below the given directory the decoder was run for every input present, ended by itself, with success where no error is declared, and produced exactly the declared result, type, traversals and diagnostics. Whatever file cannot be examined, decoder that cannot be started, is killed or produces cut-off output, and every mismatch, leads to a non-zero exit and a message naming the test.",
["fault_sequences","inputs","configurations"],"all single and double failures of file examination, directory listing, process start, child death and child output, over generated suites with passing and failing tests",
"The repository's own suite only exercises tests that pass with a healthy decoder; a runner that skips or accepts too much still passes.",
["cmd/hclspecsuite/runner.go","cmd/hclspecsuite/main.go","cmd/hclspecsuite/test_file.go","cmd/hclspecsuite/diagnostics.go","cmd/hclspecsuite/traversals.go"],
[("walking the suite and running the decoder per input","cmd/hclspecsuite/runner.go")],None,["exit status and reported problems against the suite's true state"])

p("P10","The file registry reflects what was really read",
"A parser registry that loads files from disk reports every failure to read a file as an error diagnostic and never as an empty or partial configuration, and every file it lists has the exact bytes that were read. After any sequence of successful, failed and repeated loads, in native and JSON syntax, listing files and sources, printing diagnostics with their source and loading more files work without crashing, and a load that failed can succeed when retried.",
["fault_sequences","histories","inputs"],"all sequences of loads with open and read failures and short reads at any point, over generated native and JSON files",
"Tests load existing files once; read failures, retries and the registry's state after them are never exercised.",
["hclparse/parser.go","hcl/json/public.go","hcl/diagnostic_text.go"],
[("caching of parsed files by name","hclparse/parser.go"),("opening and reading JSON files","hcl/json/public.go")],
[("file table","name to bytes and body actually read")],["diagnostics, file table and rendered diagnostics after each step"])

p("P11","Output functions deliver everything or report the failure",
"Writing a configuration file object or a set of diagnostics to an output stream either delivers the complete text and reports success, or reports an error; a failed or partial write is never reported as success. The text delivered does not depend on how the stream splits writes, what was delivered before a failure is a prefix of the complete text, and writing leaves the object unchanged, whether it fails or not, so that it can be repeated.",
["fault_sequences","inputs"],"all positions of a write failure or partial write in the stream, generated configurations and diagnostics (with and without source, colour, width)",
"Tests write to an in-memory buffer that never fails.",
["hcl/diagnostic_text.go","hclwrite/ast.go","hclwrite/tokens.go"],
[("formatted diagnostic output","hcl/diagnostic_text.go"),("token output with byte counting","hclwrite/tokens.go")],None,["bytes accepted by the stream and the reported result"])

p("P12","Failing includes and transformers become diagnostics",
"A configuration that pulls in other files or rewrites its blocks while it is being decoded either yields the content of a fully successful resolution, or yields error diagnostics that say what failed; a file that cannot be opened, read or parsed, or a transformer that reports an error, never crashes the caller and never lets the content appear complete without an error. Content that does not depend on what failed is still delivered, and rewriting applies to what piecewise readers leave for later readers as well.",
["fault_sequences","histories","inputs"],"all failures of file access and of transformers, at any include, nesting level and reading order, generated configurations",
"Tests use resolvers and transformers that succeed or fail once at the top level in one reading order.",
["ext/include/file_resolver.go","ext/include/map_resolver.go","ext/include/transformer.go","ext/transform/transform.go","ext/transform/error.go","ext/transform/transformer.go"],
[("file resolver on top of the parser registry","ext/include/file_resolver.go"),("wrapping bodies with a transformer, level by level","ext/transform/transform.go, ext/transform/error.go")],None,["content, remaining body and diagnostics of every read"])

p("P13","Damaged stored configuration is contained",
"Whatever a torn, lost or corrupted write leaves in a configuration file, in native or JSON syntax, loading, decoding, evaluating, formatting, navigating and reporting it ends in bounded time without crashing. Every reported source range lies inside the file it names, damage that makes the file invalid is reported by at least one error located in that file, and a half-written file never changes the meaning of the undamaged files loaded next to it.",
["fault_sequences","crash_points","inputs"],"all torn prefixes, lost and zeroed sectors, duplicated and reordered blocks of writes and bit errors over generated files",
"Tests use a fixed list of hand-written syntax errors; storage damage reaches combinations of recovery states that nobody writes by hand.",
["hcl/hclsyntax/parser.go","hcl/hclsyntax/parser_template.go","hcl/hclsyntax/scan_tokens.go","hcl/hclsyntax/structure.go","hcl/json/parser.go","hcl/json/scanner.go","hcl/json/structure.go","hcl/diagnostic_text.go","hclwrite/parser.go","hcl/merged.go"],
[("error recovery of the native parser","hcl/hclsyntax/parser.go"),("JSON scanner and parser","hcl/json/scanner.go, hcl/json/parser.go")],None,["diagnostics, ranges, values and step counts"])

p("P14","Packed configuration means the same at the receiver, or is rejected",
"A native configuration packed for transport, serialised, sent and unpacked elsewhere decodes there to the same values as the original, and its diagnostics point at the same places of the original source, however often it is re-sent and by whatever number of receivers it is read. A message damaged or cut off in transit is either rejected with an error or is still read, evaluated and reported without crashing.",
["fault_sequences","histories","inputs"],"all truncations, duplications, splices and byte changes of the serialised form, all numbers of hops, generated configurations",
"Tests round-trip two small documents once and never damage the message.",
["hclpack/pack_native.go","hclpack/json_marshal.go","hclpack/vlq.go","hclpack/positions_packed.go","hclpack/structure.go","hclpack/expression.go"],
[("delta and variable-length coding of source positions","hclpack/positions_packed.go, hclpack/vlq.go"),("re-parsing of expressions at the receiver","hclpack/expression.go")],None,["decoded values, diagnostics and ranges at the receiver against the sender's"])

p("P15","Edit sessions lose nothing and touch nothing else",
"Over any sequence of edits to a configuration file object (setting and replacing attribute values and references, renaming variable prefixes in expressions, appending blocks and comments, encoding Go values, clearing bodies, saving, crashing and reloading), the saved bytes always parse and hold exactly what the edits say: the last value or reference set for each attribute and every appended or remaining block in order. Comments, tokens and line breaks of items the session did not touch stay as they were (spacing is normalised when a file is written), and what the object reports about itself agrees with what it saves.",
["histories","crash_points","inputs"],"all edit histories with saves, crashes before a save and reloads at any point, generated starting files",
"Tests apply one edit to one file; lost updates appear only after particular sequences (clear then set, append to a block that was on one line, edit after reload).",
["hclwrite/ast_body.go","hclwrite/ast_attribute.go","hclwrite/ast_block.go","hclwrite/ast_expression.go","hclwrite/node.go","hclwrite/generate.go","hclwrite/parser.go","gohcl/encode.go"],
[("linked node list with item set","hclwrite/node.go, hclwrite/ast_body.go"),("value and traversal to token conversion","hclwrite/generate.go")],
[("reference document","ordered items with their exact text when untouched")],["saved bytes, parsed back, against the reference document after each step"])

p("P16","Declared references are all an evaluation needs, in any delivery order",
"If an evaluation or decode is given only the variables that the configuration's reference analysis lists, delivered piecewise, in any order and by any grouping into parent and child scopes, it gives the same value and diagnostics as with every variable available. Every listed reference names something that the configuration really mentions, with its source range; names bound inside the configuration (by for expressions, splats and dynamic blocks) are not listed where they are bound, and asking again gives the same list.",
["histories","schedules","inputs"],"all subsets and orders of variable delivery that cover the reported references, all splits over nested scopes, generated expressions, bodies, specs and dynamic blocks",
"Tests compare the reported references of a few expressions with a hand-written list; they never evaluate with only those references available.",
["hcl/hclsyntax/variables.go","hcl/hclsyntax/walk.go","hcldec/variables.go","ext/dynblock/variables.go","ext/dynblock/variables_hcldec.go","hcl/json/structure.go","hcl/eval_context.go","hcl/traversal.go","hclpack/expression.go"],
[("walk that hides locally bound names","hcl/hclsyntax/variables.go"),("walk of dynamic blocks by spec","ext/dynblock/variables.go")],None,["result with only the reported references against the result with everything"])

p("P17","Failing callbacks are contained where they are called",
"When an application-supplied function, function context, spec transform function or syntax tree walker fails at any of its calls during evaluation or decoding, the result is error diagnostics located at the call (unless its result is not used, as in the branch of a conditional not taken), the other parts of the configuration are evaluated as if that call had not failed, and the same configuration evaluates correctly as soon as the callback works again. The caller never crashes and no later evaluation sees any trace of the failure.",
["fault_sequences","schedules","inputs"],"every call position of every callback and every kind of failure (plain error, error blaming any argument, panic-free misuse), nested and in loops, expanded arguments, interleaved evaluations",
"Tests let a function fail once in one simple call; the position of the failure among nested calls, iterations and expanded arguments is the quantifier.",
["hcl/hclsyntax/expression.go","ext/userfunc/decode.go","hcl/ops.go","ext/transform/transform.go","hcldec/spec.go"],
[("function call with argument error attribution","hcl/hclsyntax/expression.go"),("user function bodies evaluated in a child scope","ext/userfunc/decode.go")],None,["diagnostics, their ranges, and values with and without the failure"])

p("P18","Results with values still unknown are never contradicted later",
"When an evaluation or decode runs while some input values (or parts of them, or their types) are not yet known and runs again as they arrive, in any order, every known part of an earlier result is unchanged in every later one, a successful final run is never preceded by an error, types reported early hold for the final value, and once everything is known nothing in a successful result is unknown. Left out, because documented otherwise: a dynamic block over an unknown collection stands for any number of blocks and its labels must be known; a conditional whose results differ in type while one of them has no type yet (unknown type, or an error in the result not taken) takes the type of the other.",
["histories","schedules","inputs"],"all orders and stages of value arrival, generated expressions, specs and bodies",
"Tests evaluate with one fixed set of unknown inputs and never evaluate the same configuration again with the values filled in.",
["hcl/hclsyntax/expression.go","hcl/hclsyntax/expression_template.go","hcl/hclsyntax/expression_ops.go","hcl/ops.go","hcldec/spec.go","hcl/json/structure.go","ext/dynblock/unknown_body.go","ext/dynblock/expand_body.go","ext/userfunc/decode.go"],
[("early exits on unknown operands","hcl/hclsyntax/expression.go, hcl/ops.go")],None,["sequence of results over the arrival history"])

# Pure functions of one input: not applicable to simulation.
def na(id,title,statement,files,mech):
    p(id,title,statement,["inputs"],"all inputs","Tests sample a few inputs of an unbounded input space.",files,mech)
na("N01","The native grammar is parsed as specified","Every text is accepted or rejected, and accepted texts are given the structure, operator precedence and associativity, that the native syntax specification prescribes.",["hcl/hclsyntax/parser.go","hcl/hclsyntax/spec.md"],[("recursive descent parser","hcl/hclsyntax/parser.go")])
na("N02","JSON and native forms of one configuration mean the same","A configuration written in JSON syntax decodes to the same content and values as its native-syntax equivalent.",["hcl/json/structure.go","hcl/hclsyntax/structure.go"],[("schema-driven interpretation of JSON","hcl/json/structure.go")])
na("N03","Formatting changes only spacing and is idempotent","Formatting a file yields the same token sequence apart from spacing, and formatting the result again changes nothing.",["hclwrite/format.go"],[("token spacing rules","hclwrite/format.go")])
na("N04","String and number literals denote the specified values","Quoted strings, heredocs, escapes, templates and number literals evaluate to the values the specification gives them, without loss of precision.",["hcl/hclsyntax/parser.go","hcl/hclsyntax/expression_template.go","hcl/json/structure.go"],[("literal decoding","hcl/hclsyntax/parser.go")])
na("N05","Source ranges cover exactly the construct they belong to","The ranges of tokens, expressions, attributes and blocks, taken together, cover the source without overlap and each covers exactly its construct.",["hcl/pos.go","hcl/hclsyntax/token.go","hcl/pos_scanner.go"],[("range bookkeeping","hcl/hclsyntax/parser.go")])
na("N06","Decoded values conform to the type implied by the specification","Every value produced by a decoding specification conforms to the type that the specification declares for it.",["hcldec/spec.go","hcldec/public.go"],[("implied type","hcldec/spec.go")])
na("N07","Type expressions round-trip","The textual form of a type constraint parses back to the same type.",["ext/typeexpr/public.go","ext/typeexpr/get_type.go"],[("type string rendering","ext/typeexpr/public.go")])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        assert x["statement"].count(". ")<=2,(x["id"])
        for fn in x["anchors"]["files"]:
            assert os.path.exists("/repo/"+fn),fn
        f.write(json.dumps(x)+"\n")
print(len(P))
