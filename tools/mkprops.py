#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, anchors and statements stay in step)."""
import json, os
S = 'json_typegen_shared/src/'
G = S + 'generation/'
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    return dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook))
P = [
p('C01', 'The inferred structure admits every value in the sample',
  'Whatever structure is inferred from a JSON sample describes every value that occurs in it: each scalar, array, object and null at each position is an instance of the structure inferred for that position, an object member missing from some of the objects merged at a position is marked as possibly absent, and a null at a position makes that position accept null. This holds for every well-formed sample, however its values are nested, repeated or mixed.',
  ['inputs', 'histories'], 'every JSON document, i.e. every multiset of values observed per position and every order in which they are merged',
  'The unit tests merge about two dozen hand-picked pairs of shapes; whether the result covers the values depends on every combination of null, absence, number kinds, array lengths and nesting, which only a statement over all samples settles.',
  [S+'shape.rs', S+'inference/jsoninfer.rs'],
  [('merging of shapes', S+'shape.rs: common_shape, common_field_shapes, into_optional, into_nullable'), ('inference', S+'inference/jsoninfer.rs: infer_shape, infer_object, infer_array')],
  [('Shape', 'the structure inferred for one position', S+'shape.rs')], ['codegen with output_mode shape', 'Shape passed to code generation']),
p('C02', 'The inferred structure is the tightest one for the sample',
  'The inferred structure says no more than the sample shows: a position accepts null only if a null occurs there, a member is optional only if some merged object lacks it, a number is floating only if some number there is not a 64-bit integer, a position is unconstrained only if its values conflict in kind (or nothing but null was seen), and every member that occurs is present under exactly its own name. A sequence is described as a fixed-length tuple exactly when all its arrays have the same length of 2 to 12 and a common element type would lose all information.',
  ['inputs', 'histories'], 'every JSON document and every position in it',
  'The tests pin outputs for a handful of samples; degradations (any instead of a type, spurious optionality, dropped members) on other samples stay invisible, since the looser type still compiles and still accepts the sample.',
  [S+'shape.rs', S+'inference/jsoninfer.rs', G+'shape.rs'],
  [('join', S+'shape.rs: common_shape'), ('tuple/vec decision', 'generation/*.rs: Tuple arm of type_from_shape')],
  [('Shape', 'the structure inferred for one position', S+'shape.rs')], ['codegen with output_mode shape']),
p('C03', 'Inference does not depend on the order in which values are merged',
  'Permuting the elements of a homogeneous list of records, permuting the members of any object, or duplicating records, yields the same inferred structure and the same member types up to the order of declarations. The result depends only on which values occurred at each position, not on which came first or how the merging was grouped.',
  ['inputs', 'histories'], 'every sample and every permutation and duplication of its records (lists longer than 12) and members',
  'Merging is a left fold over observations (with a different association for the first 12 array elements than for the rest); tests exercise one order each.',
  [S+'shape.rs', S+'inference/jsoninfer.rs'],
  [('commutative/associative merge', S+'shape.rs: common_shape'), ('fold of array elements', S+'inference/jsoninfer.rs: infer_array')],
  (), ['codegen with output_mode shape']),
p('C04', 'Only the JSON value of the sample matters, not its spelling or source',
  'Two samples that denote the same JSON value (different whitespace, string escapes, spellings of the same number kind) generate byte-identical output. The same bytes generate the same output whether given inline, through a file or over HTTP, and however the reads are split into chunks.',
  ['inputs', 'configurations', 'schedules'], 'every JSON document, every spelling of it, every source and every chunking of the byte stream',
  'Tests feed each sample once, from one in-memory string; equality between spellings, sources and chunk boundaries is never compared.',
  [S+'inference/jsonlex.rs', S+'lib.rs', S+'progress.rs'],
  [('byte-level lexer over a buffered reader', S+'inference/jsonlex.rs: JsonLexer'), ('source selection', S+'lib.rs: infer_source_type, infer_from_sample')],
  [('byte buffer', 'bytes of the token being read', S+'inference/jsonlex.rs')], ['codegen result']),
p('C05', 'Exactly the well-formed JSON documents are accepted',
  'Code generation from a JSON sample succeeds if and only if the sample is one well-formed JSON text (RFC 8259) in UTF-8 with nothing but whitespace after it, nested no deeper than 127 levels; everything else is reported as an error and no types are produced. Member names are read with all escapes decoded.',
  ['inputs'], 'every byte string as a sample, also in the parts of the sample that are skipped by options',
  'About ten accept/reject examples are tested, the language has infinitely many near misses (number grammar, surrogate pairs, control characters, trailing commas, missing colons, truncation).',
  [S+'inference/jsonlex.rs', S+'inference/jsoninfer.rs'],
  [('token recognition', S+'inference/jsonlex.rs: get_next_token, match_string, match_number'), ('grammar', S+'inference/jsoninfer.rs: infer_object, infer_array, expect_end')],
  [('nesting', 'current nesting depth', S+'inference/jsonlex.rs')], ['codegen Ok/Err']),
p('C06', 'A sample that cannot be read completely never yields types',
  'When the source of a sample fails (missing file, read error, connection dropped or body shorter than announced, HTTP error status, invalid or truncated transfer) code generation reports an error; it never produces types from a prefix of the sample. Without a fault the same source yields the same types as the inline text.',
  ['fault_sequences', 'crash_points'], 'every cut point and every kind of fault while a sample is read from a file, pipe or HTTP server',
  'No test reads a sample from a failing source.',
  [S+'lib.rs', S+'inference/jsonlex.rs', S+'progress.rs'],
  [('propagation of read errors', S+'inference/jsonlex.rs: expect_byte, get_next_token, match_number'), ('source opening', S+'lib.rs: infer_from_sample')],
  (), ['codegen Ok/Err', 'CLI exit status']),
p('C07', 'unwrap infers exactly from the nodes its pointer designates',
  'With the unwrap option set, the result is the structure of exactly the nodes that the JSON Pointer designates, with - matching every member and element and ~0 and ~1 decoded, merged as if they were the records of one list. If no node matches, or the document is malformed anywhere, an error is reported, and everything outside the designated nodes has no influence on the result.',
  ['inputs', 'configurations'], 'every document and every pointer',
  'Unit tests cover six pointers on tiny documents.',
  [S+'inference/jsoninfer.rs'], [('descent along the pointer', S+'inference/jsoninfer.rs: Inference::unwrap')], (), ['codegen']),
p('C08', 'Hints change exactly the positions their pointer designates',
  'A use_type hint makes exactly the positions its JSON Pointer designates (with - matching every member and element, ~0 and ~1 decoded) the named opaque type, or for "map" a map from strings to the merged structure of all member values, and leaves every other position as it is without the hint. A map hint on something that is not an object is an error, never a wrong type.',
  ['inputs', 'configurations'], 'every document, every set of pointers and hints',
  'Only pointer stepping is unit tested, and inference with hints on two documents.',
  [S+'hints.rs', S+'inference/jsoninfer.rs', S+'parse.rs'],
  [('pointer stepping', S+'hints.rs: step_field, step_index'), ('hint application', S+'inference/jsoninfer.rs: infer_shape, infer_map')],
  [('hints', 'remaining pointer tokens per hint', S+'hints.rs')], ['codegen']),
p('C09', 'infer_map_threshold turns exactly the larger objects into maps',
  'With infer_map_threshold N, an object in the sample becomes a map from strings to the merged structure of its values if it has more than N members and a struct otherwise, independently at every position; without the option no map is inferred. The map value type admits every member value.',
  ['inputs', 'configurations'], 'every document and every threshold',
  'The option is untested.',
  [S+'inference/jsoninfer.rs', G+'typescript_type_alias.rs', G+'zod_schema.rs'],
  [('threshold', S+'inference/jsoninfer.rs: infer_object'), ('threshold at generation', 'typescript_type_alias.rs, zod_schema.rs: Struct arm')], (), ['codegen']),
p('C10', 'Generated Rust types compile and deserialize the sample',
  'The Rust output for a well-formed sample compiles with serde, the root type deserializes the very sample it was generated from, and serializing the result gives back every member, element and scalar that was in the sample. Each member has the type that corresponds to its inferred structure (String, bool, i64, f64, Vec, tuple, HashMap, Option for nullable or optional values, serde_json::Value only where nothing better is known).',
  ['inputs', 'programs'], 'every well-formed sample and root name',
  'The tests compare generated syntax trees for eleven samples and never compile or run the generated code.',
  [G+'rust.rs', S+'shape.rs'], [('type mapping', G+'rust.rs: type_from_shape, generate_struct_type'), ('attributes', G+'rust.rs: rename, default')],
  [('type_names, created_structs', 'declared types so far', G+'rust.rs: Ctxt')], ['generated Rust code']),
p('C11', 'Each option for Rust output changes exactly what it names',
  'derives, type and field visibility, deny_unknown_fields, use_default_for_missing_fields, allow_option_vec, collect_additional, import_style and property_name_format each have exactly their documented effect on every generated struct and field, and none of them affects the member types otherwise. Under every combination the types still deserialize the sample (deny_unknown_fields with collect_additional excepted).',
  ['inputs', 'configurations'], 'every sample and every combination of option values',
  'No test sets more than the import style and the visibility.',
  [G+'rust.rs', S+'options.rs', S+'lib.rs'], [('option handling', G+'rust.rs: generate_struct_type, import, collapse_option_vec'), ('pub in name', S+'lib.rs: handle_pub_in_name')], (), ['generated Rust code']),
p('C12', 'Generated TypeScript types accept the sample',
  'Both TypeScript outputs (interfaces and single type alias) are valid TypeScript for every well-formed sample, and the sample is assignable to the exported root type. Each member has the type that corresponds to its inferred structure: optional members are marked with ?, nullable values include null, arrays of unions are grouped correctly, and every key is quoted or escaped when it has to be.',
  ['inputs', 'programs'], 'every well-formed sample and root name',
  'Apart from an identifier predicate, TypeScript output is not tested.',
  [G+'typescript.rs', G+'typescript_type_alias.rs'], [('type mapping', 'typescript.rs, typescript_type_alias.rs: type_from_shape'), ('keys', G+'typescript.rs: is_ts_identifier')],
  [('type_names, created_interfaces', 'declared types so far', G+'typescript.rs: Ctxt')], ['generated TypeScript']),
p('C13', 'Generated JSON Schema is valid and validates the sample',
  'The JSON Schema output is valid JSON and a valid draft-07 schema for every well-formed sample, and the sample validates against it. It states the inferred structure: types, items, tuples, properties under their exact names, required exactly for members that are always present, null only where it was seen.',
  ['inputs', 'programs'], 'every well-formed sample',
  'JSON Schema output is not tested.',
  [G+'json_schema.rs', G+'value.rs'], [('schema construction', G+'json_schema.rs: type_from_shape'), ('serialization', G+'value.rs: pretty_print_value')], (), ['generated schema']),
p('C14', 'Generated Zod schema is valid and parses the sample',
  'The Zod output is a valid module exporting one schema for every well-formed sample, and that schema accepts the sample. Its z.object, array, tuple, record, nullable and optional structure is that of the inferred structure, with every key bound exactly.',
  ['inputs', 'programs'], 'every well-formed sample',
  'A single test prints Zod output for an SQL statement without checking it.',
  [G+'zod_schema.rs'], [('schema construction', G+'zod_schema.rs: type_from_shape')], (), ['generated Zod module']),
p('C15', 'Generated Kotlin classes are well-formed and fit the sample',
  'Kotlin output (Jackson and kotlinx.serialization) is well-formed for every well-formed sample, and its classes describe the sample: every key is bound to one property of the type that corresponds to the inferred structure, nullable exactly where null or absence was seen. Annotations carry the exact key wherever the naming strategy in effect would not produce it.',
  ['inputs', 'configurations', 'programs'], 'every well-formed sample, both annotation styles and every property_name_format',
  'Only five field names are tested.',
  [G+'kotlin.rs'], [('type mapping', G+'kotlin.rs: type_from_shape, generate_data_class'), ('naming', G+'kotlin.rs: apply_transform, transform_annotation')],
  [('type_names, created_classes', 'declared types so far', G+'kotlin.rs: Ctxt')], ['generated Kotlin']),
p('C16', 'Generated Python models load and describe the sample',
  'Python output is a module that loads (with pydantic) for every well-formed sample, every annotation in it resolves to a type that is defined and not shadowed, and its models describe the sample: every key is bound to one field, by name or exact alias, whose type corresponds to the inferred structure, Optional exactly where null or absence was seen.',
  ['inputs', 'configurations', 'programs'], 'every well-formed sample, import style and property_name_format',
  'Eight outputs are compared as text, none is executed.',
  [G+'python.rs'], [('type mapping and order of classes', G+'python.rs: type_from_shape, generate_data_class'), ('forward references', G+'python.rs: unfinished_classes')],
  [('type_names, created_classes', 'declared types so far', G+'python.rs: Ctxt')], ['generated Python']),
p('C17', 'Member names are legal, distinct and bound to the exact JSON key',
  'In Rust, Kotlin and Python output every member of an object gets an identifier that is legal in the language (not a keyword, no illegal characters) and distinct within its type, and that member is serialized and deserialized under exactly the key in the sample, whatever characters the key contains and whatever property_name_format is set. In TypeScript, JSON Schema and Zod the key itself is reproduced exactly.',
  ['inputs', 'configurations'], 'every set of keys (any Unicode strings), every property_name_format, every output mode',
  'Fewer than ten names are tested, one at a time; clashes, keywords after case conversion, quotes and non-ASCII keys are not.',
  [S+'util.rs', G+'rust.rs', G+'kotlin.rs', G+'python.rs', G+'serde_case.rs', G+'typescript.rs', G+'zod_schema.rs'],
  [('identifier construction', 'type_or_field_name in rust.rs, kotlin.rs, python.rs; util.rs: snake_case, camel_case'), ('rename decision', 'rust.rs: needs_rename; kotlin.rs: apply_transform; python.rs: alias')], (), ['generated code']),
p('C18', 'Declarations are complete, unique and include the root name',
  'Every type name that generated Rust, TypeScript, Kotlin or Python code refers to is declared exactly once in the output, imported or qualified as the import style says, or a builtin of the language (or a type named in a hint), and no declaration shadows a type the code uses. A type with exactly the requested root name is always declared, every declaration is a legal identifier, and nothing is declared that the root does not reach.',
  ['inputs', 'configurations', 'programs'], 'every sample, root name and import style',
  'The samples in tests have few nested types and no clashing names.',
  [G+'rust.rs', G+'typescript.rs', G+'kotlin.rs', G+'python.rs', S+'to_singular.rs', S+'util.rs'],
  [('allocation of type names', 'type_name and type_names in each generator'), ('imports', 'import in rust.rs, kotlin.rs, python.rs')],
  [('type_names', 'names taken so far', 'Ctxt in each generator')], ['generated code']),
p('C19', 'Sharing a declared type between positions is always sound',
  'When generated code uses one declared type for several positions of the sample, that type fits each of them: it has exactly the members of the structure inferred at each position, each member type admits every value at that position, and it is no looser than the structure inferred for one of the positions. Positions with different member sets or incompatible member types never share a type, and identical structures are not declared twice.',
  ['inputs', 'histories'], 'every sample with several objects, in every order of declaration (recursive ones included)',
  'No test has two objects that could share a type except identical ones.',
  [S+'shape.rs', G+'rust.rs', G+'typescript.rs', G+'kotlin.rs', G+'python.rs'],
  [('substitution check', S+'shape.rs: is_acceptable_substitution_for'), ('lookup of created types', 'created_structs / created_interfaces / created_classes in the generators')],
  [('created types', 'structures declared so far with their names', 'Ctxt in each generator')], ['generated code']),
p('C20', 'Options blocks mean exactly what they say',
  'An options block sets exactly the options it names to the given values, in any order and spelling (identifier or quoted keys, flags with or without a value, trailing comma, JSON style), and leaves every other option at its default. A block with unknown options, wrong value types or wrong punctuation, or with anything after it, is rejected with an error.',
  ['inputs', 'configurations'], 'every options block, macro argument list and full macro invocation',
  'Tests cover a dozen blocks.',
  [S+'parse.rs', S+'options.rs'], [('parser', S+'parse.rs: options_with_defaults, block, pointer_block, string_option, boolean_option'), ('value names', S+'options.rs: OutputMode::parse and others')], (), ['parse::options', 'parse::macro_input', 'parse::full_macro']),
p('C21', 'All interfaces give the same, repeatable result',
  'The same name, sample and options give byte-identical output through the library function, the CLI (argument, file or standard input), the web (WASM) entry point and the macro text interfaces, apart from the documented macro default for import style. The result never depends on earlier calls, on other calls running at the same time, or on the run.',
  ['histories', 'schedules', 'configurations'], 'every sequence and every concurrent interleaving of calls, every process, every interface',
  'Every test makes one call in one thread through one interface.',
  [S+'lib.rs', S+'parse.rs', 'json_typegen_cli/src/main.rs', 'json_typegen_wasm/src/lib.rs', 'json_typegen/src/lib.rs'],
  [('pure pipeline without shared state', S+'lib.rs: codegen'), ('front ends', 'json_typegen_cli main, json_typegen_wasm run, codegen_from_macro, codegen_from_macro_input')], (), ['codegen, CLI stdout, wasm run']),
p('C22', 'The CLI writes the output file only with a complete result',
  'A failing run of the CLI (bad sample, bad options, unreadable input, missing file) exits with a non-zero status and a message, prints no types, and leaves an existing output file byte for byte as it was and a missing one missing. A successful run exits with 0 and leaves in the output file exactly the generated code and nothing of its previous content, or prints exactly that when no output file is given.',
  ['fault_sequences', 'histories', 'configurations'], 'every sequence of runs with succeeding and failing inputs, any previous content of the output file',
  'The CLI has no tests.',
  ['json_typegen_cli/src/main.rs'], [('order of generation and file creation', 'json_typegen_cli/src/main.rs: main_with_result')],
  [('output file', 'content before and after each run', 'file system')], ['exit status, stdout, stderr, file system']),
p('C23', 'SQL table definitions map to matching members',
  'With SQL input, the first CREATE TABLE statement yields one member per column, under the column\'s own name, whose type corresponds to the column type and which is nullable unless the column is declared NOT NULL. Anything that is not parseable SQL, or contains no CREATE TABLE statement, is reported as an error.',
  ['inputs'], 'every list of statements, column types and column constraints',
  'The one SQL test only prints its output.',
  [S+'sql.rs', S+'lib.rs'], [('column mapping', S+'sql.rs: sql_to_shape, shape_for_column')], (), ['codegen with input_mode sql']),
p('C24', 'The web page shows the result for the input it was last given',
  'In the web interface, once all outstanding requests have settled, the displayed output is the result for the input and settings the user last chose (typed text, example, small or large file, cleared file), whatever order file reads, worker start-up and code generation finished in. Every request gets an answer, so the page never waits forever, and a file that cannot be read shows an error and not types.',
  ['schedules', 'histories', 'fault_sequences'], 'every sequence of user actions and every interleaving of file reads (successful or failing), WASM initialization and worker messages',
  'The web interface has no tests.',
  ['json_typegen_web/src/App.svelte', 'json_typegen_web/src/lib/worker.ts', 'json_typegen_web/src/lib/file.ts', 'json_typegen_web/src/lib/WorkerMessage.ts'],
  [('request queue', 'App.svelte: requestCodegen, worker.onmessage'), ('file state in the worker', 'lib/worker.ts: onmessage')],
  [('workerReady, queued', 'is a request outstanding, and what to send next', 'App.svelte'), ('largeFileInput, fileRequest', 'file content in use and the latest request', 'lib/worker.ts')], ['messages between page and worker', 'displayed output']),
p('C25', 'Every input gets an answer: no panic, no crash, no hang',
  'For every name, sample, options block and output mode, every entry point returns either output or an error: it never panics, aborts, overflows the stack or fails to terminate. This includes samples nested arbitrarily deep, which are rejected beyond the nesting limit.',
  ['inputs', 'configurations', 'fault_sequences'], 'every input to every entry point',
  'Tests only use inputs their author had in mind; nesting depth, empty and non-ASCII names and unusual option values are not among them.',
  [S+'lib.rs', S+'inference/jsonlex.rs', S+'inference/jsoninfer.rs', S+'hints.rs', S+'sql.rs', S+'to_singular.rs', G+'serde_case.rs', G+'kotlin.rs'],
  [('error propagation', 'Result types throughout'), ('nesting limit', S+'inference/jsonlex.rs: start_nested')], (), ['codegen, CLI, wasm run']),
p('C26', 'A visibility specifier before the root name is that of all generated types',
  'Wherever the root name is given, a Rust visibility specifier (pub, or pub followed by something in parentheses) and blanks may come before it. Generated Rust then declares the root type under the bare name, every type has that visibility, and fields have the one that field_visibility says (by default pub). Without a specifier the visibility is that of the options (by default pub), and names that merely begin with the letters pub keep all their letters. In all other outputs the specifier leaves no trace.',
  ['inputs', 'configurations'], 'every name with and without a specifier, every sample, output mode and interface',
  'One unit test splits four names; no test generates code for a name with a specifier.',
  [S+'lib.rs', G+'rust.rs', S+'options.rs', 'CONFIGURATION.md'],
  [('split of the name', S+'lib.rs: handle_pub_in_name'), ('visibility of declarations and fields', 'rust.rs: type_visibility, field_visibility')], (), ['generated code']),
p('C27', 'Opened again, the web page goes on where it was left',
  'When the web page is opened again after an earlier visit, its controls hold the type name, the settings, the extra options and the text that were last chosen, and it shows the result for them, whenever it was left (except while a small file was still being read). An empty type name comes back as the default, and a text of a million characters or more, or a large file, is not kept: the text is then empty. If nothing usable was left behind the page starts with its defaults.',
  ['histories', 'schedules', 'inputs'], 'every sequence of user actions and visits, leaving the page at any point',
  'The web interface has no tests.',
  ['json_typegen_web/src/App.svelte', 'json_typegen_web/src/lib/localstorage.ts'],
  [('storing on every change', 'App.svelte: render, storeParams'), ('restoring', 'App.svelte: storedParams; lib/localstorage.ts: restoreParams')],
  [('localStorage', 'what earlier visits have left', 'lib/localstorage.ts')], ['controls of the page', 'displayed output']),
p('C28', 'Only the structure of the sample shows in the generated code',
  'The generated code is determined by the root name, the options and the structure of the sample. Two samples that differ only in the contents of strings, in truth values, in which 64-bit integers and which other numbers they hold, in white space and spelling, or in the number of elements of long lists (more than twelve) of elements that are alike, give byte for byte the same code in every output mode, with and without unwrap, hints and threshold. So does the inferred structure itself handed to codegen_from_shape. In particular no value leaks into the code and none is guessed at.',
  ['inputs', 'configurations'], 'every pair of samples with one structure, every output mode and combination of options',
  'The tests compare single samples with single outputs; none compares two samples.',
  [S+'lib.rs', S+'inference/jsoninfer.rs', S+'inference.rs', S+'shape.rs', G+'rust.rs', G+'typescript.rs', G+'kotlin.rs', G+'python.rs', G+'json_schema.rs', G+'zod.rs', G+'shape.rs'],
  [('samples reduced to a structure', S+'inference/jsoninfer.rs'), ('code from a structure', S+'lib.rs: codegen_from_shape')], (), ['generated code']),
p('C29', 'An error message names what is actually wrong',
  'When no code can be generated, the message that the library, the macro, the command line and the web interface report names an actual cause: input that breaks off, text that is not UTF-8, an invalid escape, too deep nesting, other invalid JSON, an unwrap pointer that matches nothing, a hint that does not fit, a sample that cannot be fetched, opened or read, invalid SQL, or a macro or options that cannot be parsed. The first stage that fails is the one named (request, then source, then sample), input that could be continued to valid JSON is reported as ended too early, and nothing is blamed that is in order.',
  ['inputs', 'faults'], 'every malformed sample, every failing source, every combination of failing stages, every interface',
  'The tests compare a handful of messages for malformed samples; there is none for failing sources or combinations.',
  [S+'lib.rs', S+'inference/jsoninputerr.rs', S+'inference/jsonlex.rs', S+'inference/jsoninfer.rs', S+'sql.rs', S+'parse.rs', 'json_typegen_cli/src/main.rs', 'json_typegen_wasm/src/lib.rs', 'json_typegen/src/lib.rs'],
  [('kinds of errors', S+'lib.rs: JTError; jsoninputerr.rs: JsonInputErr'), ('printing of causes', S+'lib.rs: display_error_with_causes')],
  [('file system and network', 'any failure at any point', S+'lib.rs: infer_from_sample')], ['error messages']),
p('C30', 'What the web page asks for is what its controls say',
  'For every combination of values that the controls of the web page offer, texts entered in them, extra options and examples, in every output language and input mode, the result is that of the library for the type name, the sample and the options that the controls name. Every value on offer means something to the library, every output language and input mode of the library is on offer, and the page starts with values on offer. Extra options override and add to the controls; extra options that are no valid JSON are reported and have no influence. Controls that are not shown for a language have no influence on its result. The copy button copies exactly what is displayed.',
  ['inputs', 'configurations', 'histories'], 'every combination of control values, extra options, examples and languages',
  'The web interface has no tests.',
  ['json_typegen_web/src/App.svelte', 'json_typegen_web/src/lib/worker.ts', 'json_typegen_wasm/src/lib.rs', S+'parse.rs'],
  [('options from controls', 'App.svelte: render'), ('options handed to the module', 'lib/worker.ts'), ('parsing of the options block', S+'parse.rs: options')],
  [('user of the page', 'any values in any controls', 'App.svelte')], ['requests to the WASM module', 'displayed output', 'clipboard']),
p('C31', 'Generated identifiers are the words of the member names',
  'In Rust, Kotlin and Python each member has an identifier made of the words of its JSON key (the ASCII letters and digits; a word begins after any other ASCII character, and where a capital follows a small letter): in snake_case in Rust and Python, in camelCase in Kotlin. Each nested type, in TypeScript too, has the name in PascalCase of the member that holds it first, made singular (where its ending tells) if it is for the elements of a list or the values of a map; the root type has the name asked for. Names differ from that only where they have to: a reserved word gets _field appended, a leading digit an n in front, a name without letters and digits is field or GeneratedType, and a name that is already taken gets the first free number from 2.',
  ['inputs', 'configurations'], 'every key, every combination of keys in one sample, every root name, every language with named types',
  'The tests check a few names of each function; none checks names over all characters, or several names that collide.',
  [S+'util.rs', S+'to_singular.rs', G+'rust.rs', G+'kotlin.rs', G+'python.rs', G+'typescript.rs'],
  [('words and case', S+'util.rs: camel_case, snake_case'), ('singular', S+'to_singular.rs'), ('free names', 'field_name and type_name in each generator')], (), ['generated code']),
]
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    for q in P:
        assert len(q['title']) <= 80, q['title']
    with open(out, 'w') as f:
        for q in P:
            f.write(json.dumps(q) + '\n')
