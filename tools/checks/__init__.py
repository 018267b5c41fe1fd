"""Which module decides which property, and how (for the manifest)."""
REGISTRY = {
    "C01": ("infer", "c01"), "C02": ("infer", "c02"), "C03": ("infer", "c03"), "C05": ("text", "c05"),
    "C20": ("options", "c20"), "C21": ("service", "c21"), "C22": ("cli", "c22"), "C23": ("sqls", "c23"), "C24": ("web", "c24"), "C25": ("robust", "c25"),
    "C28": ("skeleton", "c28"), "C29": ("causes", "c29"), "C30": ("webopts", "c30"), "C31": ("words", "c31"),
    "C26": ("names", "c26"), "C27": ("web", "c27"),
    "C04": ("fetch", "c04"), "C06": ("fetch", "c06"),
    "C07": ("infer", "c07"), "C08": ("infer", "c08"), "C09": ("infer", "c09"),
    "C10": ("targets", "c10"), "C11": ("targets", "c11"), "C12": ("targets", "c12"), "C13": ("targets", "c13"), "C14": ("targets", "c14"),
    "C15": ("targets", "c15"), "C16": ("targets", "c16"), "C17": ("targets", "c17"), "C18": ("targets", "c18"), "C19": ("targets", "c19"),
}
TV = "TLA+ model checking (TLC) and trace validation of the code against the specification"
MC = "model_checking"
NOTES = {
    "C01": (TV, MC, "Merge.tla: every sequence of up to 3 (thorough 4) values from pools of values is merged; the join equals the canonical structure and admits all values. Behaviours and random samples run through the code (output mode shape); TLC checks Admits on every result."),
    "C02": (TV, MC, "Merge.tla invariants Canonical and Tightest; every recorded result is checked against Tight (a witness for every claim) and against the canonical structure."),
    "C03": (TV, MC, "Merge.tla: all orders and groupings of bounded sequences give one structure; permuted and duplicated samples run through the code and compared by TLC."),
    "C04": (TV, MC, "Fetch.tla and FetchModel.tla: every partition of documents into pieces, interrupted reads and ways to end; the result does not depend on them. All transfers that succeed run through the code (files and standard input under a preloaded library, HTTP server, CLI) and are compared with the inline result; pairs of spellings of one value (equality decided by the byte machine) give the same bytes in all modes; samples of many megabytes (Volume.tla) give what few repetitions give."),
    "C06": (TV, MC, "FetchModel.tla: all endings (proper, EIO, reset, short body, malformed chunk, HTTP status) at all points of all documents; types only after the whole document. The transfers run through the library and the CLI under fault injection; TLC replays every transfer and compares the outcome. Samples of many megabytes that are malformed or cut off are refused (Volume.tla, VolumeModel.tla)."),
    "C20": (TV, MC, "RustText.tla (lexer) and OptionsBlock.tla (machine and declarative reading of blocks): equal for all token sequences up to a bound (OptionsModel). All of them, in many spellings, all options with all values, mutated blocks and macro texts go through the parsers of the code; TLC lexes and parses every text and compares all options; effects are compared with options set through the interface."),
    "C05": (TV, MC, "JsonText.tla is a byte machine for RFC 8259; equal to the grammar for all short byte strings over five alphabets (TLC). Every control state x next byte x completion, enumerated strings and mutated documents run through the code; TLC replays the bytes of every case through the machine."),
    "C07": (TV, MC, "Inference.tla: one-pass token machine with discarding and unwrap equals the declarative reading for all token sequences up to a bound, all pointers of a set; its behaviours and random documents with pointers run through the code and are validated by TLC."),
    "C08": (TV, MC, "Inference.tla and Pointers.tla: as C07 with hints; every recorded result equals the canonical structure of the annotated document."),
    "C09": (TV, MC, "Merge.tla with thresholds; results for all sizes 0..7 x thresholds 0..7 and random samples validated by TLC."),
    "C10": (TV, MC, "Targets.tla states what a generated program has to be (member types from the canonical structure, and a reading of the sample by serde's rules); TypeAlloc.tla is the generator as a machine, checked against it for all documents of up to 2 (3) members from a pool. Generated Rust is parsed with syn and validated by TLC; hundreds of outputs are also compiled by rustc with serde, fed the sample and compared with what comes back."),
    "C11": (TV, MC, "As C10, over combinations of all options: each struct and field attribute is compared with Targets!OptionMis and MemberMis; outputs are also compiled and run with serde."),
    "C12": (TV, MC, "As C10 for TypeScript interfaces and type aliases, read with the TypeScript parser; a sample of the outputs is type-checked by tsc with the JSON sample assigned to the root type."),
    "C13": (TV, MC, "As C10 for JSON Schema; every output also goes through a Draft 7 validator with the sample."),
    "C14": (TV, MC, "As C10 for Zod, the module evaluated against a stand-in for z that records the schema built."),
    "C15": (TV, MC, "As C10 for Kotlin (Jackson with all naming strategies, kotlinx), read with a parser of the subset; Jackson's naming strategies are specified in Naming.tla."),
    "C16": (TV, MC, "As C10 for Python, read with ast; every module is also loaded with a stand-in for pydantic and its resolved annotations compared."),
    "C17": (TV, MC, "NamingModel.tla: identifiers chosen for all sequences of up to 2 (3) keys from colliding pools are legal, distinct and bound to the key under serde's and Jackson's renaming, in every language and format; the same sequences, every control and odd character, keywords and library names run through the code and are validated by TLC, Rust also by rustc and serde."),
    "C18": (TV, MC, "Targets!NameMis and ImportMis on every generated program: declared once, legal, reachable, root name, nothing shadowed, imports as the style says; names of keywords, builtins, library types and the root provoked at nested types; rustc, tsc and loading confirm."),
    "C19": (TV, MC, "TypeAlloc.tla: reuse of declarations for all documents of up to 2 (3) members from a pool of look-alike values, in every order; the documents and random look-alikes run through the code, and TLC checks that every declaration says exactly what one position says and may stand in for the rest."),
    "C21": (TV, MC, "Service.tla gives every call of every interface a key; ServiceModel.tla: in all interleavings of 2 and 3 calls the answer is that of the key. The same requests go through the library, CLI, WASM entry point, macro texts and the compiled macro; histories run in fresh and long-lived processes, all schedules are replayed step by step over named pipes, threads run freely, and files and addresses change their content between calls; TLC checks that every answer is that first given for its key."),
    "C22": (TV, MC, "CliFs.tla: what a run may do to files; CliModel.tla: the program step by step, all sequences of 2 (3) runs over inputs, targets and file contents, killed or failing at any step, refines it and touches nothing before there is a result. All behaviours (quick: a sample), runs that cannot succeed, unwritable targets processes killed while they read, and writes that are cut, interrupted or fail run with the real CLI; TLC follows the contents of the files over each sequence and compares exit status, output and files with the library's result."),
    "C23": (TV, MC, "Sql.tla: the members of a list of statements (declarative) and a machine that reads tokens; SqlModel.tla: equal for all statement lists of a bounded family (all sequences of up to 2 (3) column constraints), every single-token edit judged by the machine. All of them in many spellings, all types, and random longer lists run through the code; TLC reads the tokens and compares acceptance and members; in a random output mode the text has to equal that for the same members given directly."),
    "C24": (TV, MC, "WebSession.tla: what a history of actions has to show; WebModel.tla: page and worker as machines, all interleavings of 3 (4) actions with reads, messages, failures and the start of the module end showing it, and nothing waits forever. The behaviours, simulated longer ones and random sessions are replayed into the real page script and worker; TLC checks every look at the page."),
    "C25": (TV, MC, "Robust.tla: outcomes, and the depth of pumped texts u v^n w x^n y; RobustModel.tla: a reader with a bounded stack ends on all of them and rejects exactly what is too deep, and emits the skeletons of texts. These, pumped, and random requests run through the library, options, macro, SQL, shapes, WASM entry point, compiled macro and CLI; TLC checks the outcomes."),
    "C26": (TV, MC, "RootName.tla: a name with a visibility specifier, declaratively and as a machine; RootNameModel.tla: equal for all texts of up to 5 (6) atoms. Those texts and other names go through all interfaces: the text has to equal that for the bare name with the visibility as an option, and the generated programs are parsed and validated by TLC as in C10 with the name and visibility that the specification reads."),
    "C27": (TV, MC, "WebSession.tla with leaving and opening the page again; WebModel.tla: what is stored is what was last chosen, in all interleavings of 3 (4) actions with visits. The behaviours, every setting, long texts, unusable leftovers and random sessions are replayed into the real page script; TLC checks the controls after every visit and every look at the result."),
    "C28": (TV, MC, "Skeleton.tla: what of a sample may show; SkeletonModel.tla: samples reached by replacing scalars and lengthening lists have the same skeleton and the same canonical structure under every pointer and threshold of a set. Those pairs, telling values and names, random pairs and structures handed over directly run through the code in every output mode; TLC checks that the pair has one skeleton and that the answers are equal."),
    "C29": (TV, MC, "Causes.tla: which causes may be named for a sample (where the byte machine dies, and what follows), for a transfer that fails and for a request whose stages fail; CauseModel.tla: for all byte strings over four alphabets something is named exactly where the text is not well-formed, its end exactly where it can be completed. Those texts, every control state x byte, mutated and too deep documents, failing transfers, pointers and hints that do not fit and failing combinations of stages run through library, macro texts, CLI and WASM entry point; TLC decides whether the cause that the message names may be named."),
    "C30": (TV, MC, "WebOptions.tla: the options block that the page's controls and its extra options come to, read by the machine of OptionsBlock.tla and said directly; WebOptionsModel.tla: equal for all combinations of control values. Those combinations, every value on offer in every language, the examples and random settings are replayed into the real page and worker, and what they send goes through the real entry point of the WASM module; TLC reads the controls and compares with what the library gives for the options they name."),
    "C31": (TV, MC, "Words.tla: the words of a name and what they become in the style of a language; WordsModel.tla: a machine reading the name once agrees for all names of up to 5 (6) characters of every kind; NumberModel.tla: numbers given to names that are taken. Programs in Rust, Kotlin, Python and TypeScript for those names and for plural, colliding and odd ones are walked by TLC from the root: every member and every type has the name that its key gives."),
}
