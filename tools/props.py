P = []
def prop(**k): P.append(k)
GEN = "runtime monitor with an independent oracle over generated workloads"

prop(id="P01", title="Any text is parsed losslessly, and nothing crashes or hangs on it",
 statement="For every Unicode text, valid TOML or not, the syntax tree is exactly the text again: its leaves are consecutive pieces of the text with true byte spans, lines and columns, and every reported syntax error lies inside the text. Parsing, building the document, linting and formatting it always come back, without a panic, a stack overflow or work that explodes with nesting.",
 over=["inputs"], text="all texts: valid documents, documents cut or damaged anywhere, token soup, deep nesting, very long flat texts; both TOML versions; all formatter options",
 why="Unit tests feed a few hundred well-chosen snippets; an unbroken tree and freedom from panics are claims about every text an editor may hold while a user types.",
 files=["crates/tombi-lexer/src/lib.rs", "crates/tombi-lexer/src/cursor.rs", "crates/tombi-parser/src/lib.rs", "crates/tombi-rg-tree/src/cursor.rs", "crates/tombi-text/src/span.rs", "crates/tombi-formatter/src/format/value/array.rs"],
 mech="lexer tokens are glued into events, events into a green tree; spans and ranges are derived from token lengths", tech=GEN,
 note="Every leaf of the tree is compared with the text on each execution; debug assertions and overflow checks are on in the code under test.")
prop(id="P02", title="A text is accepted, and read as the same data, exactly as TOML says",
 statement="A text is free of errors for TOML version 1.0 or 1.1 exactly when it is valid TOML of that version. When it is, the data read from it (keys, nesting, strings, numbers, date-times, arrays in order) is what the specification assigns to it.",
 over=["inputs"], text="all texts under both TOML versions",
 why="The conformance suite is a finite list of files; which of the infinitely many odd spellings (escapes, separators, header orders, comments in odd places) are accepted cannot be settled by it.",
 files=["crates/tombi-lexer/src/lib.rs", "crates/tombi-parser/src/parse", "crates/tombi-document-tree/src/value/table.rs", "crates/tombi-toml-text/src/lib.rs", "crates/tombi-date-time/src", "crates/tombi-linter/src/lint"],
 mech="lexer regexes and parser decide syntax, document tree merging decides duplicate and re-opened tables, toml-text decodes strings and numbers", tech="differential monitor against independent TOML 1.0 and 1.1 readers",
 note="The reference readers decide; texts where they are known to leave the specification (byte order marks, out-of-range floats, newlines around '=' in 1.1 inline tables) are skipped.")
prop(id="P03", title="Formatting never changes the data of a document",
 statement="For every valid document and every combination of formatter options, formatting succeeds and its output is a valid document with the same data: same keys, same values of the same types, arrays in the same order. A text that is not valid is either refused or comes out with every key and value it had.",
 over=["inputs", "configurations"], text="all documents, both TOML versions, all formatter options",
 why="Formatter tests pin chosen layouts under a handful of option sets; data loss shows up in combinations of layout, key order, quoting and options.",
 files=["crates/tombi-formatter/src", "crates/tombi-ast-editor/src", "crates/tombi-ast/src"],
 mech="the AST editor reorders and regroups the tree in place, then the formatter writes every node again", tech="differential monitor: independent TOML readers compare the text before and after",
 note="Data are compared by independent readers, not by the code under test.")
prop(id="P04", title="Formatting is idempotent",
 statement="Formatting the output of the formatter again, with the same options, gives the same text byte for byte, and never fails.",
 over=["inputs", "configurations"], text="all valid documents, both TOML versions, all formatter options",
 why="Tests check single steps on chosen snippets; a second run changing the first one's output depends on interactions of comments, blank lines, widths and reordering.",
 files=["crates/tombi-formatter/src", "crates/tombi-ast-editor/src"],
 mech="reordering, grouping, alignment and line breaking must reach a fixed point in one pass", tech=GEN,
 note="Byte comparison of first and second output on each execution.")
prop(id="P05", title="Formatting keeps every comment, attached to what it was attached to",
 statement="Formatting never drops, duplicates or rewords a comment (beyond the space after '#'). A comment keeps its place: at the end of the line of the same key or header, in the lines above the same key or header, inside the same array or inline table after the same items, or loose in the same section.",
 over=["inputs", "configurations"], text="all valid documents with comments in every place the grammar allows, all formatter options",
 why="Comments may stand at every gap between tokens; tests cover a few gaps with a few options, and not what reordering does to them.",
 files=["crates/tombi-formatter/src/format", "crates/tombi-ast-editor/src", "crates/tombi-ast/src/support/comment.rs", "crates/tombi-ast/src/support"],
 mech="the AST classifies comments as leading, trailing or dangling; the editor moves them with their owner; the formatter writes each class", tech="online monitor tracking every marked comment from input to output",
 note="Each generated comment carries a unique marker; where it belongs is read off both texts by an independent scanner.")
prop(id="P06", title="The command line tool tells the truth about what it did to which file",
 statement="`format` rewrites exactly the files whose formatted text differs, each to exactly that text, and touches no other; a file it cannot format stays byte for byte. `--check`, `--diff`, lint and '-' write no file. Each file is handled once however often it is named. Exit code, per-file messages and summary counts say exactly what happened, whatever order the parallel tasks run in.",
 over=["inputs", "schedules"], text="all sets of files (valid, broken, not UTF-8, empty, missing, repeated, linked), all commands and flags, all orders in which the parallel tasks finish",
 why="Tests run the tool on one or two files; that reports stay right for any mix of outcomes and any finishing order of the tasks is not sampled.",
 files=["rust/tombi-cli/src/app/command/format.rs", "rust/tombi-cli/src/app/command/lint.rs", "rust/tombi-cli/src/app/command.rs", "crates/tombi-glob/src/lib.rs", "crates/tombi-diagnostic/src/printer.rs"],
 mech="one task per file on a multi-threaded runtime; results are counted into a summary and an exit code", tech="trace monitor: system calls on every file, directory snapshots and reports compared with the effect the formatter and linter should have",
 note="Runs the real binary; random delays inside file operations vary the schedule, and the recorded calls show which files were opened for writing.")
prop(id="P07", title="An I/O error never goes unreported and never damages another file",
 statement="When opening, reading or writing one file fails or comes back short while several are formatted or linted, the tool reports that file, exits non-zero, and still handles every other file right; a file it could only read is left as it was, and a short read or write never makes it write wrong text silently.",
 over=["inputs", "crash_points"], text="all files and all file operations of a run, each failing with each error or coming back short",
 why="Tests never make a system call fail; whether an error at every single operation is reported can only be seen by causing it.",
 files=["rust/tombi-cli/src/app/command/format.rs", "rust/tombi-cli/src/app/command/lint.rs", "crates/tombi-glob/src/lib.rs"],
 mech="each file is read whole, formatted, then written back in place and flushed", tech="fault injection at the C library boundary with an outcome monitor", level="fault_enumeration",
 note="A preloaded library fails one chosen operation on one chosen file and logs that it did.")
prop(id="P08", title="Exactly the files the patterns and ignore files select are handled",
 statement="The files a run handles are exactly those the arguments, files.include, files.exclude and ignore files select: no file that is excluded or ignored, and none missing, wherever the tool is started from; files named one by one are handled unless excluded, and each selected file once.",
 over=["inputs", "configurations"], text="all directory trees, include and exclude patterns, ignore files, working directories and argument forms",
 why="Tests use one or two small trees; which files are swept up is a relation over trees, patterns and places.",
 files=["crates/tombi-glob/src/walk_dir.rs", "crates/tombi-glob/src/lib.rs", "crates/tombi-glob/src/pattern.rs", "crates/tombi-glob/src/file_match.rs", "rust/tombi-cli/src/app/command.rs"],
 mech="a parallel walk collects files under the root and matches them against the patterns relative to the configuration's directory", tech="runtime monitor against an independent glob matcher and git's own ignore rules",
 note="Brace patterns and wildcards on non-ASCII names are left out: the glob library in use does not support them.")
prop(id="P09", title="The configuration in force is the one the documentation says",
 statement="The nearest project configuration above the working directory (tombi.toml before .tombi.toml before .config/tombi.toml before pyproject.toml with [tool.tombi]), else the user's, else the defaults, governs a run; a broken one is reported, never skipped or fatal without a message. For a file the first matching override adds to and wins over the base rules, and a version directive in the file wins over the configured TOML version.",
 over=["configurations", "inputs"], text="all trees of configuration files, contents, working directories, files and directives",
 why="Precedence is a relation over several places that tests set up one at a time.",
 files=["crates/tombi-config/src/overrides.rs", "rust/serde_tombi/src/config.rs", "crates/tombi-config/src/format.rs", "crates/tombi-config/src/lint.rs", "rust/tombi-cli/src/app/command.rs"],
 mech="the loader walks up the directories trying each file name; rules of overrides are merged into base rules per file", tech=GEN,
 note="Which configuration was in force is read off the text the tool produces: every candidate asks for a different layout.")
prop(id="P10", title="Schema validation accepts exactly the documents JSON Schema accepts",
 statement="With a JSON Schema (draft-07, 2019-09 or 2020-12) attached to a document, linting reports an error exactly when the document's data violates the schema by the rules of that draft, for every combination and nesting of the supported keywords, references and anchors included.",
 over=["inputs", "configurations"], text="all schemas built from the supported keywords, all documents in every TOML spelling of their data",
 why="The schema tests cover keywords one or two at a time; what combinations of applicators, references and unevaluated* accept is an endless product.",
 files=["crates/tombi-validator/src/validate.rs", "crates/tombi-validator/src/validate", "crates/tombi-schema-store/src/schema", "crates/tombi-schema-store/src/store.rs"],
 mech="schemas are parsed into typed views plus a semantic tree; each value is validated against a view projected for its type", tech="differential monitor against an independent JSON Schema evaluator",
 note="String length is counted in grapheme clusters by tombi, so strings with combining marks are left out; keys of dependencies count as evaluated, which tombi's own tests ask for.")
prop(id="P11", title="The language server speaks about the client's latest text",
 statement="Whatever an editor sends and however fast, formatting edits and diagnostics, pushed or pulled, are those the formatter and linter give for the text the client has: applying the edits yields exactly the formatter's output, diagnostics published last belong to the latest version and equal the linter's. Files changed or deleted on disk under an open document do not matter.",
 over=["histories", "schedules", "inputs"], text="all sequences of open, change, save, close, disk events and requests over several documents, in bursts or one by one, all position encodings and both diagnostic modes",
 why="Requests and changes are handled concurrently against shared document state and caches; tests call one handler once.",
 files=["crates/tombi-lsp/src/handler", "crates/tombi-lsp/src/backend.rs", "crates/tombi-lsp/src/diagnostic.rs", "crates/tombi-lsp/src/workspace_diagnostic.rs", "crates/tombi-lsp/src/config_manager.rs", "crates/tombi-text/src"],
 mech="documents live in a shared map; several messages are handled at once; diagnostics are cached per document", tech="online trace monitor of language server sessions against the library called on the text the client holds",
 note="A pulling client may be published a subset, since it asks for the rest itself.")
prop(id="P12", title="The language server answers every request once, in range, and survives",
 statement="Every request, at any position of any text, whole or broken, gets exactly one answer; the server never panics, hangs or reports an internal error, and stops when told to. Every position in an answer lies within the text in the agreed encoding; edits of completions and actions do not overlap and can be applied; semantic tokens are in order within their lines; symbols nest.",
 over=["inputs", "histories"], text="all texts, positions (in and outside the text), request kinds, trigger contexts, encodings and client capabilities",
 why="Each feature walks partial syntax trees and schemas under locks; tests try chosen positions of well-formed texts.",
 files=["crates/tombi-lsp/src/handler", "crates/tombi-lsp/src/completion", "crates/tombi-lsp/src/hover", "crates/tombi-lsp/src/goto_type_definition", "crates/tombi-lsp/src/semantic_tokens", "crates/tombi-lsp/src/code_action.rs", "extensions", "crates/tombi-ast/src"],
 mech="features traverse the syntax tree of possibly broken text with the schema behind async locks", tech="online protocol monitor of language server sessions with hostile requests",
 note="Whether an answer is useful is not judged here, only that it is sound.")
prop(id="P13", title="A refactoring changes the data only as its title says",
 statement="Applying the edits of a code action the language server offers leaves valid TOML and every comment. Converting between dotted keys and inline tables leaves the data as it is; inheriting from the workspace and adding to the workspace change exactly the dependency or field named, in the member and in the workspace's list, keep its other settings (features, extras, markers), and leave everything else alone.",
 over=["inputs"], text="all documents, positions in them, spellings of keys and values, and layouts of workspace manifests",
 why="The edits are pasted together from ranges and texts; tests apply them to the common spelling only, never at line ends, with quoted keys, sub tables, trailing commas or comments.",
 files=["crates/tombi-lsp/src/code_action.rs", "crates/tombi-lsp/src/handler/code_action.rs", "crates/tombi-lsp/src/completion.rs", "extensions/tombi-extension-cargo/src/code_action.rs", "extensions/tombi-extension-pyproject/src/code_action.rs", "crates/tombi-document-tree/src/value", "crates/tombi-toml-text/src/lib.rs"],
 mech="an action finds keys and values around the position and proposes text edits in one or two documents", tech="online monitor: each offered edit is applied and the data before and after compared by an independent TOML reader",
 note="Updating to the latest version needs the network and is not judged.")
prop(id="P14", title="Sorting asked for by schema or comment happens fully and changes only order",
 statement="Where a schema (x-tombi-table-keys-order, -array-values-order and -order-by) or a comment directive asks for an order, formatting puts the keys, table headers and values into exactly that order, in every spelling of the table (headers, dotted keys, inline tables, quoted keys, arrays of tables) and through $ref, allOf, anyOf, oneOf, properties, patterns and items; where nothing asks or sorting is disabled, the order stays. Data but for the order of sorted arrays stays, values stay in their blank-line groups, every comment stays with its owner, and a second run changes nothing.",
 over=["inputs", "configurations"], text="all schemas with orders at any depth, all documents that satisfy them, all directives and layouts",
 why="Sorting moves syntax nodes, commas and comments guided by schemas resolved along the way; tests cover single tables of plain keys.",
 files=["crates/tombi-ast-editor/src/rule", "crates/tombi-ast-editor/src/edit", "crates/tombi-version-sort/src", "crates/tombi-x-keyword/src", "crates/tombi-schema-store/src"],
 mech="the editor resolves the schema of every table and array, computes sorted sequences and replaces ranges of the tree", tech="online monitor comparing the order in the output with an independent reading of schema and directives",
 note="Documents follow their schema; keys that match both a property and a pattern are left out. How far a directive reaches below its own table is not documented and not judged.")
prop(id="P15", title="The syntax tree stays memory safe and true under every walk and edit",
 statement="Building, walking, cloning, editing (splice, detach, replace) and dropping syntax trees, in any order and with any handles kept, also on several threads that share green trees, never touches freed, foreign or uninitialised memory, never races and never leaks a tree; kinds, texts, spans, lines and columns, parents, siblings and the tokens at an offset or position that any live handle reports are those of the tree as edited. The tool, formatting, linting and serving an editor, reads and writes no memory it does not own and has no data race.",
 over=["inputs", "histories", "schedules"], text="all sequences of tree operations and drops, all texts, all interleavings of threads that share green trees or handle files and requests",
 why="The tree is made of raw pointers, hand-counted references and transmutes; tests only see wrong answers, not a read of freed memory that happens to give the right one.",
 files=["crates/tombi-rg-tree/src/cursor.rs", "crates/tombi-rg-tree/src/arc.rs", "crates/tombi-rg-tree/src/sll.rs", "crates/tombi-rg-tree/src/green", "crates/tombi-syntax/src/language.rs", "crates/tombi-formatter/src/formatter.rs", "crates/tombi-uri/src/lib.rs"],
 mech="cursors point into shared, reference-counted green nodes; edits re-spine the path to the root and patch sibling lists", tech="Miri, AddressSanitizer, LeakSanitizer and ThreadSanitizer on random tree programs with a model of the tree as online monitor, and on the workloads of the other properties",
 note="The experimental aliasing models of Miri are off: this kind of tree, inherited from rowan, does not follow them. Leaks are judged for trees, not for schemas that refer to themselves.")
prop(id="P16", title="Every layout option holds everywhere in formatted text",
 statement="In formatted text, every indent, every space around equals signs, brackets, braces, commas and trailing comments, every blank line, quote, date-time delimiter, line ending and alignment column is what the options (or their documented defaults) say, at every nesting and in both TOML versions; nothing that could be broken runs over the line width, and nothing that fits is broken without a reason in the source.",
 over=["inputs", "configurations"], text="all valid documents, both TOML versions, all combinations of formatter options",
 why="Tests show each option on a snippet or two; options meet comments, nesting, sub tables, widths and each other in ways they do not sample.",
 files=["crates/tombi-formatter/src", "crates/tombi-config/src/format.rs", "crates/tombi-ast/src/impls", "crates/tombi-ast-editor/src"],
 mech="definitions derived from the options; groups, alignment widths and line width estimates computed while writing", tech="online monitor judging every token of the output against the options by an independent scanner",
 note="The monitor reads only source, options and output; it knows nothing of the formatter's tree.")
prop(id="P17", title="Lint reports exactly the broken rules, unless silenced at that value",
 statement="For a document and its schema, lint reports each broken rule (style rules, key rules, and the schema rules of every type of value and table) with that rule's code, once per breach, at the line of the offending value or key, at the severity the options ask for (off: not at all); nothing else is reported. A disable directive for a rule, above or at the end of the line of a value or header, silences that rule at that value and nowhere else, is not reported as unused while it silences something, and is reported where the tool tells unused ones. `lint.disabled` silences the document.",
 over=["inputs", "configurations"], text="documents built with known breaches of 30 lint rules at every nesting (headers, inline tables, dotted keys, arrays, arrays of tables), with directives in both places, and all severity options",
 why="Tests show each rule and its directive on one line of one schema; rules and directives meet nesting, dotted keys, arrays and each other.",
 files=["crates/tombi-linter/src", "crates/tombi-validator/src", "crates/tombi-comment-directive/src", "crates/tombi-document-tree/src", "crates/tombi-severity-level/src"],
 mech="rules look up directives attached to tree nodes; a validator walks schema and document; unused disables are found by asking each rule", tech="online monitor comparing the reported (rule, severity, line) multiset with the one known by construction",
 note="Table rules on [[...]] headers are a recorded finding; tables implied by dotted keys share the directives of the key.")
prop(id="P18", title="Each value is judged by the schema its configuration assigns to it",
 statement="What lints and formats a file is decided by the configuration alone: a `#:schema` directive names the root schema, else the first [[schemas]] entry without `root` whose include (and not exclude) pattern matches the file and whose schema can be loaded, else the first such catalog entry; entries with `root` govern the values at that accessor (the most exact one wins) whatever the schema around them says, including nothing. At each value the strict setting, the level of deprecation, the table order and the TOML version are those of the most specific place that sets them (directive, override, sub entry, root entry, global), and no setting of one entry or file reaches another. Paths relative to the configuration file, URLs in the cache, fragments and catalogs name the same schema however written; a schema that cannot be loaded is passed over (and told where the document names it). The messages of files linted together stay with their file and line.",
 over=["inputs", "configurations"], text="projects of up to seven schemas, catalogs, entries with patterns, roots, overrides and options, and six documents linted and formatted in one run",
 why="Tests try one association at a time; precedence and isolation are statements about any mixture of entries and files.",
 files=["crates/tombi-schema-store/src", "crates/tombi-config/src/schema.rs", "crates/tombi-validator/src", "crates/tombi-glob/src", "crates/tombi-diagnostic/src", "rust/tombi-cli/src"],
 mech="the store collects, per file, the entries that match and folds them into one source schema with maps keyed by schema", tech="online monitor comparing the (line, severity) set of every file of a project and the key order of every table with those that follow from a model of schema association",
 note="Every schema leaves its own fingerprint (a key that only it rejects), so a report tells which schema judged which table.")
