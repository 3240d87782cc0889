#!/usr/bin/env python3
"""The properties; `python3 props.py` writes properties.jsonl."""
import json

P = []


def prop(id, title, statement, over, quant, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **kw}})


prop("L01", "Opened files are read with every CRLF turned into LF and nothing else changed",
     "The text the server works on is the file's text with each CRLF pair replaced by a single LF; every other character, including lone CRs and text without line breaks, is kept exactly and in order. "
     "The file is recorded as using CRLF exactly when it contains at least one CRLF pair.",
     ["inputs"], "every text: any mix of CR, LF, CRLF and multi-byte characters, any length, line breaks anywhere",
     "Four sample strings are tested; the in-place byte shuffling must be right for every arrangement of line breaks and keep the buffer valid UTF-8.",
     ["crates/stdext/src/line_endings.rs"], [("line-ending normalisation on load", "crates/stdext/src/line_endings.rs: LineEndings::normalize")])
prop("L02", "Edited files are written back in their own line-ending style without loss",
     "Writing a text back for an LF file leaves it as it is; for a CRLF file every LF becomes CRLF and nothing else changes. "
     "Reading the written text again gives the same text, and an unedited file that consistently uses one style is written back byte for byte.",
     ["inputs"], "every text and both line-ending styles, including texts without a final newline, with blank lines, or with lone CRs",
     "Nothing tests the write direction; the round trip is a statement about all texts.",
     ["crates/stdext/src/line_endings.rs"], [("line-ending restoration on edit", "crates/stdext/src/line_endings.rs: LineEndings::map"),
                                            ("line-ending normalisation on load", "crates/stdext/src/line_endings.rs: LineEndings::normalize")])

TE = "crates/ide-db/src/text_edit.rs"
prop("E01", "Applying an edit replaces exactly the listed ranges and keeps everything else",
     "Applying a text edit to the text it was made for gives the text with every listed range replaced by its new text, all offsets referring to the original text; every byte outside the listed ranges is kept, in order. "
     "This holds for any number of changes, for insertions, deletions and replacements, and for changes that touch or share a position.",
     ["inputs"], "every text of up to 4 GiB and every list of disjoint changes whose ends are character boundaries of it",
     "One three-change example is tested (and not built here); a wrong order of application only shows for particular combinations of lengths.",
     [TE], [("applying a change list", f"{TE}: TextEdit::apply, TextChange::apply")])
prop("E02", "Edits never overlap, lose or repeat a change when they are built or merged",
     "Any set of changes of which no two overlap can be put in one edit, in any order; the edit lists them sorted and disjoint, insertions at one place keep the order they were made in, and a deletion or replacement added twice counts once. "
     "Merging two edits succeeds exactly if none of their changes overlap, in whichever order they are merged, and then has the effect of both; otherwise both edits are left as they were.",
     ["inputs"], "every set of changes (any number, any order of insertion, duplicates, touching ranges) and every pair of edits",
     "The tests merge two pairs of deletions; order, ties at one position, duplicates and refusals range over all combinations.",
     [TE], [("edit construction", f"{TE}: TextEditBuilder::{{add_change,finish}}, check_disjoint_and_sort, coalesce_text_changes"), ("edit merging", f"{TE}: TextEdit::union")])
prop("E03", "A position is mapped through an edit to the same place in the new text",
     "Mapping an offset through an edit gives the offset plus everything inserted and minus everything removed before it; only an offset strictly inside a replaced range has no image. "
     "An insertion or replacement starting exactly at the offset does not move it.",
     ["inputs"], "every offset and every edit",
     "No test covers it; it must hold for every position relative to every combination of changes.",
     [TE], [("cursor mapping", f"{TE}: TextEdit::apply_to_offset")])

LS = "crates/aptos-language-server/src"
prop("T01", "The server's copy of a document follows the client's edits exactly",
     "After a batch of changes the server's text is what the client has: starting from the last whole-document change of the batch (or the previous text if there is none) every later change, in the order sent, replaces exactly the characters between its two positions, where positions refer to the text left by the changes before it, "
     "in the negotiated encoding (UTF-8, UTF-16 or UTF-32). A change whose positions are no places in the text (a line past the end, end before start) is ignored and has no effect on how the following changes are placed.",
     ["inputs", "history"], "every text of up to 4 GiB with any mix of line breaks and multi-byte characters, every encoding, every batch of changes: any number, any order of places, insertions, deletions and replacements across lines",
     "A handful of ASCII batches is tested; the line index is only rebuilt when it has to be, so an error shows only for particular sequences of places.",
     [f"{LS}/lsp/utils.rs", f"{LS}/lsp/from_proto.rs"], [("applying content changes", f"{LS}/lsp/utils.rs: apply_document_changes"), ("client position to offset", f"{LS}/lsp/from_proto.rs: offset, text_range")])
prop("T02", "Positions and ranges survive the trip to the client and back in every encoding",
     "An offset at a character boundary is sent as its line and its column counted in the negotiated encoding's units, and the position read back gives the same offset; the same holds for ranges. "
     "A client position on a line that does not exist, and a range that ends before it starts, are refused with an error instead of being placed somewhere else.",
     ["inputs"], "every text of up to 4 GiB, every character boundary of it, every pair of boundaries, three encodings",
     "Only ASCII examples are tested; column arithmetic differs per encoding and per character.",
     [f"{LS}/lsp/from_proto.rs", f"{LS}/lsp/to_proto.rs"], [("client position to offset", f"{LS}/lsp/from_proto.rs: offset, text_range"), ("offset to client position", f"{LS}/lsp/to_proto.rs: position, range")])
prop("T03", "A completion item never carries edits that overlap each other",
     "The check that guards completion items accepts a set of edits exactly when no two of its ranges overlap (ranges that only touch do not overlap), and for an insert/replace edit only when the insert range is a prefix of the replace range.",
     ["inputs"], "every main edit (none, plain, insert/replace), every list of additional edits and resolved imports, in every order",
     "The tests try three combinations; which pair is compared depends on the order and on ties.",
     [f"{LS}/lsp/utils.rs"], [("disjointness of completion edits", f"{LS}/lsp/utils.rs: all_edits_are_disjoint")])
prop("T04", "For an open document the analysis sees the editor's text, never the disk's",
     "From opening a document until closing it, the text the analysis works on is what the client last sent for it, whatever files are found or changed on disk in between, and the recorded version is the client's last. "
     "Notifications about a document touch no other document; closing one makes the server read the file from disk again; files that are not open take over the contents found on disk.",
     ["history"], "every sequence of open, change, close and disk-scan events over any number of files, including repeated opens, changes to unknown documents and URIs that are no paths",
     "No test drives the handlers; the guarantee is about every order in which editor and disk events may arrive.",
     [f"{LS}/handlers/notification.rs", f"{LS}/opened_files.rs", f"{LS}/main_loop.rs"],
     [("document notifications", f"{LS}/handlers/notification.rs: handle_did_open_text_document, handle_did_change_text_document, handle_did_close_text_document"), ("open documents", f"{LS}/opened_files.rs: OpenedFiles"), ("disk contents", f"{LS}/main_loop.rs: load_files_into_vfs")])

LX = "crates/syntax/src/parse/lexer"
prop("X01", "Lexing loses nothing: tokens cover the text and are those of Move's grammar",
     "Every text, valid or not, is split into nonempty tokens that follow each other without gap or overlap, begin and end between characters, and together are exactly as long as the text; lexing never fails and always ends. "
     "Each token is the one Move's lexical grammar asks for at its place: line and nested block comments, runs of white space, decimal and hex numbers with their type suffix, keywords and identifiers (whole words only), byte and hex strings on one line, 'labels, the longest operator, "
     "and otherwise an error token of one grapheme.",
     ["inputs"], "every text of up to 4 GiB: unterminated comments and strings, multi-byte characters and combining marks anywhere, any neighbouring tokens",
     "The parser tests sample source files; lengths in bytes and characters differ only for particular contents at particular places.",
     [f"{LX}.rs", f"{LX}/move_model.rs"], [("splitting a text into tokens", f"{LX}.rs: tokenize, parse_single_token"), ("one token", f"{LX}/move_model.rs: find_token and its helpers, Lexer::advance"), ("token to syntax kind", f"{LX}.rs: aptos_token_kind_to_syntax_kind")])

SX = "crates/syntax/src/parse"
prop("S01", "The syntax tree holds every byte of the file, in order, whatever the errors",
     "For every text, valid Move or not, the tree has a single source-file root and its text is the text it was parsed from: no token, white space or comment is lost, doubled or moved, and composite tokens (>>, ==>, ...) are exactly the raw tokens which touch each other. "
     "Attaching comments and white space to the node before or after never changes the text.",
     ["inputs"], "every text of up to 4 GiB, including broken and unfinished code, and every list of events the parser can produce for it: any nesting, forward parents, abandoned nodes, errors",
     "The parser tests compare trees of sample files; whether text is lost depends on the particular mix of trivia, composite tokens and events.",
     [f"{SX}.rs", f"{SX}/text_tree_sink.rs", f"{SX}/event.rs", f"{SX}/text_token_source.rs", f"{SX}/parser.rs"],
     [("building the tree", f"{SX}/text_tree_sink.rs: TextTreeSink"), ("replaying events", f"{SX}/event.rs: process"), ("token stream", f"{SX}/text_token_source.rs: TextTokenSource"), ("producing events", f"{SX}/parser.rs: Parser, Marker, CompletedMarker")])
prop("S02", "A reading the parser tries and gives up leaves no trace",
     "When the parser starts a node, consumes any tokens and completes or abandons any nodes inside it, and then rolls the node back, the parser is where it was before: same position in the tokens, same events, same errors, same recovery state; the tree is what it would have been had the attempt never been made. "
     "The same holds for rolling back an expression that was completed, and for attempts inside attempts.",
     ["inputs", "history"], "every state of the parser and every sequence of operations between starting and giving up, including composite tokens, errors, preceding nodes and nested attempts",
     "Tests see only the final tree of sample sources; an event or token too many or too few survives only for particular sequences.",
     [f"{SX}/parser.rs", f"{SX}/text_token_source.rs"],
     [("rolling back", f"{SX}/parser.rs: Marker::abandon_with_rollback, CompletedMarker::abandon_with_rollback, Parser::pop_event"), ("stepping back", f"{SX}/text_token_source.rs: TextTokenSource::pop_position")])
prop("S04", "Parsing never panics and always ends",
     "Parsing any text gives a tree and a list of errors: no text makes the parser panic or loop. Nodes are finished exactly once, in the order opposite to the one they were started in, and never after they were rolled back.",
     ["inputs"], "every text of up to 4 GiB, well-formed or not, whose nesting fits the stack",
     "Samples cover the well-trodden paths; panics hide in particular broken inputs.",
     [f"{SX}/grammar.rs", f"{SX}/grammar", f"{SX}/parser.rs", f"{SX}/event.rs", f"{SX}/text_tree_sink.rs"],
     [("grammar rules", f"{SX}/grammar/*.rs"), ("producing events", f"{SX}/parser.rs: Parser, Marker, CompletedMarker"), ("recovering from errors", f"{SX}/parser.rs: error_and_recover, iterate_to_EOF_rec")])

prop("F01", "Changed files reach the analysis as they are on disk, with their line ends kept",
     "After the server has processed the pending file changes, the analysis sees for every changed file its present contents: text in UTF-8 with Windows line ends read as Unix ones (and the file's convention recorded), empty for a file that was deleted or is not UTF-8; every other file keeps its text. "
     "Packages are recomputed and reloaded exactly when a file on disk appeared or went away or a Move.toml changed; no sequence of changes, deletions and recreations makes the server panic or mixes up files.",
     ["history"], "every sequence of batches of created, modified and deleted files, of any contents, inside and outside packages, and every state of the database",
     "No test covers the server's change processing; what is lost depends on the order of creations, deletions and package changes.",
     [f"{LS}/file_changes.rs", "crates/base-db/src/change.rs", "crates/base-db/src/inputs.rs", "crates/ide-db/src/root_db.rs"],
     [("collecting pending changes", f"{LS}/file_changes.rs: fetch_pending_file_changes, process_pending_file_changes"), ("applying them", "crates/base-db/src/change.rs: FileChanges::apply"), ("the inputs of the analysis", "crates/base-db/src/inputs.rs: Files; crates/ide-db/src/root_db.rs: RootDatabase")])
prop("F02", "Every file belongs to its package, and every module is paired with its specs",
     "When packages are recomputed, each one holds exactly the files under its own root (the innermost, when roots are nested), has the right number, is local exactly when it is part of the workspace, and knows the file id of its manifest when that is present; each file of the project points to the package that holds it, and packages of earlier states are gone. "
     "The spec files of x.move and x.spec.move are the files of these two names in the same package, and only those; nothing else has any.",
     ["inputs", "history"], "every set of package roots and files, whatever their names, and every earlier state of the database",
     "No test covers it; errors need particular file names or a particular order of package sets.",
     ["crates/base-db/src/inputs.rs", "crates/base-db/src/package_root.rs", "crates/project-model/src/project_folders.rs"],
     [("packages and spec files", "crates/base-db/src/inputs.rs: Files::replace_package_roots, find_spec_file_set"), ("partition into packages", "crates/project-model/src/project_folders.rs: PackageRootConfig::partition_into_package_roots"), ("package", "crates/base-db/src/package_root.rs: PackageRoot")])

prop("G01", "Type inference never panics on known types and never builds an infinite type",
     "Whatever types are compared, in whatever order: unification never stops with an error (two different types for one variable, a missing snapshot), no variable ever stands for a type that contains it, variables stand for types (not for other variables) and integer variables for integer types only, what a variable is known to stand for stays known, and variables found equal stay equal. Looking up a variable always ends.",
     ["inputs", "history"], "every pair of types, every state of the tables and every sequence of comparisons",
     "The type tests run a few hundred programs; the panics and the endless loops need chains of variables that lead back to themselves.",
     ["crates/lang/src/types/unification.rs", "crates/lang/src/types/inference.rs", "crates/lang/src/types/inference/combine_types.rs"],
     [("tables of variables", "crates/lang/src/types/unification.rs: UnificationTable"), ("comparison of types", "crates/lang/src/types/inference/combine_types.rs: InferenceCtx::combine_types, unify_ty_var, unify_int_var, ty_contains_ty_var"), ("best common type", "crates/lang/src/types/inference/combine_types.rs: InferenceCtx::intersect_all_types")])
prop("G02", "Asking whether types are compatible leaves no trace in the inference",
     "A comparison on trial (is_tys_compatible, with or without autoborrow, anything inside freeze, and a specification block inside code) leaves what is known of every type variable and integer variable, and the specification mode, exactly as it was; inside a specification block the mode is on.",
     ["inputs", "history"], "every pair of types, every state of the tables, nested trials",
     "A leaked guess shows as a wrong type of some later expression; it needs a trial that learns something and is then given up.",
     ["crates/lang/src/types/inference.rs", "crates/lang/src/types/inference/combine_types.rs", "crates/lang/src/types/unification.rs", "crates/lang/src/types/ty/reference.rs"],
     [("trials", "crates/lang/src/types/inference.rs: InferenceCtx::freeze, msl_scope"), ("snapshots", "crates/lang/src/types/unification.rs: UnificationTable::snapshot, rollback"), ("compatibility", "crates/lang/src/types/inference/combine_types.rs: InferenceCtx::is_tys_compatible"), ("with autoborrow", "crates/lang/src/types/ty/reference.rs: InferenceCtx::is_tys_compatible_with_autoborrow, autoborrow")])
prop("G03", "Resolution and substitution reach every part of a type and change nothing else",
     "Resolving a type replaces every variable in it that is known, at any depth, by what it stands for, and keeps the rest; full resolution leaves no type variable (unknown ones become the unknown type, or the parameter they came from); substituting type parameters replaces exactly the parameters of the substitution, in every part; searching a type for variables looks at every variable in it.",
     ["inputs"], "every type, every state of the tables, every substitution",
     "Types are nested in many ways (arguments, parameters, results, substitutions of items); a part that is skipped shows only for types with a variable exactly there.",
     ["crates/lang/src/types/fold.rs", "crates/lang/src/types/substitution.rs", "crates/lang/src/types/ty.rs", "crates/lang/src/types/ty/", "crates/lang/src/types/inference.rs"],
     [("folding", "crates/lang/src/types/fold.rs: TyVarResolver, FullTyVarResolver, TyInferVisitor, TypeFolder::fold_tys"), ("parts of a type", "crates/lang/src/types/ty.rs: Ty::deep_fold_with, deep_visit_with"), ("of items", "crates/lang/src/types/ty/adt.rs, schema.rs, tuple.rs, reference.rs, range_like.rs, ty_callable.rs: deep_fold_with, deep_visit_with"), ("substitution", "crates/lang/src/types/substitution.rs: Substitution, SubstitutionApplier")])

HL = "crates/ide/src/syntax_highlighting"
prop("H01", "Highlighting covers the asked range once, and shows the innermost highlight",
     "For every range asked for and every sequence of highlights inside it, of which any two are apart or one lies within the other, in any order: the result is a list of consecutive non-empty pieces which together cover exactly the range, and every position shows the highlight of the smallest range around it, of equal ranges the one added last, and no highlight where there is none.",
     ["inputs"], "every range and every sequence of nested or separate highlights, empty ones and repeated ones included",
     "There are no tests of the tree of highlights; errors need a particular order and nesting of ranges.",
     [f"{HL}/highlights.rs", f"{HL}.rs"],
     [("tree of highlights", f"{HL}/highlights.rs: Node::add, Highlights::add"), ("reading it off", f"{HL}/highlights.rs: Node::flatten, Highlights::to_vec")])
prop("H02", "Semantic tokens reach the client where the highlights are, whole or as edits",
     "For every text and every sorted list of highlights which do not overlap, decoding the tokens sent (each relative to the one before) gives exactly the highlighted pieces: one token per line touched, without the line break, at the right line and column and of the right length in the client's encoding, with the place in the legend of its kind. "
     "The edits sent instead of a whole list lead from the tokens the client has to the new ones, whatever both are.",
     ["inputs", "history"], "every text (Unix or Windows line ends read as Unix, any Unicode), every encoding, every list of highlights; every pair of token lists",
     "No test covers the encoding; a wrong delta moves every later token, and needs multi-line highlights, wide characters or equal ends of two token lists.",
     [f"{LS}/lsp/semantic_tokens.rs", f"{LS}/lsp/to_proto.rs"],
     [("encoding", f"{LS}/lsp/semantic_tokens.rs: SemanticTokensBuilder::push, build"), ("per line", f"{LS}/lsp/to_proto.rs: semantic_tokens"), ("edits", f"{LS}/lsp/semantic_tokens.rs: diff_tokens")])
prop("O01", "Packages load one at a time, and the latest request is never lost",
     "Whatever the order of requests, starts and completions: never are two loads of the packages under way, a request made while one is under way is started when it has ended (the latest one, with its arguments), nothing is started which was not asked for or twice, and the result at hand is that of the last load completed; "
     "when a load ends, the server schedules the switch to its result, and the project counts as fully loaded exactly when no load and no file synchronisation is under way.",
     ["history", "schedules"], "every sequence of requests, starts and completions",
     "No test covers the queue; a lost request shows only when it comes while a load is under way.",
     [f"{LS}/op_queue.rs", f"{LS}/main_loop.rs", f"{LS}/reload.rs"],
     [("queue", f"{LS}/op_queue.rs: OpQueue"), ("end of a load", f"{LS}/main_loop.rs: GlobalState::handle_task"), ("state reported", f"{LS}/reload.rs: GlobalState::is_project_fully_loaded")])

AD = "crates/lang/src/nameres/address.rs"
HD = "crates/lang/src/hir_db.rs"
prop("A01", "Two addresses mean the same exactly when they stand for the same number",
     "Hexadecimal addresses (`0x` and digits) are the same address exactly when they are the same number: leading zeros, the case of the digits and `_` between them do not matter, nothing else is ignored. "
     "A named address stands for what the loaded packages declare (the names of the framework packages always for 0x1) and then equals every address of that number; a name which is unknown or declared as `_` equals only the same name. "
     "For completion, two names are the same only if spelled the same. Equality is symmetric and transitive; the check for address 0x0 (and 0x1) accepts exactly the spellings of 0 (and 1).",
     ["inputs"], "every pair of addresses, named or hexadecimal of any length and spelling, and every set of packages with named addresses",
     "The tests use a few addresses in one spelling; the comparison must be right for every pair, and drop neither a significant digit nor a known name.",
     [AD, HD], [("comparison", f"{AD}: Address::equals_to, NumericAddress::short"), ("what names stand for", f"{AD}: resolve_named_address"), ("declared names", f"{HD}: named_addresses, named_addresses_tracked")])
prop("A02", "A path looks for modules in all of its package and its dependencies, only there",
     "The modules a path `address::...` in a package can mean are exactly the modules whose own address is the same one (A01), in any file of the package itself or of a package it depends on: no such module or file is left out, and none is taken from elsewhere. "
     "The packages searched for usages of an item are exactly its own package and those which depend on it.",
     ["inputs"], "every set of packages with files and dependencies, every placement of modules, every address",
     "Tests have one or two packages; a file, module or dependency skipped shows only for particular arrangements of several.",
     [HD, "crates/lang/src/nameres/name_resolution.rs"],
     [("modules of a file", f"{HD}: get_modules_in_file"), ("files by address", f"{HD}: file_ids_by_module_address"), ("entries", "crates/lang/src/nameres/name_resolution.rs: get_modules_as_entries"), ("reach of a package", f"{HD}: transitive_dep_package_ids, reverse_transitive_dep_package_ids")])

PM = "crates/project-model/src"
prop("P01", "A package gets its whole dependency closure, each package and name once",
     "From the manifests of the workspace every manifest reached through declared dependencies (local and git, ordinary and for development) is loaded, exactly once, and no other; a manifest that cannot be read becomes an error and only that one. "
     "Each loaded package has the name, named addresses and missing dependencies its manifest says, and as dependencies the closure of what it declares: no manifest twice, no package name twice, each dependency listed before those it brings in, nothing that is not needed, nothing left out unless a package of the same name is there; its own declared dependencies win over indirect ones of the same name. "
     "What a git package depends on counts as git. A manifest whose dependencies are not to be resolved has none, unless another package depends on it. Cyclic dependencies end.",
     ["inputs"], "every set of manifests and dependencies between them, cyclic ones, duplicate names, missing and broken manifests, and every choice of workspace manifests",
     "No test loads packages; a dependency lost, doubled or taken in the wrong order shows only for particular graphs.",
     [f"{PM}/aptos_package/load_from_fs.rs", f"{PM}/move_toml.rs", f"{PM}/aptos_package.rs"],
     [("closure", f"{PM}/aptos_package/load_from_fs.rs: collect_deps_transitively"), ("reached manifests", f"{PM}/aptos_package/load_from_fs.rs: collect_reachable_manifests, load_aptos_packages"), ("declared", f"{PM}/move_toml.rs: declared_dependencies, dep_root")])
prop("P02", "Every manifest is discovered, and the package graph is what was loaded",
     "Discovery finds every directory of the workspace with a `Move.toml` file, each once, with dependencies resolved except, in a checkout of aptos-core, outside its framework, move-examples and test packages. "
     "A file opened alone belongs to the nearest enclosing directory with a manifest, if it is in the sources, tests or scripts of that one, and to no package otherwise. "
     "The package graph has an entry for each loaded package, with the file ids of its manifest and of the manifests of its dependencies in order, and its name, addresses, resolve flag and missing dependencies; there is no graph exactly when one of these files cannot be loaded.",
     ["inputs"], "every tree of directories and files, every file path, every set of loaded packages",
     "No test covers discovery; a directory skipped or a wrong owner shows only for particular layouts.",
     [f"{PM}/lib.rs", f"{PM}/dep_graph.rs", f"{PM}/aptos_package.rs", f"{PM}/manifest_path.rs"],
     [("discovery", f"{PM}/lib.rs: DiscoveredManifest::discover_all, discover_for_file, walk_and_discover_manifests"), ("graph", f"{PM}/dep_graph.rs: collect, AptosPackage::dep_graph_entry"), ("manifest of a directory", f"{PM}/aptos_package/load_from_fs.rs: try_find_move_toml_at_root")])

LN = "crates/lang/src"
prop("V01", "An item can be used from a place exactly when Move's visibility rules allow it",
     "A name is reported as usable from a place exactly when one of these holds: the place is in a spec or an attribute; it is a path in a `use` and the item is a module, struct, enum, spec item, anything not private, or (in tests) a constant; the item is a function or constant of the builtins module; "
     "or the item belongs to the same build as the place (items for tests only in tests, for verification only in verification, spec items only in specs) and is in the same module or script, or is a type where a type is written, or is of a kind without visibility modifiers (a module, a field), or is public, or `public(friend)` in a module that declares the module of the place a friend, or `public(package)` in the same package. Otherwise the reason reported is the build first, then privacy. "
     "Every place of a file belongs to the build said by the innermost item or spec around it that says one (`#[test_only]`, `#[test]`, `#[verify_only]`, specs), the ordinary one if none does.",
     ["inputs"], "every syntax tree, entry, adjustment of scope and place in it",
     "Tests try single combinations of modifier, place and attribute; the rules interact, and nesting, several friends or tests inside specs must not change the answer.",
     [f"{LN}/nameres/is_visible.rs", f"{LN}/item_scope.rs", "crates/syntax/src/ast/visibility.rs", "crates/syntax/src/ast/node_ext/visibility.rs"],
     [("rules", f"{LN}/nameres/is_visible.rs: is_visible_in_context"), ("builds", f"{LN}/item_scope.rs: item_scopes, node_item_scope, item_scope_from_attributes"), ("modifiers", "crates/syntax/src/ast/visibility.rs: HasVisibility::vis"), ("specs", "crates/syntax/src/ast/node_ext/syntax_element.rs: is_msl_context")])

prop("G04", "Each pattern of a tuple gets the part at its place, bound as the references say",
     "When a tuple or tuple struct is taken apart, the patterns before any `..` get the parts counted from the front, those after the last `..` the parts counted from the back, and what stands between two `..`, or has no part left, an unknown type; every pattern is visited once, in order, with the binding mode of the whole. It never panics, whatever the number of patterns and parts. "
     "Taking apart a reference goes through all of its references: without any, binding is as before; otherwise bindings are references, mutable exactly if all references passed (and the mode it started from) are mutable. A binding by reference has the type of a reference of that mutability to the part.",
     ["inputs"], "every list of patterns with any `..`, every number of parts, every type with any references around it, every binding mode",
     "Tests have a few well-formed patterns; `..` with too few parts or several times, and references of mixed mutability, need particular input.",
     [f"{LN}/types/patterns.rs", f"{LN}/types/ty/reference.rs"],
     [("parts", f"{LN}/types/patterns.rs: TypeAstWalker::infer_tuple_pat_fields"), ("references", f"{LN}/types/patterns.rs: strip_references, apply_bm")])

if __name__ == "__main__":
    with open("properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
