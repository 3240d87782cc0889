PROPS = {
    "L01": dict(units=["line_endings"], fns=["LineEndings::normalize"], native=("line_endings", ["read"]),
                theorems=["LineEndings::normalize (postcondition)"],
                note="Every obligation of the contracts on normalize is discharged for all texts. Trusted: String::into_bytes, Vec::set_len, String::from_utf8_unchecked and memchr's Finder have the stated contracts."),
    "L02": dict(units=["line_endings"], native=("line_endings", ["write"]),
                theorems=["LineEndings::map (postcondition)", "theorem_write_then_read", "theorem_read_then_write"],
                note="map is proved against a character-level specification and the round trips are theorems over the two contracts. Trusted: str::replace(char, &str) and the std/memchr contracts used by normalize."),
    "E01": dict(units=["text_edit"], fns=["TextChange::.*", "TextEdit::(apply|len)"], native=("text_edit", ["apply"]),
                theorems=["TextEdit::apply (postcondition)"],
                note="All obligations of apply/replace discharged for all texts and change lists (machine arithmetic checked: sizes up to u32::MAX are a precondition). Trusted: String::replace_range, text-size's documented contracts."),
    "E02": dict(units=["text_edit"], fns=["TextChange::(insert|delete|replace)", "TextEdit::union", "check_disjoint.*", "assert_disjoint.*", "coalesce_.*", "TextEditBuilder::.*"],
                native=("text_edit", ["build"]), theorems=["TextEditBuilder::finish, TextEdit::union (postconditions)", "lemma_coalesce_effect", "lemma_merge_sorted"],
                note="Proved for all change lists over the contracts of slice::sort_by_key (stable sort), Itertools::{merge_by, dedup_by, coalesce} and Vec::dedup_by, which are trusted; the closures handed to them are proved."),
    "E03": dict(units=["text_edit"], fns=["TextEdit::apply_to_offset"], native=("text_edit", ["offset"]),
                theorems=["TextEdit::apply_to_offset (postcondition)"], note="Proved for all edits and offsets; text-size arithmetic is checked for overflow and underflow."),
    "T01": dict(units=["doc_sync"], fns=["offset", "text_range", "apply_document_changes"], native=("doc_sync", ["changes"]), native_gen=[("doc_sync.rs", "doc_sync.rs")],
                theorems=["apply_document_changes (postcondition)", "lemma_located", "lemma_splice"],
                note="Proved for all texts, encodings and batches whose positions denote places between characters or recognisably none (a column in the middle of a character or past the end of a line is outside the precondition). Trusted: the line-index crate, String::replace_range, Iterator::try_fold over rev."),
    "T02": dict(units=["doc_sync"], fns=["offset", "text_range", "lsp_position", "lsp_range"], native=("doc_sync", ["positions"]), native_gen=[("doc_sync.rs", "doc_sync.rs")],
                theorems=["offset, text_range, lsp_position, lsp_range (postconditions)", "theorem_round_trip"], note="Proved over the documented contracts of the line-index crate, which are trusted."),
    "T03": dict(units=["doc_sync"], fns=["all_edits_are_disjoint"], native=("doc_sync", ["disjoint"]), native_gen=[("doc_sync.rs", "doc_sync.rs")],
                theorems=["all_edits_are_disjoint (postcondition)"], note="Proved for all sets of well-formed ranges; trusted: extend/map, sort_by_key, zip/skip/all."),
    "T04": dict(units=["doc_sync"], fns=["OpenedFiles::.*", "DocumentData::.*", "handle_did_.*", "GlobalState::load_files_into_vfs", "apply_document_changes"], native=("doc_sync", ["session"]), native_gen=[("doc_sync.rs", "doc_sync.rs")],
                theorems=["handle_did_open/change/close_text_document, load_files_into_vfs preserve in_sync (postconditions)"],
                note="The invariant in_sync is proved inductive over every handler that writes open documents or file contents; concurrency is not in play (the handlers own the state). Trusted: HashMap, the vfs crate's set_file_contents/file_id."),
    "X01": dict(units=["lexer"], native=("lexer", ["kinds"]), native_gen=[("synparse.rs", "synparse.rs")],
                theorems=["tokenize (postcondition: exactly lex(text))", "theorem_lossless"],
                note="Every lexer function is under contract against a character-level grammar, for all texts. Trusted: regex matching for the three pinned patterns, unicode-segmentation's first grapheme, str::{lines, chars, position, find, starts_with}, slicing."),
    "S01": dict(units=["syntax_api", "grammar", "parser"], native=("syntax", ["text"]), native_gen=[("synparse.rs", "synparse.rs")],
                theorems=["parse_text (postcondition)", "theorem_parse", "event::process, TextTreeSink::finish (postconditions)", "every grammar rule: the parser stays well-formed, earlier events are kept, exactly the marker handed in is closed"],
                bounded=["that the recursion of the grammar rules ends: random texts"],
                note="Proved for all texts: token source, parser API, every grammar rule (partial correctness: their recursion and loops carry no termination proof; contracts read off the signatures by vx/src/auto.rs), event replay and tree sink. Trusted: rowan's tree builder, the lexer's result (X01, proved there), iterator sums/counts; what TokenSet constants contain is left open."),
    "S02": dict(units=["syntax_api"], native=("syntax", ["rollback"]), native_gen=[("synparse.rs", "synparse.rs")],
                theorems=["Marker::abandon_with_rollback, CompletedMarker::abandon_with_rollback (postconditions)"],
                note="Proved for every well-formed parser state: events and cursor are those of the prefix. Trusted: Vec operations; drop_bomb."),
    "S04": dict(units=["syntax_api", "grammar", "parser"], native=("syntax", ["panics"]), native_gen=[("synparse.rs", "synparse.rs")], secs=40,
                theorems=["no reachable panic in the token source, Parser/Marker API, event replay and tree sink under their contracts", "every grammar rule: asserts, bumps, markers and arithmetic under the preconditions of what it calls; no marker dropped", "iterate_to_EOF_rec (ends)"],
                bounded=["grammar rules end: random Move texts, token soup and mutations, each parsed to the end within 15 s"],
                note="Proved for all texts: no rule and nothing it calls can panic (failed assert!, bump of another token, dropped or twice closed marker, index, overflow). Not proved: that the recursion of the rules ends (bounded run), stack depth, debug-only assertions on the number of steps. One known finding (a marker dropped in include_schema_expr) is closed by a rewrite in the extraction."),
    "F01": dict(units=["files"], fns=["Files::(file_text|set_file_text.*|package_metadata|set_package_metadata|package_root)", "SourceDatabase.*", "RootDatabase::.*", "FileChanges::.*", "AnalysisHost::.*", "WorkspaceStructureChanges::.*", "GlobalState::.*", "file_text_durability", "package_root_durability"],
                native=("files", ["texts"]), native_gen=[("files.rs", "files.rs")],
                theorems=["GlobalState::process_pending_file_changes (postcondition)", "FileChanges::apply (postcondition)"],
                note="Proved for every well-formed database state and every list of pending changes. Trusted: salsa inputs as cells read and written through their handles, DashMap and HashMap, the vfs crate (take_changes, file_path, exists), String::from_utf8; normalize is proved under L01. Locks are taken as exclusive references (no concurrency)."),
    "F02": dict(units=["files"], fns=["Files::(replace_package_roots|file_package_id|spec_related_files|set_spec_related_files|package_root)", "find_spec_file_set", "PackageRoot::.*", "PackageRootConfig::.*", "package_root_durability", "FileChanges::apply", "GlobalState::fetch_pending_file_changes"],
                native=("files", ["packages"]), native_gen=[("files.rs", "files.rs")],
                theorems=["Files::replace_package_roots (postcondition packaged)", "find_spec_file_set (postcondition)", "PackageRootConfig::partition_into_package_roots (postcondition)"],
                note="Proved for all lists of packages and all file names. Trusted: FileSetConfig::partition (vfs crate: innermost root wins), FileSet, VfsPath::name_and_extension, salsa cells, DashMap."),
    "G01": dict(units=["types"], fns=["UnificationTable::.*", "InferenceCtx::(new|resolve_ty_infer.*|push_type_error|ty_contains_ty_var|unify_.*|combine_.*|intersect_.*|report_combine_error|coerce_.*|resolve_ty_vars_if_possible)", "Ty::(single_element_tuple_ty|refine_for_specs|unwrap_all_refs|new_reference|into_ty_callable|deep_visit_ty_infers)", "TyVar::.*", "TyReference::(new|referenced|is_mut)", "TySequence::item", "TyCallable::(new|ret_type_ty)", "Mutability::.*", "IntegerKind::.*", "CombineError::.*"],
                native=("types", ["unify"]), native_gen=[("types.rs", "types.rs")],
                theorems=["InferenceCtx::combine_types (postcondition grows: wf kept, what is known stays known)", "lemma_occurs_check", "lemma_deep_learn", "lemma_deep_merge", "no panic: preconditions of vx_panic"],
                bounded=["types found compatible are compatible once resolved: random sequences of comparisons"],
                note="Proved for every state of the tables and all types. The comparison functions call each other without a termination proof (exec_allows_no_decreases_clause; the lookups, folds and visits they use are proved to end); the native run watches for endless recursion. Trusted: HashMap, derived Clone and ==, what the source files say of abilities and of lambda types wrapped in a struct."),
    "G02": dict(units=["types"], fns=["UnificationTable::(snapshot|rollback)", "InferenceCtx::(freeze|msl_scope|is_tys_compatible.*|combine_.*|unify_.*)", "autoborrow"],
                native=("types", ["trial"]), native_gen=[("types.rs", "types.rs")],
                theorems=["InferenceCtx::freeze (postcondition untouched)", "InferenceCtx::msl_scope (postcondition)", "InferenceCtx::is_tys_compatible (postcondition untouched)"],
                note="Proved for every closure that leaves the stacks of snapshots as it found them (all comparison functions are proved to). The type errors and recorded expression types are not part of the saved state, in the code as in the property."),
    "G03": dict(units=["types"], fns=["TyVarResolver::.*", "FullTyVarResolver::.*", "TypeFold.*", "TypeVisitor.*", "TyInferVisitor::.*", "Ty::deep_visit_ty_infers", "InferenceCtx::(resolve_.*|fully_resolve_.*|var_resolver)", "Substitution::.*", "TyTypeParameter::.*"],
                native=("types", ["resolve"]), native_gen=[("types.rs", "types.rs")],
                theorems=["InferenceCtx::resolve_ty_vars_if_possible (postcondition resolves)", "InferenceCtx::fully_resolve_vars (postcondition fully; lemma_fully: no variable left)", "SubstitutionApplier::fold_ty (postcondition substituted)", "Ty::deep_visit_ty_infers (postcondition visited)"],
                note="Proved with termination for every well-formed state. The generic folds are monomorphised to the resolver of known variables; for the full resolver and the substitution, that the same generic code folds each part with the folder at hand is assumed (one trusted contract each)."),
    "H01": dict(units=["highlights"], native=("server", ["highlights"]), native_gen=[("server.rs", "server.rs")],
                theorems=["Highlights::add (postcondition added)", "Highlights::to_vec (postconditions tiles, shows)", "lemma_wrapped, lemma_child_added, lemma_pushed"],
                note="Proved for every tree and every range that fits it. That the tree walk (traverse, which needs rowan) adds only such ranges is a precondition. Trusted: stdx::equal_range_by, Vec::splice, slice iteration, TextRange::ordering."),
    "H02": dict(units=["doc_sync"], fns=["SemanticTokensBuilder::.*", "semantic_tokens", "diff_tokens", "lsp_position", "lsp_range", "position", "range"], native=("server", ["tokens"]), native_gen=[("server.rs", "server.rs")],
                theorems=["to_proto::semantic_tokens (postcondition: decode(data) == toks(text, highlights))", "diff_tokens (postcondition: edited(old, edit) == new)"],
                note="Proved for all texts, encodings and sorted highlights. Trusted: the line-index crate, str slicing and ends_with, slice split_at/zip/take_while; which kind a highlight has and its place in the legend is checked natively for every kind."),
    "O01": dict(units=["queue"], native=("server", ["queue"]), native_gen=[("server.rs", "server.rs")],
                theorems=["OpQueue::{request_op, should_start_op, op_completed} (postconditions)", "theorem_history", "GlobalState::handle_task (postcondition)"],
                note="Proved for every state of the queue; the queue is owned by the main loop (no concurrency inside). Trusted: respond, on_request and report_progress leave the queue alone. That the main loop asks should_start_op after each event is not under contract."),
    "A01": dict(units=["address"], fns=["NumericAddress::.*", "NamedAddr::.*", "ValueAddr::.*", "Address::.*", "named_addresses.*", "resolve_named_address"], native=("address", ["equal"]), native_gen=[("address.rs", "address.rs")],
                theorems=["Address::equals_to (postcondition meets)", "theorem_meets", "theorem_canon: compared texts are equal exactly when the numbers are", "theorem_zero"],
                note="Proved for all texts and all packages. Trusted: str::{starts_with, strip_prefix, trim_start_matches, replace, to_ascii_lowercase}, format!, HashMap, the derived ==; the salsa database is a function from packages to what they declare."),
    "A02": dict(units=["address"], fns=["transitive_dep_package_ids", "reverse_transitive_dep_package_ids", "get_modules_in_file", "file_ids_by_module_address.*", "get_modules_as_entries", "source_file_ids_in_package", "Address::equals_to"], native=("address", ["modules"]), native_gen=[("address.rs", "address.rs")],
                theorems=["get_modules_as_entries, file_ids_by_module_address, get_modules_in_file, transitive_dep_package_ids (postconditions)", "theorem_candidates"],
                note="Proved for all packages and files. Trusted: the salsa database as a function, the modules of a syntax tree and their addresses, to_entries, Vec::extend over map, the file set's iteration."),
    "P01": dict(units=["packages"], fns=["collect_deps_transitively", "collect_reachable_manifests", "collect_package_from_manifest_entry", "load_aptos_packages", "read_manifest_from_fs", "ManifestPath::.*", "MoveToml::.*", "LocalDependency::.*", "GitDependency::.*", "MoveTomlDependency::.*", "AptosPackage::new", "try_find_move_toml_at_root", "is_move_toml"], native=("packages", ["load"]), native_gen=[("packages.rs", "packages.rs")],
                theorems=["load_aptos_packages (postcondition loads)", "collect_deps_transitively (postcondition is_closure, termination)", "collect_reachable_manifests (postcondition is_reach, termination)"],
                note="Proved for every file system and all manifests. Trusted: std maps, sets and queues, path operations as documented for `/` platforms (the case-insensitive keys of mac and windows are not modelled), the reading of toml (MoveToml::from_str, checked natively), clone, anyhow's context, finitely many manifests; the file system does not change during a load. A package that lists itself through a cycle is left out of the property."),
    "P02": dict(units=["packages"], fns=["walk_and_discover_manifests", "DiscoveredManifest::.*", "PackageFolderRoot::.*", "try_find_move_toml_at_root", "is_move_toml", "load_package_file_id", "AptosPackage::(dep_graph_entry|dep_roots|manifest_path)", "collect"], native=("packages", ["both"]), native_gen=[("packages.rs", "packages.rs")],
                theorems=["DiscoveredManifest::{discover_all, discover_for_file} (postconditions)", "dep_graph::collect (postcondition graphed)"],
                note="Proved for every file system. Trusted: walkdir, read_dir, path operations as documented for `/` platforms, sort and dedup, the virtual file system gives a path the same id each time; the file system does not change during discovery. dep_graph::collect_initial (the closure around the virtual file system) is not under contract."),
    "V01": dict(units=["visibility"], fns=["is_visible_in_context", "VisibilityModifier::.*", "(HasVisibility::)?vis", "is_msl_context", "ItemScope::.*", "item_scope.*", "node_item_scope", "ITEM_TYPE_NS"], native=("visibility", ["visible"]), native_gen=[("visibility.rs", "visibility.rs")],
                theorems=["is_visible_in_context (postcondition reason)", "item_scopes, item_scope (postconditions file_scopes, scope_of_loc)", "each_node_has_its_scope", "HasVisibility::vis (postcondition vis_said)"],
                note="Proved for every tree and entry. Trusted: the syntax tree (kinds, ancestors, children, casts, a walk that leaves what it entered last), the resolution of a friend declaration's path, the texts of attributes, the builtins module test, the package of a file, HashMap; the salsa database is a function of the files."),
    "G04": dict(units=["patterns"], fns=["TypeAstWalker::infer_tuple_pat_fields", "strip_references", "apply_bm", "TyReference::.*", "Ty::new_reference"], native=("patterns", ["all"]), native_gen=[("patterns.rs", "patterns.rs")],
                theorems=["TypeAstWalker::infer_tuple_pat_fields (postcondition gives/position)", "strip_references (postcondition peeled), theorem_peeled", "apply_bm (postcondition)"],
                note="Proved for every list of patterns, number of parts and type. Trusted: the types of the parts (get_type), the recursive call records what it is given, the derived clones, enumerate, min and max; a vector is shorter than isize::MAX. collect_pat_bindings itself (the choice by kind of pattern) is not under contract."),
}
NOT_APPLICABLE = {}
