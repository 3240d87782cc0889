// extracted on every run
//@rewrite # [ salsa_macros :: tracked ] =>>
//@rewrite # [ salsa_macros :: tracked ( returns ( ref ) ) ] =>>
//@rewrite tracing :: debug ! ( $$a ) =>> ()
//@rewrite let _p = tracing :: debug_span ! ( $$a ) . entered ( ) ; =>>
//@rewrite tracing :: info_span ! ( $$a ) . entered ( ) =>> ()
pub mod address {
    use super::hir_db::{self, APTOS_FRAMEWORK_ADDRESSES}; use crate::base_db::SourceDatabase; use std::fmt; use std::fmt::Formatter;
//@pick crates/lang/src/nameres/address.rs drop AddressInput
}
pub mod hir_db {
    use super::hir_db; use super::address::Address; use crate::{ast, base_db::*, base_db::source_db, AddressInput, source_file_ids_in_package}; use std::collections::{HashMap, HashSet};
//@pick crates/lang/src/hir_db.rs closure named_addresses; transitive_dep_package_ids; reverse_transitive_dep_package_ids; get_modules_in_file; file_ids_by_module_address; !source_file_ids_in_package; !AddressInput
}
pub mod name_resolution {
    use super::hir_db::{self, get_modules_in_file}; use super::address::Address; use crate::{ast, base_db::*, Entries, ScopeEntry};
//@pick crates/lang/src/nameres/name_resolution.rs closure get_modules_as_entries; !ScopeEntry
}
