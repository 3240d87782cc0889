// extracted on every run
//@rewrite tracing :: error ! ( $$a ) =>> ()
//@rewrite tracing :: info ! ( $$a ) =>> ()
//@rewrite let _p = tracing :: info_span ! ( $$a ) . entered ( ) ; =>>
pub use self::lib_rs::DiscoveredManifest;
pub mod lib_rs {
    use super::aptos_package::PackageFolderRoot; use super::aptos_package::load_from_fs::try_find_move_toml_at_root; use crate::paths::AbsPathBuf; use std::fs;
//@pick crates/project-model/src/lib.rs drop InvocationStrategy; aptos_package; dep_graph; manifest_path; move_toml; project_folders
}
pub mod manifest_path {
    use crate::paths::{AbsPath, AbsPathBuf}; use std::borrow::Borrow; use std::ffi::OsString; use std::hash::{Hash, Hasher}; use std::path::PathBuf; use std::{fmt, fs, ops};
//@pick crates/project-model/src/manifest_path.rs drop tests
}
pub mod move_toml {
    use crate::base_db::inputs::AddressPair; use crate::paths::{AbsPathBuf, Utf8PathBuf}; use serde_derive::Deserialize; use std::collections::HashMap;
//@pick crates/project-model/src/move_toml.rs drop tests
}
pub mod aptos_package {
    use super::manifest_path::ManifestPath; use crate::base_db::inputs::AddressPair; use crate::paths::{AbsPath, AbsPathBuf}; use std::fmt; use std::fmt::Formatter; use crate::vfs::FileId;
//@pick crates/project-model/src/aptos_package.rs drop load_from_fs
    pub mod load_from_fs {
        use super::super::DiscoveredManifest; use super::{AptosPackage, PackageKind}; use super::super::manifest_path::{ManifestPath, is_move_toml}; use super::super::move_toml::{MoveToml, MoveTomlDependency};
        use anyhow::Context; use crate::base_db::inputs::AddressPair; use crate::paths::{AbsPath, AbsPathBuf}; use crate::stdx; use std::collections::{HashMap, HashSet, VecDeque}; use std::fs;
//@pick crates/project-model/src/aptos_package/load_from_fs.rs drop tests
    }
}
pub mod dep_graph {
    use super::aptos_package::load_from_fs::try_find_move_toml_at_root; use super::aptos_package::{AptosPackage, VfsLoader}; use crate::base_db::change::{ManifestFileId, PackageGraph}; use crate::base_db::inputs::PackageMetadata; use crate::paths::AbsPath; use std::sync::Arc;
//@pick crates/project-model/src/dep_graph.rs drop collect_initial
}
