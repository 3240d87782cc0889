// extracted on every run
//@rewrite # [ salsa_macros :: db ] =>>
//@rewrite # [ tracing :: instrument $a ] =>>
pub mod package_root {
    use crate::salsa; use crate::vfs::{self, file_set::FileSet, AbsPathBuf, FileId, Vfs, VfsPath};
    crate::salsa_input!(PackageId { idx: u32 });
//@pick crates/base-db/src/package_root.rs drop PackageId; PackageRoot::root_dir; PackageRoot::root_dir_name
}
pub mod source_db {
    use super::change::ManifestFileId;
    use super::inputs::{FileIdInput, FileIdSet, FileText, PackageIdSet, PackageMetadata, PackageMetadataInput, PackageRootInput};
    use super::package_root::{PackageId, PackageRoot};
    use crate::salsa::{self, Durability}; use crate::vfs::FileId;
//@pick crates/base-db/src/source_db.rs only SourceDatabase
}
pub mod inputs {
    use super::change::ManifestFileId;
    use super::package_root::{PackageId, PackageKind, PackageRoot};
    use super::source_db::SourceDatabase;
    use crate::salsa::{self, Durability}; use crate::vfs::FileId;
    use crate::dashmap::{DashMap, Entry};
    use std::collections::HashSet;
    use std::sync::Arc;
    crate::salsa_input!(FileIdInput { data: FileId });
    crate::salsa_input!(FileIdSet { data: Vec<FileId> });
    crate::salsa_input!(PackageIdSet { data: Vec<PackageId> });
    crate::salsa_input!(PackageRootInput { data: Arc<PackageRoot> });
    crate::salsa_input!(PackageMetadataInput { metadata: PackageMetadata });
    crate::salsa_input!(FileText { text: Arc<str>, file_id: FileId });
//@pick crates/base-db/src/inputs.rs drop FileIdInput; FileIdSet; PackageIdSet; FileText; PackageRootInput; PackageMetadataInput
}
pub mod change {
    use super::source_db::SourceDatabase;
    use super::inputs::PackageMetadata;
    use super::package_root::{PackageKind, PackageRoot};
    use crate::salsa::{self, Durability}; use crate::vfs::FileId;
    use std::collections::HashMap; use std::fmt;
//@pick crates/base-db/src/change.rs drop
}
pub mod root_db {
    use super::source_db::SourceDatabase;
    use super::change::{FileChanges, ManifestFileId};
    use super::inputs::{FileIdInput, FileIdSet, FileText, Files, InternFileId, PackageIdSet, PackageMetadata, PackageMetadataInput, PackageRootInput};
    use super::package_root::{PackageId, PackageRoot};
    use crate::salsa::{self, Durability, Database}; use crate::vfs::FileId;
    use std::{fmt, mem::ManuallyDrop, sync::Arc};
//@pick crates/ide-db/src/root_db.rs drop line_index
//@pick crates/ide-db/src/apply_change.rs drop
}
pub mod ide {
    use super::root_db::RootDatabase; use super::change::FileChanges;
    pub struct AnalysisHost { pub db: RootDatabase }
//@pick crates/ide/src/lib.rs closure AnalysisHost::apply_change; !AnalysisHost
}
pub mod project_folders {
    use super::package_root::{PackageKind, PackageRoot};
    use crate::vfs::{self, file_set::FileSetConfig, FileId, VfsPath}; use std::fmt::{self, Formatter};
//@pick crates/project-model/src/project_folders.rs only PackageRootConfig; impls:PackageRootConfig
}
pub mod manifest_path {
    use std::ffi::OsString;
//@pick crates/project-model/src/manifest_path.rs only is_move_toml
}
pub mod reload {
    use crate::vfs::AbsPath; use super::manifest_path::is_move_toml;
//@pick crates/aptos-language-server/src/reload.rs only is_manifest_file
}
pub mod file_changes {
    use super::{reload, change::FileChanges}; use crate::{vfs, GlobalState, LoadPackagesRequest, AbsPathBuf};
    use parking_lot::{RwLockUpgradableReadGuard, RwLockWriteGuard};
    use crate::line_endings::LineEndings;
//@pick crates/aptos-language-server/src/file_changes.rs drop
}
