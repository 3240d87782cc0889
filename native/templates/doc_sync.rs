// extracted on every run
pub mod line_index_rs {
    use crate::line_index; use crate::code::LineEndings; use std::sync::Arc;
//@pick crates/aptos-language-server/src/line_index.rs drop
}
pub mod from_proto {
    use crate::*; use crate::code::line_index_rs::*; use crate::line_index::{LineCol, TextRange, TextSize, WideLineCol}; use anyhow::format_err;
//@pick crates/aptos-language-server/src/lsp/from_proto.rs closure offset; text_range; !vfs_path; !abs_path
    pub fn vfs_path(u: &lsp_types::Uri) -> anyhow::Result<VfsPath> { if u.0 == 99 { Err(format_err!("no path")) } else { Ok(VfsPath(u.0)) } }
}
pub mod to_proto {
    use crate::*; use crate::code::line_index_rs::*; use crate::line_index::{TextRange, TextSize};
//@pick crates/aptos-language-server/src/lsp/to_proto.rs closure lsp_position; lsp_range
}
pub mod utils {
    use crate::*; use crate::code::line_index_rs::*; use crate::code::{from_proto, LineEndings}; use std::{mem, ops::Range, sync::Arc};
//@pick crates/aptos-language-server/src/lsp/utils.rs closure apply_document_changes; all_edits_are_disjoint
}
pub mod opened_files {
    use crate::*; use std::collections::HashMap;
//@pick crates/aptos-language-server/src/opened_files.rs drop
}
pub mod handlers {
    use crate::*; use crate::lsp_types::*; use crate::code::{from_proto, utils::apply_document_changes, opened_files::*}; use std::ops::Not; use std::sync::Arc;
//@pick crates/aptos-language-server/src/handlers/notification.rs closure handle_did_open_text_document; handle_did_change_text_document; handle_did_close_text_document
}
pub mod main_loop {
    use crate::*;
//@pick crates/aptos-language-server/src/main_loop.rs closure GlobalState::load_files_into_vfs
    impl GlobalState { pub fn load(&mut self, f: Vec<(AbsPathBuf, Option<Vec<u8>>)>, c: bool) { self.load_files_into_vfs(f, c) } }
}
