// extracted on every run
pub mod line_index_rs {
    use crate::line_index; use crate::code::LineEndings; use std::sync::Arc;
//@pick crates/aptos-language-server/src/line_index.rs drop
}
pub mod ide_db {
//@pick crates/ide-db/src/lib.rs only SymbolKind
}
pub mod tags {
    use super::ide_db::SymbolKind; use std::fmt;
//@pick crates/ide/src/syntax_highlighting/tags.rs drop
}
pub mod syntax_highlighting {
    use crate::line_index::TextRange; use super::tags::*;
//@pick crates/ide/src/syntax_highlighting.rs only HlRange
pub mod highlights {
    use super::HlRange; use super::super::tags::HlTag; use crate::line_index::TextRange; use crate::equal_range_by; use std::iter;
//@pick crates/ide/src/syntax_highlighting/highlights.rs drop
    pub fn run(range: TextRange, v: Vec<HlRange>) -> Vec<HlRange> { let mut h = Highlights::new(range); for r in v { h.add(r) } h.to_vec() }
}
}
pub mod semantic_tokens {
    use crate::lsp_types::{Range, SemanticToken, SemanticTokenTypes, SemanticTokens, SemanticTokensEdit}; use std::fmt; use std::slice::Iter;
//@pick crates/aptos-language-server/src/lsp/semantic_tokens.rs drop
}
pub mod to_proto {
    use crate::*; use crate::code::line_index_rs::*; use crate::line_index::{TextRange, TextSize}; use super::semantic_tokens; use super::semantic_tokens::SupportedType; use super::tags::*; use super::ide_db::SymbolKind; use super::syntax_highlighting::HlRange;
    use std::sync::atomic::{AtomicU32, Ordering};
//@pick crates/aptos-language-server/src/lsp/to_proto.rs closure lsp_position; lsp_range; semantic_tokens
}
pub mod op_queue {
//@pick crates/aptos-language-server/src/op_queue.rs drop
}
