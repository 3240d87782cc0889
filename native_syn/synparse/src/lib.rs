//! The real `parse` module of /repo's syntax crate (through symlinks), compiled against stand-ins
//! for rowan, text-size, drop_bomb and stdx.
#![allow(unused, dead_code)]
include!("../../../build/gen/synparse.rs");
pub mod parse;
pub mod syntax_error;
pub mod syntax_kind;
pub use parse::SyntaxKind;
pub use parse::entry_points;
pub use parse::lexer;
pub use rowan::{TextRange, TextSize};
pub use syntax_error::SyntaxError;
pub use syntax_node::SyntaxTreeBuilder;
pub use rowan::GreenNode;
pub use parse::parser::Parser;
pub fn kind_of(k: rowan::SyntaxKind) -> SyntaxKind { SyntaxKind::from(k.0) }
pub fn parse_text(text: &str, entry: fn(&mut Parser)) -> (GreenNode, Vec<SyntaxError>) { parse::parse_text(text, entry) }
pub mod trial;
