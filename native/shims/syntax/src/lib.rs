//! what the harnesses need of /repo's `syntax` crate: its re-exports of text-size
pub use rowan::{TextRange, TextSize};
