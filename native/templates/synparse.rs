// extracted on every run
pub mod ast {
    use crate::{TextRange, TextSize};
//@pick crates/syntax/src/ast/token_ext.rs only CommentKind; CommentShape; CommentPlacement; impls:CommentKind; impls:CommentShape; QuoteOffsets; impls:QuoteOffsets
    impl QuoteOffsets { pub fn new_pub(l: &str, q: &str) -> Option<QuoteOffsets> { QuoteOffsets::new(l, q) } }
}
pub mod syntax_node {
    use crate::{SyntaxError, SyntaxKind, TextSize};
    use crate::parse::ParseError;
    use rowan::{GreenNodeBuilder, Language};
    pub(crate) use rowan::GreenNode;
//@pick crates/syntax/src/syntax_node.rs only Aptos; impls:Aptos; SyntaxTreeBuilder
//@pick crates/syntax/src/syntax_node.rs drop Aptos; impls:Aptos; SyntaxTreeBuilder::finish; SyntaxTreeBuilder; SyntaxNode; SyntaxToken; SyntaxElement; SyntaxNodeChildren; SyntaxElementChildren; PreorderWithTokens; SyntaxNodeOrToken; IntoNodeOrToken; impls:T
}
