// extracted on every run
//@rewrite # [ salsa_macros :: tracked ( returns ( ref ) ) ] =>>
pub mod kinds {
//@pick crates/syntax/src/syntax_kind/generated.rs only SyntaxKind
}
pub mod visibility {
    use crate::syntax::{AstNode, ast, ast::support};
//@pick crates/syntax/src/ast/visibility.rs only Vis; VisLevel
    pub trait HasVisibility: AstNode {
//@pick crates/syntax/src/ast/visibility.rs traitfns HasVisibility::vis
    }
}
pub mod visibility_ext {
    use crate::syntax::ast;
//@pick crates/syntax/src/ast/node_ext/visibility.rs drop
}
pub mod syntax_element {
    use crate::syntax::{AstNode, ast, SyntaxElement, SyntaxNode, SyntaxToken, SyntaxKind, SyntaxKind::*, NodeOrToken, SyntaxNodeExt};
    pub trait SyntaxElementExt {
        fn to_syntax_element(&self) -> SyntaxElement;
//@pick crates/syntax/src/ast/node_ext/syntax_element.rs traitfns SyntaxElementExt::is_msl_context; SyntaxElementExt::loc_node; SyntaxElementExt::parent_of_type
//@pick crates/syntax/src/ast/node_ext/syntax_element.rs traitfns SyntaxElementExt::containing_module; !is_msl_only_item; !parent_of_type; !loc_node
//@pick crates/syntax/src/ast/node_ext/syntax_element.rs traitfns SyntaxElementExt::containing_script; !ancestor_strict
    }
}
pub mod module_ext {
    use crate::syntax::{AstNode, ast};
//@pick crates/syntax/src/ast/node_ext/module.rs closure Module::friend_decls
}
pub mod item_scope {
    use crate::base_db::{self, *}; use crate::base_db::source_db; use crate::syntax::{self, *}; use std::collections::{HashMap, HashSet}; use std::fmt::{Display, Formatter}; use crate::vfs; use serde_derive::{Serialize, Deserialize};
//@pick crates/lang/src/item_scope.rs drop
}
pub mod hir_db {
    use super::item_scope::{self, ItemScope}; use crate::base_db::*; use crate::loc::SyntaxLoc; use crate::syntax::*; use std::collections::{HashMap, HashSet};
//@pick crates/lang/src/hir_db.rs closure item_scope
}
pub mod is_visible {
    use super::item_scope::ItemScope; use super::hir_db; use super::syntax_element::SyntaxElementExt; use super::visibility::{HasVisibility, Vis, VisLevel}; use crate::base_db::*; use crate::loc::*; use crate::syntax::{self, *}; use crate::{Ns, ITEM_TYPE_NS, ScopeEntry, nameres}; use crate::vfs; use std::vec::IntoIter;
//@pick crates/lang/src/nameres/is_visible.rs drop
}
pub mod ns {
    use crate::{Ns, NsSet};
    macro_rules! enum_set { ($($a:ident :: $b:ident)|* $(|)?) => { NsSet(&[$($a::$b),*]) } }
//@pick crates/lang/src/nameres/namespaces.rs only ITEM_TYPE_NS
}
