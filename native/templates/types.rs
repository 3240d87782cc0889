// extracted on every run
pub mod types {
    pub mod unification {
        use super::ty::Ty; use std::collections::HashMap; use std::fmt::Debug; use std::hash::Hash;
//@pick crates/lang/src/types/unification.rs drop
    }
    pub mod fold {
        use super::inference::InferenceCtx; use super::ty::Ty; use super::ty::ty_var::{TyInfer, TyVar, TyVarKind}; use super::ty::type_param::TyTypeParameter;
//@pick crates/lang/src/types/fold.rs drop
    }
    pub mod substitution {
        use super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::ty::Ty; use super::ty::type_param::TyTypeParameter; use std::collections::HashMap;
//@pick crates/lang/src/types/substitution.rs drop
    }
    pub mod abilities {
        use super::ty::Ty; use super::ty::range_like::TySequence; use super::ty::ty_var::TyInfer; use crate::base_db::SourceDatabase; use crate::syntax::ast; use std::fmt::{self, Formatter};
//@pick crates/lang/src/types/abilities.rs drop
    }
    pub mod ty {
        use super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::inference::TyVarIndex; use crate::loc::SyntaxLoc; use crate::syntax::ast; use crate::syntax::InFile; use crate::base_db::SourceDatabase;
        use self::{adt::TyAdt, integer::IntegerKind, range_like::TySequence, reference::{Mutability, TyReference}, schema::TySchema, tuple::TyTuple, ty_callable::TyCallable, ty_var::{TyInfer, TyVar}, type_param::TyTypeParameter};
//@pick crates/lang/src/types/ty.rs drop adt; integer; range_like; reference; schema; tuple; ty_callable; ty_var; type_param; Ty::new_ty_adt; Ty::adt_item_module; Ty::render
        pub mod adt {
            use crate::loc::SyntaxLoc; use crate::syntax::{ast, InFile}; use crate::base_db::SourceDatabase;
            use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::super::substitution::Substitution; use super::Ty;
//@pick crates/lang/src/types/ty/adt.rs drop TyAdt::new; TyAdt::adt_item_module
        }
        pub mod integer {
            use super::Ty; use super::ty_var::TyInfer; use std::fmt::{self, Formatter}; use crate::syntax::ast;
//@pick crates/lang/src/types/ty/integer.rs drop IntegerKind::from_suffixed_literal
        }
        pub mod range_like {
            use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::Ty; use std::ops::Deref;
//@pick crates/lang/src/types/ty/range_like.rs drop
        }
        pub mod reference {
            use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::super::inference::InferenceCtx; use super::Ty; use std::ops::Deref;
//@pick crates/lang/src/types/ty/reference.rs drop
        }
        pub mod schema {
            use crate::loc::SyntaxLoc; use crate::syntax::{ast, InFile}; use crate::base_db::SourceDatabase;
            use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::super::substitution::Substitution; use super::Ty;
//@pick crates/lang/src/types/ty/schema.rs drop TySchema::new; TySchema::schema
        }
        pub mod tuple {
            use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::Ty; use std::iter;
//@pick crates/lang/src/types/ty/tuple.rs drop
        }
        pub mod ty_callable {
            use crate::loc::SyntaxLoc; use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::super::substitution::Substitution; use super::Ty; use std::iter; use std::ops::Deref;
//@pick crates/lang/src/types/ty/ty_callable.rs drop
        }
        pub mod ty_var {
            use crate::loc::SyntaxLoc; use crate::base_db::SourceDatabase; use crate::syntax::{ast, InFile}; use std::fmt::{self, Formatter};
//@pick crates/lang/src/types/ty/ty_var.rs drop
        }
        pub mod type_param {
            use crate::loc::SyntaxLoc; use crate::base_db::SourceDatabase; use crate::syntax::{ast, InFile}; use super::super::abilities::Ability;
//@pick crates/lang/src/types/ty/type_param.rs drop TyTypeParameter::new
        }
    }
    pub mod inference {
        use super::fold::{Fallback, FullTyVarResolver, TyVarResolver, TypeFoldable};
        use super::substitution::ApplySubstitution; use super::ty::Ty; use super::ty::adt::TyAdt; use super::ty::ty_callable::{TyCallable, TyCallableKind};
        use super::ty::ty_var::{TyInfer, TyIntVar, TyVar}; use super::unification::UnificationTable;
        use std::cell::Cell; use std::collections::HashMap; use std::hash::Hash;
        use crate::base_db::SourceDatabase; use crate::syntax::{ast, InFile}; use crate::{FileId, ScopeEntry, ScopeEntryWithVis};
        pub use self::combine_types::TypeError;
//@pick crates/lang/src/types/inference.rs only TyVarIndex; impls:TyVarIndex; InferenceCtx
//@pick crates/lang/src/types/inference.rs closure InferenceCtx::new; InferenceCtx::resolve_ty_infer; InferenceCtx::var_resolver; InferenceCtx::resolve_ty_vars_if_possible; InferenceCtx::fully_resolve_vars; InferenceCtx::fully_resolve_vars_fallback_to_origin; InferenceCtx::resolve_ty_infer_shallow; InferenceCtx::freeze; InferenceCtx::msl_scope; InferenceCtx::push_type_error; !InferenceCtx; !TyVarIndex
        pub mod combine_types {
            use super::super::abilities::Ability; use super::super::fold::{TypeFoldable, TypeFolder, TypeVisitor}; use super::InferenceCtx; use super::super::substitution::ApplySubstitution;
            use super::super::ty::Ty; use super::super::ty::adt::TyAdt; use super::super::ty::reference::TyReference; use super::super::ty::tuple::TyTuple; use super::super::ty::ty_callable::TyCallable;
            use super::super::ty::ty_var::{TyInfer, TyIntVar, TyVar}; use crate::ty_db; use std::cell::RefCell; use std::iter::zip;
            use crate::syntax::{ast, AstNode, SyntaxKind, SyntaxNodeOrToken, TextRange};
//@pick crates/lang/src/types/inference/combine_types.rs drop
        }
    }
}
