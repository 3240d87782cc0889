//! Stand-in for rust-analyzer's `stdx` (not in the offline cache).
pub mod panic_context {
    pub struct Ctx;
    pub fn enter(_s: String) -> Ctx { Ctx }
}
#[macro_export]
macro_rules! always { ($e:expr $(, $($t:tt)*)?) => { { let r: bool = $e; assert!(r); r } }; }
#[macro_export]
macro_rules! never { ($e:expr $(, $($t:tt)*)?) => { { let r: bool = $e; assert!(!r); r } }; }
pub trait TupleExt { type Head; fn head(self) -> Self::Head; }
