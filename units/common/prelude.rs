// ---- common prelude: targets of the generic macro rewrites
/*@VXPROBEDECL@*/
/// `assert!(c)`: the condition is an obligation
pub fn vx_rt_assert(c: bool) requires c, { }
/// `panic!`: reaching it is a violation
#[verifier::external_body]
pub fn vx_panic() -> ! requires false, { panic!() }
/// `format!(..)`: some string
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
