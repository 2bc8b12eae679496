#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_assignments, unused_parens, unused_braces)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use vstd::arithmetic::mul::*;
verus! {
global size_of usize == 8;

/// what `debug_assert!`/`assert!` become: the condition is a proof obligation
fn vx_rt_assert(c: bool)
    requires c,
{
}
/// what `panic!`/`unreachable!`/`todo!` become: reaching them is a failed obligation
fn vx_panic() -> !
    requires false,
{
    loop invariant false, decreases 0int, { }
}
}
