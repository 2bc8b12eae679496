#![cfg(kani)]
extern crate asciidork_ast as ast;
#[cfg(feature = "subs")]
mod subs;
