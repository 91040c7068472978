//! Reference definitions: what each function of germolinal/simple is expected
//! to compute, written without any dependency on it.  Nothing here is ever
//! executed: the crate is type-checked and its MIR is compared, by value
//! numbering, with the MIR of the function of the same name in /repo.
//!
//! Conventions read by analysis/harness.py
//!  * a `pub` function is an obligation;
//!  * a private function is a helper of the reference (always expanded);
//!  * a function whose body diverges (`opaque!()`) is an operation the rule
//!    does not look into (its meaning is another rule's business).
#![allow(dead_code, unused_variables, clippy::all)]
pub type Float = f64;

macro_rules! opaque {
    () => {
        unimplemented!()
    };
}

pub mod calendar;
