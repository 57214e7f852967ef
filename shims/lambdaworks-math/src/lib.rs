//! Offline stand-in for `lambdaworks-math` (rev a17b951), which cannot be fetched in this
//! sandbox.  It re-implements the part of the public API that the Cairo prover (and plausible
//! edits of it) use, with the same observable semantics.  It is NOT code under test.
#![allow(clippy::all)]
pub mod errors;
pub mod fft;
pub mod field;
pub mod helpers;
pub mod polynomial;
pub mod traits;
pub mod unsigned_integer;
