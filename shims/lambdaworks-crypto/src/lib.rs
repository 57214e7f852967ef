//! Offline stand-in for `lambdaworks-crypto` (rev a17b951).  Not code under test.
#![allow(clippy::all)]
pub mod fiat_shamir;
pub mod merkle_tree;
/// Harness-only observation points (the real crate has none of this).
pub mod probe;
