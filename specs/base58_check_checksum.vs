//@ file base58_check/checksum.rs
//@ top
use super::{check4, with_check, checked, lemma_checked};
broadcast use crate::shim::shim_axioms;
//@ fn sha256
//@ ret r
ensures r@ == crate::shim::sha256(buffer.xb()),
//@ fn compute_checksum
//@ ret r
ensures r@ == check4(buffer.xb()),
