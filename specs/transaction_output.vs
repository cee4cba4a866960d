//@ file transaction_output.rs
//@ known key TransactionOutput
//@ top
broadcast use crate::shim::shim_axioms;
//@ fn TransactionOutput::new
//@ ret r
ensures r.hash == hash, r.index == index, r.hash@ == hash@,
