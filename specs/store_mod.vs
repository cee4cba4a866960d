//@ file store/mod.rs
