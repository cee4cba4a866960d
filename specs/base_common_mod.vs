//@ file base_common/mod.rs
