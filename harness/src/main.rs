//! Runs the repository's compiled code against independent reference implementations.
//!   harness ID --seconds S --seed N            explore
//!   harness ID --replay SEED:INDEX             re-run one case
//! Prints one JSON line: {"property", "evaluations", "distinct_nontrivial", "samples", "failure"}.
#[cfg(feature = "api")]
mod api;
#[cfg(feature = "codecs")]
mod codecs;
#[cfg(feature = "chain")]
mod chain;
mod core;
#[cfg(feature = "crash")]
mod crash;
#[cfg(feature = "files")]
mod files;
#[cfg(feature = "node")]
mod node;
#[cfg(feature = "parse")]
mod parse;
#[cfg(feature = "pool")]
mod pool;
#[cfg(feature = "store")]
mod store;
#[cfg(feature = "snap")]
mod snap;
mod wire;

fn main() {
    #[cfg(feature = "crash")]
    if std::env::args().nth(1).as_deref() == Some("crash-child") {
        return crash::child(&std::env::args().skip(2).collect::<Vec<_>>());
    }
    let mut steps: Vec<(&str, core::Step)> = vec![];
    #[cfg(feature = "codecs")]
    steps.extend([("C01", codecs::c01 as core::Step), ("C02", codecs::c02), ("C03", codecs::c03), ("C04", codecs::c04), ("C05", codecs::c05)]);
    #[cfg(feature = "parse")]
    steps.extend([("C06", parse::c06 as core::Step), ("C07", parse::c07), ("C08", parse::c08)]);
    #[cfg(feature = "store")]
    steps.extend([("C09", store::c09 as core::Step), ("C10", store::c10), ("C11", store::c11), ("C12", store::c12), ("C14", store::c14), ("C17", store::c17), ("C20", store::c20)]);
    #[cfg(feature = "pool")]
    steps.extend([("C13", pool::c13 as core::Step)]);
    #[cfg(feature = "files")]
    steps.extend([("C18", files::c18 as core::Step), ("C19", files::c19)]);
    #[cfg(feature = "node")]
    steps.extend([("C15", node::c15 as core::Step), ("C16", node::c16), ("C21", node::c21)]);
    #[cfg(feature = "crash")]
    steps.extend([("C24", crash::c24 as core::Step)]);
    #[cfg(feature = "snap")]
    steps.extend([("C23", snap::c23 as core::Step)]);
    #[cfg(feature = "api")]
    steps.extend([("C22", api::c22 as core::Step), ("C25", api::c25), ("C26", api::c26)]);
    core::main(&steps);
}
