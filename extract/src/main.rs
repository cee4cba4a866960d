//! Mechanical extraction of functions from the repository's Rust sources into one Verus file.
//!
//!   extract --src /repo/src --specs /verif/specs --out out.rs [--demote FN]... [--dropuse MOD:NAME]...
//!
//! Every `specs/<module path>.vs` names a source file; its items are taken over from that file as they
//! are, apart from the rewriting rules below (each rule is documented in DESIGN.md), and the contracts,
//! loop invariants and proof hints of the overlay are inserted at structural anchors (function,
//! n-th loop, binding name).  Nothing of a function body is written by hand.
mod overlay;
mod rules;
mod closure;
mod inline;
mod locks;
mod names;
mod emit;

use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Ctx {
    pub demote: BTreeSet<String>,
    pub dropuse: BTreeSet<String>,
    /// functions with a callback parameter: name -> (parameter index, argument types)
    pub callbacks: BTreeMap<(String, usize), (usize, Vec<syn::Type>)>,
    pub notes: Vec<String>,
    /// key -> text, substituted after formatting
    pub texts: BTreeMap<String, String>,
    pub lost: BTreeSet<String>,
    pub functions: Vec<FnInfo>,
    pub noinline: bool,
    /// put `assert(false)` at the start of every function with a precondition
    pub probe: bool,
    /// what the functions bind, when the hints were written and now
    pub baseline: BTreeMap<String, names::Names>,
    pub names: Vec<(String, names::Names)>,
    /// types with a lifetime parameter
    pub lifetimed: BTreeSet<String>,
}

#[derive(Clone, Debug)]
pub struct FnInfo {
    pub key: String,
    pub status: String,
}

fn main() {
    let mut args = std::env::args().skip(1);
    let mut src = String::from("/repo/src");
    let mut specs = String::from("/verif/specs");
    let mut out = String::from("out.rs");
    let mut ctx = Ctx::default();
    let mut names_out = None;
    let mut wanted: BTreeSet<String> = BTreeSet::new();
    while let Some(a) = args.next() {
        match a.as_str() {
            "--src" => src = args.next().unwrap(),
            "--specs" => specs = args.next().unwrap(),
            "--out" => out = args.next().unwrap(),
            "--demote" => {
                ctx.demote.insert(args.next().unwrap());
            }
            "--dropuse" => {
                ctx.dropuse.insert(args.next().unwrap());
            }
            "--probe" => ctx.probe = true,
            "--module" => {
                wanted.insert(args.next().unwrap());
            }
            "--names" => names_out = Some(args.next().unwrap()),
            "--no-inline" => ctx.noinline = true,
            _ => panic!("unknown argument {}", a),
        }
    }
    let mut overlays = overlay::load_dir(&specs);
    ctx.baseline = names::load(&format!("{}/names.txt", specs));
    let root = std::fs::read_to_string(format!("{}/root.rs", specs)).unwrap();
    let mut root = root;
    if !wanted.is_empty() {
        let need = closure::closure(&src, &overlays, &root, &wanted);
        overlays.retain(|o| need.contains(&o.module));
        root = closure::filter_root(&root, &need);
    }
    let mut files = Vec::new();
    for o in overlays {
        let path = format!("{}/{}", src, o.file);
        let text = match std::fs::read_to_string(&path) {
            Ok(t) => t,
            Err(e) => {
                println!("LOSTFILE {} {}", o.file, e);
                String::new()
            }
        };
        let file = match syn::parse_file(&text) {
            Ok(f) => f,
            Err(e) => {
                println!("UNPARSED {} {}", o.file, e);
                std::process::exit(3);
            }
        };
        files.push((o, file));
    }
    for (o, f) in files.iter_mut() {
        rules::prune(o, f);
    }
    if !ctx.noinline {
        inline::run(&mut ctx, &mut files);
    }
    for (o, f) in files.iter_mut() {
        if o.locks {
            locks::run(&mut ctx, o, f);
        }
    }
    for (_, f) in &files {
        rules::collect_callbacks(&mut ctx, f);
    }
    let mut modules = BTreeMap::new();
    for (o, f) in files {
        let tokens = rules::transform(&mut ctx, &o, f);
        modules.insert(o.module.clone(), (o, tokens));
    }
    let text = emit::emit(&mut ctx, modules, &root);
    std::fs::write(&out, text).unwrap();
    if let Some(p) = names_out {
        names::dump(&p, &ctx.names);
    }
    for n in &ctx.notes {
        println!("NOTE {}", n);
    }
    for l in &ctx.lost {
        println!("LOST\t{}", l);
    }
    for f in &ctx.functions {
        println!("FN {} {}", f.status, f.key);
    }
}
