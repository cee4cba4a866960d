//! Which modules are needed: the wanted ones and whatever they import, so that code elsewhere in the
//! repository cannot stand in the way of a proof that does not use it.
use crate::overlay::Overlay;
use crate::rules;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;

fn words(s: &str) -> Vec<String> {
    s.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|w| !w.is_empty()).map(|w| w.to_string()).collect()
}

/// name -> module, for the re-exports at the crate root
fn reexports(root: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    for l in root.lines() {
        if let Some(r) = l.strip_prefix("#[allow(unused_imports)] pub use ") {
            let w = words(r);
            for x in &w[1..] {
                m.insert(x.clone(), w[0].clone());
            }
        }
    }
    m
}

pub fn filter_root(root: &str, need: &BTreeSet<String>) -> String {
    let tops: BTreeSet<&str> = need.iter().map(|m| m.split("::").next().unwrap()).collect();
    root.lines()
        .filter(|l| match l.strip_prefix("#[allow(unused_imports)] pub use ") {
            Some(r) => {
                let m = &words(r)[0];
                m == "shim" || tops.contains(m.as_str())
            }
            None => true,
        })
        .map(|l| format!("{}\n", l))
        .collect()
}

fn flatten(t: &syn::UseTree, prefix: Vec<String>, out: &mut Vec<Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut q = prefix;
            q.push(p.ident.to_string());
            flatten(&p.tree, q, out);
        }
        syn::UseTree::Group(g) => g.items.iter().for_each(|t| flatten(t, prefix.clone(), out)),
        syn::UseTree::Name(n) => {
            let mut q = prefix;
            q.push(n.ident.to_string());
            out.push(q);
        }
        syn::UseTree::Rename(n) => {
            let mut q = prefix;
            q.push(n.ident.to_string());
            out.push(q);
        }
        syn::UseTree::Glob(_) => out.push(prefix),
    }
}

struct Paths(Vec<Vec<String>>);
impl<'ast> Visit<'ast> for Paths {
    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.0.push(p.segments.iter().map(|s| s.ident.to_string()).collect());
        syn::visit::visit_path(self, p);
    }
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        flatten(&u.tree, vec![], &mut self.0);
    }
}

pub fn closure(src: &str, overlays: &[Overlay], root: &str, wanted: &BTreeSet<String>) -> BTreeSet<String> {
    let known: BTreeMap<&str, &Overlay> = overlays.iter().map(|o| (o.module.as_str(), o)).collect();
    let re = reexports(root);
    let mut need: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<String> = wanted.iter().cloned().collect();
    while let Some(m) = todo.pop() {
        let Some(o) = known.get(m.as_str()) else { continue };
        if !need.insert(m.clone()) {
            continue;
        }
        let mut paths = Paths(vec![]);
        if let Ok(text) = std::fs::read_to_string(format!("{}/{}", src, o.file)) {
            if let Ok(mut f) = syn::parse_file(&text) {
                rules::prune(o, &mut f);
                paths.visit_file(&f);
            }
        }
        // what the overlay's own text names
        let mut text = o.top.clone();
        text.push_str(o.uses.as_deref().unwrap_or(""));
        for f in o.fns.values() {
            text.push_str(&f.spec);
            f.loops.values().for_each(|t| text.push_str(t));
            f.at.iter().for_each(|(_, t)| text.push_str(t));
        }
        o.impls.values().for_each(|t| text.push_str(t));
        for (i, _) in text.match_indices("crate::") {
            let tail: String = text[i..].chars().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == ':' || *c == '{').collect();
            paths.0.push(words(&tail));
        }
        let here: Vec<String> = m.split("::").map(|s| s.to_string()).collect();
        let mut add = |q: &[String]| {
            // the longest module prefix
            for n in (1..=q.len()).rev() {
                let k = q[..n].join("::");
                if known.contains_key(k.as_str()) {
                    todo.push(k);
                    return;
                }
            }
            if let Some(x) = q.first().and_then(|x| re.get(x)) {
                todo.push(x.clone());
            }
        };
        for p in &paths.0 {
            match p.first().map(|s| s.as_str()) {
                Some("crate") => add(&p[1..]),
                Some("super") => {
                    let mut q: Vec<String> = here[..here.len() - 1].to_vec();
                    q.extend(p[1..].iter().cloned());
                    add(&q);
                }
                Some("self") => {
                    let mut q = here.clone();
                    q.extend(p[1..].iter().cloned());
                    add(&q);
                }
                Some(x) => {
                    // a child module or a sibling imported by name
                    let mut q = here.clone();
                    q.extend(p.iter().cloned());
                    if known.contains_key(format!("{}::{}", m, x).as_str()) {
                        add(&q);
                    } else if p.len() > 1 && known.contains_key(x) {
                        add(p);
                    }
                }
                None => {}
            }
        }
        // an enclosing module
        if here.len() > 1 {
            todo.push(here[..here.len() - 1].join("::"));
        }
    }
    need
}
