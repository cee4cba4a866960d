//! Local names. `specs/names.txt` lists, for every function with hints, its parameters and what it binds, in order, on the tree
//! the hints were written for. Where a name that hints use is gone and another one stands in its place, the hints take the new
//! one (which is reported: if the proof then fails, the hints are to blame).
use crate::overlay::FnSpec;
use crate::Ctx;
use std::collections::BTreeMap;
use syn::visit::{self, Visit};
use syn::*;

#[derive(Default, Clone, Debug)]
pub struct Names {
    pub params: Vec<String>,
    pub locals: Vec<String>,
}
struct Bound(Vec<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if !n.starts_with(|c: char| c.is_uppercase()) {
            self.0.push(n);
        }
        visit::visit_pat_ident(self, p);
    }
    // a `let` binds after its value
    fn visit_local(&mut self, l: &'a Local) {
        self.visit_pat(&l.pat);
        if let Some(i) = &l.init {
            self.visit_expr(&i.expr);
            if let Some((_, d)) = &i.diverge {
                self.visit_expr(d);
            }
        }
    }
}
pub fn of(sig: &Signature, body: Option<&Block>) -> Names {
    let mut p = Bound(vec![]);
    for a in &sig.inputs {
        if let FnArg::Typed(t) = a {
            p.visit_pat(&t.pat);
        }
    }
    let mut l = Bound(vec![]);
    if let Some(b) = body {
        l.visit_block(b);
    }
    Names { params: p.0, locals: l.0 }
}
pub fn load(path: &str) -> BTreeMap<String, Names> {
    let mut out = BTreeMap::new();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        let mut f = l.split('\t');
        let (Some(k), Some(p), Some(v)) = (f.next(), f.next(), f.next()) else { continue };
        let words = |s: &str| s.split_whitespace().map(String::from).collect();
        out.insert(k.to_string(), Names { params: words(p), locals: words(v) });
    }
    out
}
pub fn dump(path: &str, names: &[(String, Names)]) {
    let mut l: Vec<String> = names.iter().map(|(k, n)| format!("{}\t{}\t{}\n", k, n.params.join(" "), n.locals.join(" "))).collect();
    l.sort();
    std::fs::write(path, l.concat()).unwrap();
}
/// what stands in the place of what is gone
fn align(old: &[String], new: &[String], out: &mut BTreeMap<String, String>) {
    let (n, m) = (old.len(), new.len());
    // longest common subsequence
    let mut t = vec![vec![0; m + 1]; n + 1];
    for i in (0..n).rev() {
        for j in (0..m).rev() {
            t[i][j] = if old[i] == new[j] { t[i + 1][j + 1] + 1 } else { t[i + 1][j].max(t[i][j + 1]) };
        }
    }
    let (mut i, mut j) = (0, 0);
    let (mut a, mut b) = (vec![], vec![]);
    let mut pair = |a: &mut Vec<String>, b: &mut Vec<String>| {
        let gone: Vec<String> = a.drain(..).filter(|x| !new.contains(x)).collect();
        let come: Vec<String> = b.drain(..).filter(|x| !old.contains(x)).collect();
        for (x, y) in gone.into_iter().zip(come) {
            out.entry(x).or_insert(y);
        }
    };
    while i < n || j < m {
        if i < n && j < m && old[i] == new[j] {
            pair(&mut a, &mut b);
            i += 1;
            j += 1;
        } else if j == m || (i < n && t[i + 1][j] >= t[i][j + 1]) {
            a.push(old[i].clone());
            i += 1;
        } else {
            b.push(new[j].clone());
            j += 1;
        }
    }
    pair(&mut a, &mut b);
}
pub fn renamed(ctx: &Ctx, key: &str, now: &Names) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    if let Some(then) = ctx.baseline.get(key) {
        if then.params.len() == now.params.len() {
            for (x, y) in then.params.iter().zip(&now.params) {
                if x != y && !now.params.contains(x) {
                    out.insert(x.clone(), y.clone());
                }
            }
        }
        align(&then.locals, &now.locals, &mut out);
    }
    out
}
pub fn rename(m: &BTreeMap<String, String>, text: &str) -> String {
    if m.is_empty() {
        return text.to_string();
    }
    let c: Vec<char> = text.chars().collect();
    let word = |x: char| x.is_alphanumeric() || x == '_';
    let (mut out, mut i) = (String::new(), 0);
    while i < c.len() {
        if c[i] == '"' {
            out.push(c[i]);
            i += 1;
            while i < c.len() && c[i] != '"' {
                out.push(c[i]);
                i += 1;
            }
        }
        if i < c.len() && !word(c[i]) {
            out.push(c[i]);
            i += 1;
            continue;
        }
        let s = i;
        while i < c.len() && word(c[i]) {
            i += 1;
        }
        let w: String = c[s..i].iter().collect();
        let field = s > 0 && c[s - 1] == '.' && !(s > 1 && c[s - 2] == '.') || i < c.len() && c[i] == ':' && c.get(i + 1) != Some(&':');
        match m.get(&w) {
            Some(x) if !field => out += x,
            _ => out += &w,
        }
    }
    out
}
/// whether any hint has changed
pub fn rename_hints(m: &BTreeMap<String, String>, s: &mut FnSpec) -> bool {
    let mut changed = false;
    let mut go = |t: &mut String| {
        let n = rename(m, t);
        changed |= n != *t;
        *t = n;
    };
    for (a, t) in s.at.iter_mut() {
        if a.starts_with("let ") {
            go(a);
        }
        go(t);
    }
    s.loops.values_mut().for_each(&mut go);
    for c in s.closures.values_mut() {
        go(&mut c.2);
    }
    changed
}
