//! Overlays with `//@ locks`: tokio's locks are kept as locks, with guards that live as long as Rust says.
//!  - `let g = E.read();` (a named guard) lives to the end of its block or to `drop(g)`;
//!  - `let p = &*E.read();` (its life is extended) to the end of its block;
//!  - any other guard dies with its statement.
//! Where two guards are alive at once `x_agree` is called on them, which rustc accepts only while both are; where a write guard
//! dies `x_publish` is called on it, after `x_join` with each other write guard alive.
//!
//! For every lock that is waited for while another one is held (here or in a function of `self` that is called then), `x_ordered` is
//! called at the start of the function. The numbers it gets are places in an order of the locks that agrees with all such pairs, if
//! there is one; if there is none, tasks may wait for each other for ever, and one of the calls has a false precondition.
use crate::overlay::Overlay;
use crate::Ctx;
use proc_macro2::Span;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

thread_local! {
    /// mutexes count as well
    static ORDER: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
#[derive(Clone)]
struct Guard {
    id: Ident,
    what: String,
    write: bool,
    /// released already
    gone: bool,
    /// the name the source has for it
    name: Option<String>,
    /// the source has no name for it, but one for a reference into it
    borrowed: Option<bool>,
}

struct Locks {
    /// guards alive, oldest first
    alive: Vec<Guard>,
    /// names that hide a guard of the same name, per scope
    names: Vec<BTreeMap<String, Option<usize>>>,
    /// statements to put before the one at hand
    pre: Vec<Stmt>,
    used: BTreeMap<String, usize>,
    lost: BTreeSet<String>,
    /// a lock is taken for writing
    writes: bool,
    /// a guard was dropped in a branch
    uneven: bool,
    /// the lock held, and the one waited for meanwhile
    pairs: BTreeSet<(String, String)>,
    /// the locks that the functions of `self` wait for
    waits: BTreeMap<String, BTreeSet<String>>,
}
impl Locks {
    fn new(waits: BTreeMap<String, BTreeSet<String>>) -> Self {
        Locks { alive: vec![], names: vec![BTreeMap::new()], pre: vec![], used: BTreeMap::new(), lost: BTreeSet::new(), writes: false, uneven: false, pairs: BTreeSet::new(), waits }
    }
}
fn is_self(e: &Expr) -> bool {
    path_name(e).as_deref() == Some("self")
}
/// the name of the lock
fn lock_name(call: &Expr) -> String {
    match call {
        Expr::MethodCall(m) => match &*m.receiver {
            Expr::Field(f) => f.member.to_token_stream().to_string(),
            r => path_name(r).unwrap_or_else(|| "lock".into()),
        },
        _ => "lock".into(),
    }
}
/// what a function waits for, and the functions of `self` it calls
struct Waits(BTreeSet<String>, BTreeSet<String>);
impl<'a> Visit<'a> for Waits {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        let e = Expr::MethodCall(m.clone());
        if acquisition(&e).is_some() && m.method != "try_lock" {
            self.0.insert(lock_name(&e));
        } else if is_self(&m.receiver) {
            self.1.insert(m.method.to_string());
        }
        visit::visit_expr_method_call(self, m);
    }
}
/// places of the locks in an order that agrees with the pairs as far as one does
fn places(pairs: &[BTreeSet<(String, String)>]) -> BTreeMap<String, usize> {
    let mut kept: BTreeSet<(String, String)> = BTreeSet::new();
    let reaches = |kept: &BTreeSet<(String, String)>, a: &String, b: &String| {
        let mut seen = BTreeSet::from([a.clone()]);
        let mut todo = vec![a.clone()];
        while let Some(x) = todo.pop() {
            for (p, q) in kept {
                if *p == x && seen.insert(q.clone()) {
                    todo.push(q.clone());
                }
            }
        }
        seen.contains(b)
    };
    let mut all = BTreeSet::new();
    for (a, b) in pairs.iter().flatten() {
        all.extend([a.clone(), b.clone()]);
        if !reaches(&kept, b, a) {
            kept.insert((a.clone(), b.clone()));
        }
    }
    let mut place = BTreeMap::new();
    while place.len() < all.len() {
        let next = all.iter().find(|x| !place.contains_key(*x) && kept.iter().all(|(p, q)| q != *x || place.contains_key(p))).unwrap().clone();
        place.insert(next, place.len());
    }
    place
}

/// the lock and whether it is taken for writing
fn acquisition(e: &Expr) -> Option<(Expr, bool)> {
    match e {
        Expr::MethodCall(m) if m.args.is_empty() && (m.method == "read" || m.method == "write") => Some((e.clone(), m.method == "write")),
        Expr::MethodCall(m) if ORDER.get() && m.args.is_empty() && (m.method == "lock" || m.method == "try_lock") => Some((e.clone(), true)),
        Expr::Paren(p) => acquisition(&p.expr),
        _ => None,
    }
}
fn path_name(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Paren(p) => path_name(&p.expr),
        _ => None,
    }
}
struct Acquires(bool);
impl<'a> Visit<'a> for Acquires {
    fn visit_expr(&mut self, e: &'a Expr) {
        self.0 |= acquisition(e).is_some();
        visit::visit_expr(self, e);
    }
}
fn acquires(e: &Expr) -> bool {
    let mut v = Acquires(false);
    v.visit_expr(e);
    v.0
}
fn bound(p: &Pat) -> Vec<String> {
    struct B(Vec<String>);
    impl<'a> Visit<'a> for B {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut b = B(vec![]);
    b.visit_pat(p);
    b.0
}

impl Locks {
    fn hide(&mut self, p: &Pat) {
        for n in bound(p) {
            self.names.last_mut().unwrap().insert(n, None);
        }
    }
    fn guard(&self, n: &str) -> Option<usize> {
        self.names.iter().rev().find_map(|m| m.get(n)).copied().flatten()
    }
    /// `let G = E;` and what is known of it with the others
    fn take(&mut self, call: Expr, write: bool, name: Option<String>) -> (usize, Vec<Stmt>) {
        let what = lock_name(&call);
        let waits = !matches!(&call, Expr::MethodCall(m) if m.method == "try_lock");
        if waits {
            self.meets(&BTreeSet::from([what.clone()]));
        }
        let n = self.used.entry(what.clone()).or_insert(0);
        *n += 1;
        let id = if *n == 1 { format_ident!("__vx_g_{}", what) } else { format_ident!("__vx_g_{}_{}", what, *n) };
        let mut out: Vec<Stmt> = vec![];
        let mut call = call;
        if write {
            if let Expr::MethodCall(m) = &mut call {
                m.args.push(parse_quote!(&mut __vx_fresh));
            }
            self.writes = true;
        }
        out.push(if write { parse_quote!(let mut #id = #call;) } else { parse_quote!(let #id = #call;) });
        for g in self.alive.iter().filter(|g| !g.gone) {
            let o = &g.id;
            out.push(parse_quote!(x_agree(&#o, &#id);));
        }
        self.alive.push(Guard { id, what, write, gone: false, name, borrowed: None });
        (self.alive.len() - 1, out)
    }
    /// these are waited for with the guards alive
    fn meets(&mut self, locks: &BTreeSet<String>) {
        for g in self.alive.iter().filter(|g| !g.gone) {
            self.pairs.extend(locks.iter().map(|l| (g.what.clone(), l.clone())));
        }
    }
    fn release(&mut self, k: usize) -> Vec<Stmt> {
        let g = self.alive[k].clone();
        self.alive[k].gone = true;
        let id = &g.id;
        let mut out: Vec<Stmt> = vec![];
        if g.write {
            for o in self.alive.iter().filter(|o| !o.gone && o.write) {
                let o = &o.id;
                out.push(parse_quote!(x_join(&mut #o, &mut #id);));
            }
        }
        out.push(if g.write { parse_quote!(x_publish(#id, &mut __vx_fresh);) } else { parse_quote!(x_release(#id);) });
        out
    }
    fn block(&mut self, b: &mut Block) {
        let from = self.alive.len();
        self.names.push(BTreeMap::new());
        let saved = std::mem::take(&mut self.pre);
        let stmts = std::mem::take(&mut b.stmts);
        let n = stmts.len();
        let mut out: Vec<Stmt> = vec![];
        let mut tail: Option<Expr> = None;
        for (k, s) in stmts.into_iter().enumerate() {
            let at = self.alive.len();
            match s {
                Stmt::Local(mut l) => {
                    let Some(init) = &mut l.init else {
                        self.hide(&l.pat);
                        out.push(Stmt::Local(l));
                        continue;
                    };
                    if let Some((_, d)) = &mut init.diverge {
                        if acquires(d) {
                            self.lost.insert("a lock taken in let-else".into());
                        }
                    }
                    // a guard with a name, or kept by what borrows from it
                    let direct = acquisition(&init.expr);
                    let kept = match &*init.expr {
                        Expr::Reference(r) => match &*r.expr {
                            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => acquisition(&u.expr).map(|a| (a, r.mutability.is_some())),
                            x => acquisition(x).map(|a| (a, r.mutability.is_some())),
                        },
                        _ => None,
                    };
                    if let Some((mut call, w)) = direct {
                        visit_mut::visit_expr_mut(self, &mut call);
                        out.append(&mut self.pre);
                        match &l.pat {
                            Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                                let name = p.ident.to_string();
                                let (g, s) = self.take(call, w, Some(name.clone()));
                                out.extend(s);
                                self.names.last_mut().unwrap().insert(name, Some(g));
                            }
                            Pat::Wild(_) => {
                                let (g, s) = self.take(call, w, None);
                                out.extend(s);
                                out.extend(self.release(g));
                            }
                            _ => {
                                self.lost.insert("a guard taken apart".into());
                            }
                        }
                        continue;
                    }
                    if let Some(((mut call, w), m)) = kept {
                        visit_mut::visit_expr_mut(self, &mut call);
                        out.append(&mut self.pre);
                        let (g, s) = self.take(call, w, None);
                        out.extend(s);
                        let id = self.alive[g].id.clone();
                        match &l.pat {
                            Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {
                                // a name for what the guard gives
                                self.alive[g].borrowed = Some(m);
                                self.names.last_mut().unwrap().insert(p.ident.to_string(), Some(g));
                                continue;
                            }
                            _ => {}
                        }
                        init.expr = Box::new(if m { parse_quote!(&mut *#id.v) } else { parse_quote!(&*#id.v) });
                        self.hide(&l.pat);
                        out.push(Stmt::Local(l));
                        continue;
                    }
                    let uneven = std::mem::take(&mut self.uneven);
                    self.visit_expr_mut(&mut init.expr);
                    if self.uneven {
                        self.lost.insert("a guard dropped on some ways only".into());
                    }
                    self.uneven |= uneven;
                    out.append(&mut self.pre);
                    self.hide(&l.pat);
                    out.push(Stmt::Local(l));
                    for g in (at..self.alive.len()).rev() {
                        if !self.alive[g].gone {
                            out.extend(self.release(g));
                        }
                    }
                }
                Stmt::Expr(mut e, semi) => {
                    if let Expr::Call(c) = &e {
                        if c.args.len() == 1 && ["drop", "mem::drop", "std::mem::drop"].contains(&crate::rules::norm(&c.func).as_str()) {
                            if let Some(g) = path_name(&c.args[0]).and_then(|n| self.guard(&n)).filter(|g| self.alive[*g].borrowed.is_none()) {
                                out.extend(self.release(g));
                                continue;
                            }
                        }
                    }
                    let uneven = std::mem::take(&mut self.uneven);
                    self.visit_expr_mut(&mut e);
                    if self.uneven && k + 1 < n {
                        self.lost.insert("a guard dropped on some ways only".into());
                    }
                    self.uneven |= uneven;
                    out.append(&mut self.pre);
                    if k + 1 == n && semi.is_none() && !matches!(e, Expr::ForLoop(_) | Expr::While(_)) {
                        tail = Some(e);
                        continue;
                    }
                    out.push(Stmt::Expr(e, semi));
                    for g in (at..self.alive.len()).rev() {
                        if !self.alive[g].gone {
                            out.extend(self.release(g));
                        }
                    }
                }
                Stmt::Macro(m) => {
                    let mut e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac });
                    self.visit_expr_mut(&mut e);
                    out.append(&mut self.pre);
                    out.push(Stmt::Expr(e, Some(Default::default())));
                }
                s => out.push(s),
            }
        }
        let mut rel: Vec<Stmt> = vec![];
        for g in (from..self.alive.len()).rev() {
            if !self.alive[g].gone {
                let s = self.release(g);
                if self.alive[g].write {
                    rel.extend(s);
                }
            }
        }
        self.alive.truncate(from);
        match tail {
            Some(e) if !rel.is_empty() => {
                out.push(parse_quote!(let __vx_t = #e;));
                out.extend(rel);
                out.push(Stmt::Expr(parse_quote!(__vx_t), None));
            }
            Some(e) => out.push(Stmt::Expr(e, None)),
            None => out.extend(rel),
        }
        b.stmts = out;
        self.names.pop();
        self.pre = saved;
    }
    fn ends(&self) -> Vec<bool> {
        self.alive.iter().map(|g| g.gone).collect()
    }
    fn set(&mut self, e: &[bool]) {
        for (g, x) in self.alive.iter_mut().zip(e) {
            g.gone = *x;
        }
    }
    /// what one of the branches drops, the others drop at their end
    fn level(&mut self, start: &[bool], ends: Vec<Vec<bool>>, bodies: &mut [&mut Expr]) {
        let n = start.len();
        let any: Vec<bool> = (0..n).map(|k| ends.iter().any(|e| e[k])).collect();
        for (e, b) in ends.iter().zip(bodies.iter_mut()) {
            self.set(e);
            let mut rel: Vec<Stmt> = vec![];
            for k in (0..n).rev() {
                if any[k] && !e[k] {
                    rel.extend(self.release(k));
                }
            }
            if !rel.is_empty() {
                **b = parse_quote!({ let __vx_t = #b; #(#rel)* __vx_t });
            }
        }
        if ends.iter().any(|e| e[..n] != any[..]) {
            self.uneven = true;
        }
        self.set(&any);
    }
    fn scoped(&mut self, pats: &[&Pat], e: &mut Expr) {
        self.names.push(BTreeMap::new());
        for p in pats {
            self.hide(p);
        }
        if acquires(e) && !matches!(e, Expr::Block(_)) {
            *e = parse_quote!({ #e });
        }
        self.visit_expr_mut(e);
        self.names.pop();
    }
}

impl VisitMut for Locks {
    fn visit_block_mut(&mut self, b: &mut Block) {
        self.block(b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => {
                if let Some(g) = path_name(&u.expr).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    u.expr = Box::new(parse_quote!(#id.v));
                    return;
                }
                if let Some((mut call, w)) = acquisition(&u.expr) {
                    visit_mut::visit_expr_mut(self, &mut call);
                    let (g, s) = self.take(call, w, None);
                    self.pre.extend(s);
                    let id = &self.alive[g].id;
                    u.expr = Box::new(parse_quote!(#id.v));
                    return;
                }
            }
            Expr::Reference(r) => {
                if let Some(g) = path_name(&r.expr).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    r.expr = Box::new(parse_quote!(*#id.v));
                    return;
                }
                if let Some((mut call, w)) = acquisition(&r.expr) {
                    visit_mut::visit_expr_mut(self, &mut call);
                    let (g, s) = self.take(call, w, None);
                    self.pre.extend(s);
                    let id = &self.alive[g].id;
                    r.expr = Box::new(parse_quote!(*#id.v));
                    return;
                }
            }
            Expr::Path(_) => {
                if let Some(g) = path_name(e).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    if let Some(m) = self.alive[g].borrowed {
                        *e = if m { parse_quote!((&mut *#id.v)) } else { parse_quote!((&*#id.v)) };
                        return;
                    }
                    // the guard itself goes somewhere else
                    if self.alive[g].write {
                        self.lost.insert("a write guard moved".into());
                    }
                    *e = parse_quote!(#id);
                }
                return;
            }
            Expr::MethodCall(m) => {
                if acquisition(&Expr::MethodCall(m.clone())).is_some() {
                    // a guard nobody gave a name
                    let mut call = Expr::MethodCall(m.clone());
                    visit_mut::visit_expr_mut(self, &mut call);
                    let w = m.method != "read";
                    let (g, s) = self.take(call, w, None);
                    self.pre.extend(s);
                    let id = &self.alive[g].id;
                    *e = parse_quote!(#id.v);
                    return;
                }
                if is_self(&m.receiver) {
                    if let Some(w) = self.waits.get(&m.method.to_string()).cloned() {
                        self.meets(&w);
                    }
                }
                if let Some(g) = path_name(&m.receiver).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    m.receiver = Box::new(parse_quote!(#id.v));
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
            }
            Expr::Field(f) => {
                if let Some(g) = path_name(&f.base).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    f.base = Box::new(parse_quote!(#id.v));
                    return;
                }
            }
            Expr::Index(f) => {
                if let Some(g) = path_name(&f.expr).and_then(|n| self.guard(&n)) {
                    let id = &self.alive[g].id;
                    f.expr = Box::new(parse_quote!(#id.v));
                    self.visit_expr_mut(&mut f.index);
                    return;
                }
            }
            Expr::Closure(c) => {
                let pats: Vec<Pat> = c.inputs.iter().cloned().collect();
                self.scoped(&pats.iter().collect::<Vec<_>>(), &mut c.body);
                return;
            }
            Expr::Match(m) => {
                self.visit_expr_mut(&mut m.expr);
                let start = self.ends();
                let mut ends = vec![];
                for a in m.arms.iter_mut() {
                    if let Some((_, g)) = &a.guard {
                        if acquires(g) {
                            self.lost.insert("a lock taken in a match guard".into());
                        }
                    }
                    self.set(&start);
                    self.scoped(&[&a.pat], &mut a.body);
                    ends.push(self.ends());
                }
                let mut bodies: Vec<&mut Expr> = m.arms.iter_mut().map(|a| &mut *a.body).collect();
                self.level(&start, ends, &mut bodies);
                return;
            }
            Expr::If(i) => {
                let start;
                if let Expr::Let(l) = &mut *i.cond {
                    self.visit_expr_mut(&mut l.expr);
                    start = self.ends();
                    let p = (*l.pat).clone();
                    self.names.push(BTreeMap::new());
                    self.hide(&p);
                    self.block(&mut i.then_branch);
                    self.names.pop();
                } else {
                    if acquires(&i.cond) {
                        self.lost.insert("a lock taken in a condition".into());
                    }
                    self.visit_expr_mut(&mut i.cond);
                    start = self.ends();
                    self.block(&mut i.then_branch);
                }
                let mut ends = vec![self.ends()];
                self.set(&start);
                if let Some((_, x)) = &mut i.else_branch {
                    if acquires(x) && !matches!(**x, Expr::Block(_)) {
                        **x = parse_quote!({ #x });
                    }
                    self.visit_expr_mut(x);
                }
                ends.push(self.ends());
                if ends[0] != ends[1] {
                    let t = &i.then_branch;
                    let mut a: Expr = parse_quote!(#t);
                    let mut b: Expr = match &i.else_branch { Some((_, x)) => (**x).clone(), None => parse_quote!({}) };
                    self.level(&start, ends, &mut [&mut a, &mut b]);
                    if let Expr::Block(a) = a {
                        i.then_branch = a.block;
                    }
                    if !matches!(b, Expr::Block(_)) {
                        b = parse_quote!({ #b });
                    }
                    i.else_branch = Some((Default::default(), Box::new(b)));
                } else {
                    self.set(&ends[0].clone());
                }
                return;
            }
            Expr::While(w) => {
                if acquires(&w.cond) {
                    self.lost.insert("a lock taken in a loop's condition".into());
                }
                self.visit_expr_mut(&mut w.cond);
                self.block(&mut w.body);
                return;
            }
            Expr::ForLoop(f) => {
                self.visit_expr_mut(&mut f.expr);
                self.names.push(BTreeMap::new());
                let p = (*f.pat).clone();
                self.hide(&p);
                self.block(&mut f.body);
                self.names.pop();
                return;
            }
            Expr::Binary(b) => {
                if acquires(&b.right) && matches!(b.op, BinOp::And(_) | BinOp::Or(_)) {
                    self.lost.insert("a lock taken in a condition".into());
                }
            }
            Expr::Return(_) | Expr::Try(_) => {
                if self.alive.iter().any(|g| g.write && !g.gone) {
                    self.lost.insert("left with a write guard".into());
                }
            }
            Expr::Struct(s) => {
                for f in s.fields.iter_mut() {
                    self.visit_expr_mut(&mut f.expr);
                }
                return;
            }
            Expr::Macro(m) => {
                let text = m.mac.tokens.to_string();
                let names: Vec<String> = self.alive.iter().filter_map(|g| g.name.clone()).collect();
                if names.iter().any(|n| text.contains(n.as_str())) || text.contains(". read ()") || text.contains(". write ()") {
                    let parser = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
                    match parse::Parser::parse2(parser, m.mac.tokens.clone()) {
                        Ok(mut args) => {
                            for a in args.iter_mut() {
                                self.visit_expr_mut(a);
                            }
                            m.mac.tokens = quote!(#args);
                        }
                        Err(_) => {
                            self.lost.insert("a guard in a macro".into());
                        }
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the names of the locks' types
struct Types;
impl VisitMut for Types {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if s.ident == "RwLock" || s.ident == "Mutex" {
                s.ident = Ident::new(&format!("X{}", s.ident), Span::call_site());
            }
        }
    }
}

/// for each function the pairs of a lock held and one waited for
fn orders(o: &Overlay, f: &File) -> BTreeMap<String, BTreeSet<(String, String)>> {
    ORDER.set(true);
    let mut fns: Vec<(String, String, Block)> = vec![];
    for i in &f.items {
        if let Item::Impl(i) = i {
            let k = crate::rules::impl_key(i);
            for x in &i.items {
                if let ImplItem::Fn(m) = x {
                    fns.push((format!("{}::{}", k, m.sig.ident), m.sig.ident.to_string(), m.block.clone()));
                }
            }
        }
    }
    let mut waits: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut calls: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (_, n, b) in &fns {
        let mut w = Waits(BTreeSet::new(), BTreeSet::new());
        w.visit_block(b);
        waits.entry(n.clone()).or_default().extend(w.0);
        calls.entry(n.clone()).or_default().extend(w.1);
    }
    loop {
        let before = waits.clone();
        for (n, c) in &calls {
            let more: BTreeSet<String> = c.iter().filter_map(|c| before.get(c)).flatten().cloned().collect();
            waits.get_mut(n).unwrap().extend(more);
        }
        if waits == before {
            break;
        }
    }
    let mut out = BTreeMap::new();
    for (k, _, mut b) in fns {
        let mut l = Locks::new(waits.clone());
        l.block(&mut b);
        out.insert(k, l.pairs);
    }
    ORDER.set(false);
    let _ = o;
    out
}

pub fn run(ctx: &mut Ctx, o: &Overlay, f: &mut File) {
    let orders = orders(o, f);
    let is_external = |k: &str| o.fns.get(k).map(|s| s.external).unwrap_or(false);
    let mut all: Vec<BTreeSet<(String, String)>> = vec![];
    for first in [true, false] {
        all.extend(orders.iter().filter(|(k, _)| is_external(k) == first).map(|x| x.1.clone()));
    }
    let place = places(&all);
    Types.visit_file_mut(f);
    for i in f.items.iter_mut() {
        if let Item::Impl(i) = i {
            let k = crate::rules::impl_key(i);
            for x in i.items.iter_mut() {
                if let ImplItem::Fn(m) = x {
                    let mut l = Locks::new(BTreeMap::new());
                    l.block(&mut m.block);
                    if l.writes {
                        m.block.stmts.insert(0, parse_quote!(let mut __vx_fresh = x_fresh();));
                    }
                    let key = format!("{}::{}", k, m.sig.ident);
                    if !is_external(&key) {
                        for (a, b) in &orders[&key] {
                            let (x, y) = (place[a], place[b]);
                            m.block.stmts.insert(0, parse_quote!(x_ordered(#a, #b, #x, #y);));
                        }
                    }
                    for w in l.lost {
                        ctx.lost.insert(format!("{}::{}::{}\t{}", o.module, k, m.sig.ident, w));
                    }
                }
            }
        }
    }
}
