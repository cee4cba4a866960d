//! Normalisations of the source that keep its meaning, so that an edit of form does not lose the proof:
//!  - a helper function without a contract of its own is put in at its calls (arguments bound once, in order);
//!  - a constant without a contract is put in at its uses;
//!  - `return;` in a closure and `continue;` in a `for` loop become the `else` of what precedes them;
//!  - `loop { let P = match E { Some(x) => x, None => break }; .. }` becomes `while let Some(P) = E { .. }`;
//!  - `E.map(|x| ..)` on what is plainly an Option becomes a match.
//! A function that had a helper put in is marked: a failed proof of it decides nothing.
use crate::overlay::Overlay;
use crate::rules::impl_key;
use crate::Ctx;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

pub fn run(ctx: &mut Ctx, files: &mut Vec<(Overlay, File)>) {
    for k in 0..files.len() {
        let others: String = files.iter().enumerate().filter(|(i, (o, _))| *i != k && o.file != files[k].0.file).map(|(_, (_, f))| f.to_token_stream().to_string() + " ").collect();
        let (o, f) = &mut files[k];
        Shape.visit_file_mut(f);
        constants(o, f, &others);
        helpers(ctx, o, f, &others);
    }
}

// ---- shape ------------------------------------------------------------------------------------------------------
struct Shape;
#[derive(Clone, Copy, PartialEq)]
enum Jump {
    Return,
    /// a return with a value
    Value,
    Continue,
}
fn is_jump(e: &Expr, j: Jump) -> bool {
    match (e, j) {
        (Expr::Return(r), Jump::Return) => r.expr.is_none(),
        (Expr::Return(_), Jump::Value) => true,
        (Expr::Continue(c), Jump::Continue) => c.label.is_none(),
        _ => false,
    }
}
struct Finds(Jump, bool);
impl<'a> Visit<'a> for Finds {
    fn visit_expr(&mut self, e: &'a Expr) {
        if is_jump(e, self.0) {
            self.1 = true;
        }
        match e {
            Expr::Closure(_) => {}
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if self.0 == Jump::Continue => {}
            _ => visit::visit_expr(self, e),
        }
    }
}
fn has<'a>(t: &[Stmt], j: Jump) -> bool {
    let mut v = Finds(j, false);
    t.iter().for_each(|s| v.visit_stmt(s));
    v.1
}
fn expr_has(e: &Expr, j: Jump) -> bool {
    let mut v = Finds(j, false);
    v.visit_expr(e);
    v.1
}
fn ends_in_jump(b: &[Stmt], j: Jump) -> bool {
    match b.last() {
        Some(Stmt::Expr(e, _)) => is_jump(e, j) || matches!(e, Expr::Block(b) if b.label.is_none() && ends_in_jump(&b.block.stmts, j)),
        _ => false,
    }
}
fn stmts_of(e: &Expr) -> Vec<Stmt> {
    match e {
        Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() => b.block.stmts.clone(),
        Expr::Tuple(t) if t.elems.is_empty() => vec![],
        e => vec![Stmt::Expr(e.clone(), None)],
    }
}
fn block(stmts: Vec<Stmt>) -> Block {
    Block { brace_token: Default::default(), stmts }
}
fn end(v: Vec<Stmt>, j: Jump) -> Vec<Stmt> {
    if j == Jump::Value { v } else { unit_end(v) }
}
fn unit_end(mut v: Vec<Stmt>) -> Vec<Stmt> {
    if let Some(Stmt::Expr(e, s @ None)) = v.last_mut() {
        if !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_)) {
            *s = Some(Default::default());
        }
    }
    v
}
fn nested(v: Vec<Stmt>) -> Vec<Stmt> {
    if v.is_empty() {
        return v;
    }
    let b = block(unit_end(v));
    vec![Stmt::Expr(parse_quote!(#b), None)]
}
/// a name bound by the pattern occurs in the statements (other than as the name that `but` binds)
fn captures(p: &Pat, rest: &[Stmt], but: Option<&Pat>) -> bool {
    let w = words(&quote!(#(#rest)*).to_string());
    let b = but.map(|b| b.to_token_stream().to_string()).unwrap_or_default();
    words(&p.to_token_stream().to_string()).keys().any(|n| !n.is_empty() && *n != b.trim_start_matches("mut ") && n.chars().next().unwrap().is_lowercase() && w.contains_key(n))
}
/// the statements without their jumps, or None
fn settle(stmts: &[Stmt], j: Jump) -> Option<Vec<Stmt>> {
    let Some(k) = stmts.iter().position(|s| has(std::slice::from_ref(s), j)) else {
        return Some(stmts.to_vec());
    };
    let (head, rest) = (&stmts[..k], &stmts[k + 1..]);
    let mut out = head.to_vec();
    match &stmts[k] {
        Stmt::Expr(Expr::Return(r), _) if j == Jump::Value => {
            out.extend(r.expr.as_ref().map(|e| Stmt::Expr((**e).clone(), None)));
            return Some(out);
        }
        Stmt::Expr(e, _) if is_jump(e, j) => return Some(end(out, j)),
        Stmt::Expr(Expr::Block(b), _) if b.label.is_none() && (rest.is_empty() || ends_in_jump(&b.block.stmts, j)) => {
            out.push(Stmt::Expr(Expr::Block(ExprBlock { attrs: vec![], label: None, block: block(settle(&b.block.stmts, j)?) }), None));
        }
        Stmt::Expr(Expr::If(i), _) if !expr_has(&i.cond, j) => {
            let then = &i.then_branch.stmts;
            let other = i.else_branch.as_ref().map(|(_, e)| stmts_of(e)).unwrap_or_default();
            let (t, o) = if rest.is_empty() {
                (settle(then, j)?, settle(&other, j)?)
            } else if ends_in_jump(then, j) {
                (settle(then, j)?, settle(&[nested(other), rest.to_vec()].concat(), j)?)
            } else if ends_in_jump(&other, j) {
                if !matches!(&*i.cond, Expr::Let(_)) {
                    (settle(&[nested(then.clone()), rest.to_vec()].concat(), j)?, settle(&other, j)?)
                } else {
                    return None;
                }
            } else {
                return None;
            };
            let mut i = i.clone();
            i.then_branch = block(end(t, j));
            i.else_branch = if o.is_empty() { None } else {
                let b = block(end(o, j));
                Some((Default::default(), Box::new(parse_quote!(#b))))
            };
            out.push(Stmt::Expr(Expr::If(i), None));
        }
        Stmt::Expr(Expr::Match(m), _) if !expr_has(&m.expr, j) => {
            let mut m = m.clone();
            let live = m.arms.iter().filter(|a| !ends_in_jump(&stmts_of(&a.body), j)).count();
            if !rest.is_empty() && live > 1 {
                return None;
            }
            for a in m.arms.iter_mut() {
                let s = stmts_of(&a.body);
                let ends = ends_in_jump(&s, j) || rest.is_empty();
                if !ends && captures(&a.pat, rest, None) {
                    return None;
                }
                let s = if ends { s } else { [nested(s), rest.to_vec()].concat() };
                let b = block(end(settle(&s, j)?, j));
                *a.body = parse_quote!(#b);
                a.comma = None;
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
        }
        // let P = match E { Q => v, R => jump };
        Stmt::Local(l) => {
            let init = l.init.as_ref()?;
            let p = &l.pat;
            if let Some((_, d)) = &init.diverge {
                if !ends_in_jump(&stmts_of(d), j) || expr_has(&init.expr, j) {
                    return None;
                }
                let (e, gone, rest) = (&init.expr, block(end(settle(&stmts_of(d), j)?, j)), block(end(settle(rest, j)?, j)));
                out.push(Stmt::Expr(parse_quote!(match #e { #p => #rest, _ => #gone }), None));
                return Some(out);
            }
            let Expr::Match(m) = &*init.expr else { return None };
            if expr_has(&m.expr, j) || m.arms.iter().filter(|a| !ends_in_jump(&stmts_of(&a.body), j)).count() != 1 {
                return None;
            }
            let mut m = m.clone();
            for a in m.arms.iter_mut() {
                let s = stmts_of(&a.body);
                let s = if ends_in_jump(&s, j) {
                    settle(&s, j)?
                } else {
                    if captures(&a.pat, rest, Some(p)) {
                        return None;
                    }
                    let v = &a.body;
                    let l: Stmt = if quote!(#v).to_string() == quote!(#p).to_string() { parse_quote!({}) } else { parse_quote!(let #p = #v;) };
                    let keep = !matches!(&l, Stmt::Expr(..));
                    [if keep { vec![l] } else { vec![] }, settle(rest, j)?].concat()
                };
                let b = block(end(s, j));
                *a.body = parse_quote!(#b);
                a.comma = None;
            }
            out.push(Stmt::Expr(Expr::Match(m), None));
        }
        _ => return None,
    }
    Some(out)
}
const OPTIONAL: &[&str] = &["last", "first", "front", "back", "last_mut", "get", "next", "pop", "pop_front", "pop_back", "as_ref", "ok", "copied", "cloned"];
fn last_is_option(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => {
            let n = m.method.to_string();
            if n == "cloned" || n == "copied" || n == "as_ref" { last_is_option(&m.receiver) } else { OPTIONAL.contains(&n.as_str()) }
        }
        Expr::Paren(p) => last_is_option(&p.expr),
        _ => false,
    }
}
struct Leaves(bool);
impl<'a> Visit<'a> for Leaves {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) | Expr::Await(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit::visit_expr(self, e),
        }
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        if m.tokens.to_string().split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == "return") {
            self.0 = true;
        }
    }
}
fn leaves(e: &Expr) -> bool {
    let mut v = Leaves(false);
    v.visit_expr(e);
    v.0
}
fn body(b: &mut Block) {
    if has(&b.stmts, Jump::Value) {
        if let Some(s) = settle(&b.stmts, Jump::Value) {
            b.stmts = s;
        }
    }
}
impl VisitMut for Shape {
    fn visit_item_fn_mut(&mut self, f: &mut ItemFn) {
        visit_mut::visit_item_fn_mut(self, f);
        body(&mut f.block);
    }
    fn visit_impl_item_fn_mut(&mut self, f: &mut ImplItemFn) {
        visit_mut::visit_impl_item_fn_mut(self, f);
        body(&mut f.block);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Closure(c) => {
                if let Expr::Block(b) = &mut *c.body {
                    if has(&b.block.stmts, Jump::Return) {
                        if let Some(s) = settle(&b.block.stmts, Jump::Return) {
                            b.block.stmts = unit_end(s);
                        }
                    }
                }
            }
            Expr::ForLoop(l) => {
                if has(&l.body.stmts, Jump::Continue) {
                    if let Some(s) = settle(&l.body.stmts, Jump::Continue) {
                        l.body.stmts = unit_end(s);
                    }
                }
            }
            Expr::Loop(l) if l.label.is_none() => {
                let Some(Stmt::Local(s)) = l.body.stmts.first() else { return };
                let Some(init) = &s.init else { return };
                let p = &s.pat;
                let breaks = |e: &Expr| matches!(stmts_of(e).as_slice(), [Stmt::Expr(Expr::Break(b), _)] if b.expr.is_none() && b.label.is_none());
                let (pat, from): (Pat, Expr) = if let Some((_, d)) = &init.diverge {
                    if !breaks(d) {
                        return;
                    }
                    (p.clone(), (*init.expr).clone())
                } else {
                    let Expr::Match(m) = &*init.expr else { return };
                    let [a, b] = m.arms.as_slice() else { return };
                    let (some, none) = if breaks(&b.body) { (a, b) } else { (b, a) };
                    if !breaks(&none.body) || a.guard.is_some() || b.guard.is_some() || !matches!(p, Pat::Ident(_)) {
                        return;
                    }
                    let (Pat::TupleStruct(t), n) = (&some.pat, quote!(#none).to_string()) else { return };
                    if !t.path.is_ident("Some") || !(n.starts_with("None") || n.starts_with("_")) || t.elems.len() != 1 || quote!(#t).to_string() != format!("Some ({})", some.body.to_token_stream()) {
                        return;
                    }
                    (parse_quote!(Some(#p)), (*m.expr).clone())
                };
                let rest = &l.body.stmts[1..];
                *e = parse_quote!(while let #pat = #from { #(#rest)* });
            }
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && last_is_option(&m.receiver) => {
                let Expr::Closure(c) = &m.args[0] else { return };
                if c.inputs.len() != 1 || leaves(&c.body) {
                    return;
                }
                let (r, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                *e = parse_quote!((match #r { Some(#p) => Some(#b), None => None }));
            }
            _ => {}
        }
    }
}

// ---- constants --------------------------------------------------------------------------------------------------
fn words(t: &str) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    for w in t.split(|c: char| !c.is_alphanumeric() && c != '_') {
        *m.entry(w.to_string()).or_insert(0) += 1;
    }
    m
}
struct Constants<'a> {
    of: &'a BTreeMap<String, Expr>,
}
impl<'a> VisitMut for Constants<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Path(p) = &*e else { return };
        let s = &p.path.segments;
        let name = match s.len() {
            1 => s[0].ident.to_string(),
            2 if s[0].ident == "Self" => format!("Self::{}", s[1].ident),
            _ => return,
        };
        if let Some(v) = self.of.get(&name) {
            *e = v.clone();
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        let name = match &*p {
            Pat::Ident(i) if i.subpat.is_none() => i.ident.to_string(),
            Pat::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" => format!("Self::{}", p.path.segments[1].ident),
            _ => return,
        };
        if let Some(Expr::Lit(l)) = self.of.get(&name) {
            *p = Pat::Lit(l.clone());
        }
    }
}
fn value(t: &Type, e: &Expr) -> Expr {
    let e = match e {
        Expr::Paren(p) => &p.expr,
        e => e,
    };
    let ty = quote!(#t).to_string();
    const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) if i.suffix().is_empty() && INTS.contains(&ty.as_str()) => {
            let l = LitInt::new(&format!("{}{}", i.base10_digits(), ty), i.span());
            parse_quote!(#l)
        }
        Expr::Lit(_) => e.clone(),
        _ => parse_quote!((#e)),
    }
}
fn constants(o: &Overlay, f: &mut File, others: &str) {
    let mut of = BTreeMap::new();
    for i in &f.items {
        match i {
            Item::Const(c) if !o.fns.contains_key(&c.ident.to_string()) && !leaves(&c.expr) => {
                of.insert(c.ident.to_string(), value(&c.ty, &c.expr));
            }
            Item::Impl(i) if i.trait_.is_none() => {
                for x in &i.items {
                    if let ImplItem::Const(c) = x {
                        of.insert(format!("Self::{}", c.ident), value(&c.ty, &c.expr));
                    }
                }
            }
            _ => {}
        }
    }
    if of.is_empty() {
        return;
    }
    for _ in 0..4 {
        Constants { of: &of }.visit_file_mut(f);
        let again: Vec<_> = of.iter().map(|(k, v)| { let mut v = v.clone(); Constants { of: &of }.visit_expr_mut(&mut v); (k.clone(), v) }).collect();
        of = again.into_iter().collect();
    }
    let here = words(&f.to_token_stream().to_string());
    let there = words(others);
    let gone = |n: &Ident| here.get(&n.to_string()) == Some(&1) && !there.contains_key(&n.to_string());
    f.items.retain(|i| !matches!(i, Item::Const(c) if of.contains_key(&c.ident.to_string()) && gone(&c.ident)));
    for i in f.items.iter_mut() {
        if let Item::Impl(i) = i {
            i.items.retain(|x| !matches!(x, ImplItem::Const(c) if of.contains_key(&format!("Self::{}", c.ident)) && gone(&c.ident)));
        }
    }
}

// ---- helper functions -------------------------------------------------------------------------------------------
#[derive(Clone)]
struct Helper {
    /// the type whose function it is
    of: Option<String>,
    receiver: bool,
    params: Vec<(bool, Ident, Type)>,
    body: Block,
    ret: ReturnType,
}
fn helper(of: Option<String>, sig: &Signature, body: &Block) -> Option<Helper> {
    if sig.generics.params.iter().any(|p| !matches!(p, GenericParam::Lifetime(_))) || sig.unsafety.is_some() || sig.constness.is_some() && body.stmts.is_empty() {
        return None;
    }
    let mut params = vec![];
    let mut receiver = false;
    for a in &sig.inputs {
        match a {
            FnArg::Receiver(_) => receiver = true,
            FnArg::Typed(t) => {
                let Pat::Ident(p) = &*t.pat else { return None };
                if p.by_ref.is_some() || quote!(#t).to_string().contains("impl ") {
                    return None;
                }
                let mut ty = (*t.ty).clone();
                NoLifetimes.visit_type_mut(&mut ty);
                params.push((p.mutability.is_some(), p.ident.clone(), ty));
            }
        }
    }
    let mut v = Leaves(false);
    v.visit_block(body);
    if v.0 {
        return None;
    }
    Some(Helper { of, receiver, params, body: body.clone(), ret: sig.output.clone() })
}
struct NoLifetimes;
impl VisitMut for NoLifetimes {
    fn visit_type_reference_mut(&mut self, r: &mut TypeReference) {
        visit_mut::visit_type_reference_mut(self, r);
        r.lifetime = None;
    }
}
struct Put<'a> {
    helpers: &'a BTreeMap<String, Helper>,
    /// the type whose functions are being looked at
    of: Option<String>,
    done: BTreeSet<String>,
}
impl<'a> VisitMut for Put<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let (name, args): (String, Vec<Expr>) = match &*e {
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let s = &p.path.segments;
                if s.iter().any(|x| !x.arguments.is_none()) {
                    return;
                }
                let n = match (s.len(), &self.of) {
                    (1, _) => s[0].ident.to_string(),
                    (2, Some(t)) if s[0].ident == "Self" => format!("{}::{}", t, s[1].ident),
                    (2, _) => format!("{}::{}", s[0].ident, s[1].ident),
                    _ => return,
                };
                (n, c.args.iter().cloned().collect())
            }
            Expr::MethodCall(m) => {
                let (Expr::Path(p), Some(t)) = (&*m.receiver, &self.of) else { return };
                if !p.path.is_ident("self") || m.turbofish.is_some() {
                    return;
                }
                (format!("{}::{}", t, m.method), m.args.iter().cloned().collect())
            }
            _ => return,
        };
        let Some(h) = self.helpers.get(&name) else { return };
        if h.receiver != matches!(e, Expr::MethodCall(_)) || h.params.len() != args.len() || (h.of.is_some() && h.of != self.of && quote!(#(#args)*).to_string().contains("Self")) {
            return;
        }
        if h.of != self.of && h.body.to_token_stream().to_string().contains("Self") {
            return;
        }
        if args.iter().any(|a| matches!(a, Expr::Closure(_))) {
            return;
        }
        self.done.insert(name);
        let text: Vec<String> = args.iter().map(|a| a.to_token_stream().to_string()).collect();
        let clash = (0..args.len()).any(|i| (i + 1..args.len()).any(|j| words(&text[j]).contains_key(&h.params[i].1.to_string())));
        let mut lets: Vec<Stmt> = vec![];
        let mut args = args;
        if clash {
            for (k, a) in args.iter_mut().enumerate() {
                let t = format_ident!("__vx_a{}", k);
                let ty = &h.params[k].2;
                lets.push(parse_quote!(let #t: #ty = #a;));
                *a = parse_quote!(#t);
            }
        }
        for ((m, p, ty), a) in h.params.iter().zip(&args) {
            if !*m && a.to_token_stream().to_string() == p.to_string() {
                continue;
            }
            lets.push(if *m { parse_quote!(let mut #p: #ty = #a;) } else { parse_quote!(let #p: #ty = #a;) });
        }
        let mut body = h.body.stmts.clone();
        if let (ReturnType::Default, Some(Stmt::Expr(_, s @ None))) = (&h.ret, body.last_mut()) {
            *s = Some(Default::default());
        }
        *e = match (lets.is_empty(), body.as_slice()) {
            (true, [Stmt::Expr(x, None)]) => parse_quote!((#x)),
            _ => parse_quote!({ #(#lets)* #(#body)* }),
        };
    }
}
fn helpers(ctx: &mut Ctx, o: &Overlay, f: &mut File, others: &str) {
    let mut hs: BTreeMap<String, Helper> = BTreeMap::new();
    let there = words(others);
    for i in &f.items {
        match i {
            Item::Fn(x) => {
                let k = x.sig.ident.to_string();
                if !o.fns.contains_key(&k) {
                    if let Some(h) = helper(None, &x.sig, &x.block) {
                        hs.insert(k, h);
                    }
                }
            }
            Item::Impl(i) if i.trait_.is_none() => {
                let t = impl_key(i);
                for x in &i.items {
                    if let ImplItem::Fn(m) = x {
                        let k = format!("{}::{}", t, m.sig.ident);
                        if !o.fns.contains_key(&k) {
                            if let Some(h) = helper(Some(t.clone()), &m.sig, &m.block) {
                                hs.insert(k, h);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
    // a helper that reaches itself stays a function
    let short = |k: &str| k.rsplit("::").next().unwrap().to_string();
    for _ in 0..hs.len() + 1 {
        let names: Vec<String> = hs.keys().cloned().collect();
        for n in &names {
            let mut seen: BTreeSet<String> = BTreeSet::new();
            let mut todo = vec![n.clone()];
            let mut loops = false;
            while let Some(x) = todo.pop() {
                let Some(h) = hs.get(&x) else { continue };
                let w = words(&h.body.to_token_stream().to_string());
                for m in &names {
                    if w.contains_key(&short(m)) {
                        loops |= m == n;
                        if seen.insert(m.clone()) {
                            todo.push(m.clone());
                        }
                    }
                }
            }
            if loops {
                hs.remove(n);
            }
        }
    }
    if hs.is_empty() {
        return;
    }
    for _ in 0..4 {
        let hs0 = hs.clone();
        for h in hs.values_mut() {
            Put { helpers: &hs0, of: h.of.clone(), done: BTreeSet::new() }.visit_block_mut(&mut h.body);
        }
    }
    let mark = |ctx: &mut Ctx, key: String, done: BTreeSet<String>| {
        if !done.is_empty() {
            ctx.lost.insert(format!("{}::{}\tput in: {}", o.module, key, done.into_iter().collect::<Vec<_>>().join(", ")));
        }
    };
    for i in f.items.iter_mut() {
        match i {
            Item::Fn(x) if !hs.contains_key(&x.sig.ident.to_string()) => {
                let mut p = Put { helpers: &hs, of: None, done: BTreeSet::new() };
                p.visit_block_mut(&mut x.block);
                mark(ctx, x.sig.ident.to_string(), p.done);
            }
            Item::Impl(i) => {
                let (k, t) = (impl_key(i), crate::rules::type_name(&i.self_ty));
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(m) = x {
                        if hs.contains_key(&format!("{}::{}", k, m.sig.ident)) {
                            continue;
                        }
                        let mut p = Put { helpers: &hs, of: Some(t.clone()), done: BTreeSet::new() };
                        p.visit_block_mut(&mut m.block);
                        mark(ctx, format!("{}::{}", k, m.sig.ident), p.done);
                    }
                }
            }
            _ => {}
        }
    }
    // those that nothing calls any more
    let mut here = String::new();
    for i in &f.items {
        match i {
            Item::Fn(x) if hs.contains_key(&x.sig.ident.to_string()) => {}
            Item::Impl(i) if i.trait_.is_none() => {
                for x in &i.items {
                    if !matches!(x, ImplItem::Fn(m) if hs.contains_key(&format!("{}::{}", impl_key(i), m.sig.ident))) {
                        here += &x.to_token_stream().to_string();
                        here += " ";
                    }
                }
            }
            i => here += &(i.to_token_stream().to_string() + " "),
        }
    }
    let here = words(&here);
    let gone = |n: &Ident| !here.contains_key(&n.to_string()) && !there.contains_key(&n.to_string());
    f.items.retain(|i| !matches!(i, Item::Fn(x) if hs.contains_key(&x.sig.ident.to_string()) && gone(&x.sig.ident)));
    for i in f.items.iter_mut() {
        if let Item::Impl(i) = i {
            let k = impl_key(i);
            if i.trait_.is_none() {
                i.items.retain(|x| !matches!(x, ImplItem::Fn(m) if hs.contains_key(&format!("{}::{}", k, m.sig.ident)) && gone(&m.sig.ident)));
            }
        }
    }
}
