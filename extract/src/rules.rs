//! The rewriting rules.  Each is semantics-preserving Rust-to-Rust (documented in DESIGN.md), needed only
//! because the verifier does not accept the original form.
use crate::overlay::{FnSpec, Overlay};
use crate::{Ctx, FnInfo};
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn norm(t: &impl ToTokens) -> String {
    let s = t.to_token_stream().to_string();
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        _ => norm(t),
    }
}

fn strip_lifetimes(s: &str) -> String {
    // <'a, T> -> <T>, <'a> -> ""
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            if i < b.len() && b[i] == ',' {
                i += 1;
            }
            continue;
        }
        out.push(b[i]);
        i += 1;
    }
    out.replace("<>", "")
}

pub fn impl_key(i: &ItemImpl) -> String {
    let t = type_name(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let last = p.segments.last().unwrap();
            format!("{} as {}", t, strip_lifetimes(&norm(last)))
        }
        None => t,
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| norm(&a.meta).starts_with("cfg(test") || a.path().is_ident("test"))
}

const DROPPED_TRAITS: &[&str] = &["Display", "Error", "Debug"];
const STD_LEAVES: &[&str] = &[
    "HashMap", "HashSet", "VecDeque", "TryInto", "SocketAddr", "Arc", "SystemTime", "json", "Mutex", "RwLock", "sleep", "Duration",
    "serde_json", "Logger", "PartialLogger", "Client", "Chronometer", "Server", "Configuration", "Executor",
];

fn prune_use(t: &UseTree, prefix: &str, o: &Overlay, mods: &[String]) -> Option<UseTree> {
    match t {
        UseTree::Path(p) => {
            let id = p.ident.to_string();
            if prefix.is_empty() && !["crate", "self", "super"].contains(&id.as_str()) && !mods.contains(&id) {
                return None;
            }
            let sub = prune_use(&p.tree, &format!("{}{}::", prefix, id), o, mods)?;
            let mut p = p.clone();
            p.tree = Box::new(sub);
            Some(UseTree::Path(p))
        }
        UseTree::Group(g) => {
            let mut g = g.clone();
            g.items = g.items.iter().filter_map(|t| prune_use(t, prefix, o, mods)).collect();
            if g.items.is_empty() {
                None
            } else {
                Some(UseTree::Group(g))
            }
        }
        UseTree::Name(n) => {
            let id = n.ident.to_string();
            if prefix == "crate::" && STD_LEAVES.contains(&id.as_str()) && !o.known.contains(&id) {
                None
            } else if o.drop.contains(&format!("use {}", id)) {
                None
            } else {
                Some(t.clone())
            }
        }
        UseTree::Rename(n) => {
            if o.drop.contains(&format!("use {}", n.rename)) {
                None
            } else {
                Some(t.clone())
            }
        }
        UseTree::Glob(_) => Some(t.clone()),
    }
}

/// `move |a, b| f(a, b)` is f
fn eta(e: &Expr) -> Option<Expr> {
    let c = match e {
        Expr::Closure(c) if c.capture.is_some() => c,
        _ => return None,
    };
    let mut b = &*c.body;
    loop {
        b = match b {
            Expr::Async(a) if a.block.stmts.len() == 1 => match &a.block.stmts[0] {
                Stmt::Expr(x, None) => x,
                _ => return None,
            },
            Expr::Await(a) => &a.base,
            Expr::Call(k) if norm(&k.func).ends_with("Box::pin") && k.args.len() == 1 => &k.args[0],
            _ => break,
        };
    }
    let k = match b {
        Expr::Call(k) => k,
        _ => return None,
    };
    let same = c.inputs.len() == k.args.len() && c.inputs.iter().zip(&k.args).all(|(p, a)| matches!(p, Pat::Ident(_)) && norm(p) == norm(a));
    match &*k.func {
        Expr::Path(p) if same && p.path.get_ident().is_some() => Some((*k.func).clone()),
        _ => None,
    }
}

/// `F` with `F: Future<Output = T>` is T
fn no_futures(s: &mut Signature) {
    let mut found: Vec<(Ident, Type)> = Vec::new();
    if let Some(w) = &mut s.generics.where_clause {
        let old = std::mem::take(&mut w.predicates);
        for p in old {
            let mut hit = None;
            if let WherePredicate::Type(t) = &p {
                for b in &t.bounds {
                    if let TypeParamBound::Trait(b) = b {
                        let l = b.path.segments.last().unwrap();
                        if l.ident == "Future" {
                            if let PathArguments::AngleBracketed(a) = &l.arguments {
                                for x in &a.args {
                                    if let GenericArgument::AssocType(x) = x {
                                        if let Ok(id) = parse2::<Ident>(t.bounded_ty.to_token_stream()) {
                                            hit = Some((id, x.ty.clone()));
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            match hit {
                Some(h) => found.push(h),
                None => w.predicates.push(p),
            }
        }
    }
    for (id, ty) in found {
        s.generics.params = std::mem::take(&mut s.generics.params)
            .into_iter()
            .filter(|p| !matches!(p, GenericParam::Type(t) if t.ident == id))
            .collect();
        struct R(Ident, Type);
        impl VisitMut for R {
            fn visit_type_mut(&mut self, t: &mut Type) {
                visit_mut::visit_type_mut(self, t);
                if let Type::Path(p) = t {
                    if p.path.is_ident(&self.0) {
                        *t = self.1.clone();
                    }
                }
            }
        }
        R(id, ty).visit_signature_mut(s);
    }
}

/// Takes `async`, `.await` and the sharing (`Arc<T>` is T, `Arc::new(e)` and `e.clone()` of it are e) out of the text.
/// What this gives up: a suspended task sees nothing of what other tasks do in the meantime.
struct Sequential {
    arcs: bool,
}

impl VisitMut for Sequential {
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        s.asyncness = None;
        no_futures(s);
        visit_mut::visit_signature_mut(self, s);
    }
    fn visit_generics_mut(&mut self, g: &mut Generics) {
        // where a value may live and travel is rustc's business
        let strip = |b: &mut punctuated::Punctuated<TypeParamBound, Token![+]>| {
            *b = std::mem::take(b)
                .into_iter()
                .filter(|b| match b {
                    TypeParamBound::Lifetime(l) => l.ident != "static",
                    TypeParamBound::Trait(t) => !(t.path.is_ident("Send") || t.path.is_ident("Sync")),
                    _ => true,
                })
                .collect();
        };
        for p in g.params.iter_mut() {
            if let GenericParam::Type(t) = p {
                strip(&mut t.bounds);
            }
        }
        if let Some(w) = &mut g.where_clause {
            for p in w.predicates.iter_mut() {
                if let WherePredicate::Type(t) = p {
                    strip(&mut t.bounds);
                }
            }
        }
        visit_mut::visit_generics_mut(self, g);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            if let Expr::Await(a) = e {
                *e = (*a.base).clone();
                continue;
            }
            if let Expr::Async(a) = e {
                *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: a.block.clone() });
                continue;
            }
            if let Expr::Call(c) = e {
                if norm(&c.func).ends_with("Box::pin") && c.args.len() == 1 {
                    *e = c.args[0].clone();
                    continue;
                }
            }
            if let Some(f) = eta(e) {
                *e = f;
                continue;
            }
            if self.arcs {
                if let Expr::Call(c) = e {
                    if let Expr::Path(p) = &*c.func {
                        let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                        if n.len() >= 2 && n[n.len() - 2] == "Arc" && n[n.len() - 1] == "new" && c.args.len() == 1 {
                            *e = c.args[0].clone();
                            continue;
                        }
                    }
                }
            }
            break;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if self.arcs {
            if let Type::Path(p) = t {
                if let Some(s) = p.path.segments.last() {
                    if s.ident == "Arc" {
                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(GenericArgument::Type(x)) = a.args.first() {
                                *t = x.clone();
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// macros of this file with one rule `($x:expr) => { .. }`: they are written out where they are used
struct LocalMacros {
    m: std::collections::BTreeMap<String, (String, TokenStream)>,
}
fn one_rule(m: &ItemMacro) -> Option<(String, (String, TokenStream))> {
    use proc_macro2::TokenTree as T;
    let name = m.ident.as_ref()?.to_string();
    let t: Vec<T> = m.mac.tokens.clone().into_iter().collect();
    if t.len() < 4 || t.len() > 5 {
        return None;
    }
    let (a, b) = match (&t[0], &t[3]) {
        (T::Group(a), T::Group(b)) => (a.stream(), b.stream()),
        _ => return None,
    };
    let a: Vec<T> = a.into_iter().collect();
    if a.len() != 4 || a[0].to_string() != "$" || a[2].to_string() != ":" || a[3].to_string() != "expr" {
        return None;
    }
    Some((name, (a[1].to_string(), b)))
}
fn put(body: &TokenStream, x: &str, arg: &Expr) -> TokenStream {
    use proc_macro2::TokenTree as T;
    let mut out = TokenStream::new();
    let mut it = body.clone().into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            T::Punct(p) if p.as_char() == '$' && it.peek().map(|n| n.to_string() == x).unwrap_or(false) => {
                it.next();
                out.extend(quote!((#arg)));
            }
            T::Group(g) => {
                let mut n = proc_macro2::Group::new(g.delimiter(), put(&g.stream(), x, arg));
                n.set_span(g.span());
                out.extend([T::Group(n)]);
            }
            t => out.extend([t]),
        }
    }
    out
}
impl LocalMacros {
    fn open(&self, m: &Macro) -> Option<Expr> {
        if is_macro(m, "json") {
            // serde_json's: one Rust value, or an object
            if let Ok(a) = m.parse_body::<Expr>() {
                return Some(parse_quote!(x_json(#a)));
            }
            let g = match m.tokens.clone().into_iter().next()? {
                proc_macro2::TokenTree::Group(g) => g.stream(),
                _ => return None,
            };
            let p = |i: parse::ParseStream| -> Result<Vec<(LitStr, Expr)>> {
                let mut v = Vec::new();
                while !i.is_empty() {
                    let k = i.parse()?;
                    i.parse::<Token![:]>()?;
                    v.push((k, i.parse()?));
                    if !i.is_empty() {
                        i.parse::<Token![,]>()?;
                    }
                }
                Ok(v)
            };
            let v = parse::Parser::parse2(p, g).ok()?;
            return Some(v.into_iter().fold(parse_quote!(x_members()), |o: Expr, (k, e)| parse_quote!(x_member(#o, #k, x_json(#e)))));
        }
        let (x, body) = self.m.get(&m.path.get_ident()?.to_string())?;
        let arg = m.parse_body::<Expr>().ok()?;
        parse2::<Expr>(put(body, x, &arg)).ok()
    }
}
impl VisitMut for LocalMacros {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = self.open(&m.mac) {
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        while let Expr::Macro(m) = e {
            match self.open(&m.mac) {
                Some(n) => *e = n,
                None => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(a) = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
            let mut a = a;
            a.iter_mut().for_each(|e| self.visit_expr_mut(e));
            m.tokens = quote!(#a);
        }
    }
}

pub fn prune(o: &Overlay, f: &mut File) {
    f.attrs.clear();
    let m = f.items.iter().filter_map(|i| if let Item::Macro(m) = i { one_rule(m) } else { None }).collect();
    LocalMacros { m }.visit_file_mut(f);
    Sequential { arcs: o.noarcs }.visit_file_mut(f);
    let mods: Vec<String> = f.items.iter().filter_map(|i| if let Item::Mod(m) = i { Some(m.ident.to_string()) } else { None }).collect();
    let items = std::mem::take(&mut f.items);
    for item in items {
        match item {
            Item::Use(mut u) => {
                if is_test(&u.attrs) {
                    continue;
                }
                if o.uses.is_some() {
                    continue;
                }
                u.attrs.clear();
                if let Some(t) = prune_use(&u.tree, "", o, &mods) {
                    u.tree = t;
                    f.items.push(Item::Use(u));
                }
            }
            Item::Mod(m) => {
                if m.content.is_some() && is_test(&m.attrs) {
                    continue;
                }
            }
            Item::Fn(x) => {
                let k = x.sig.ident.to_string();
                if is_test(&x.attrs) || o.drop.contains(&k) || (!o.only.is_empty() && !o.only.contains(&k)) {
                    continue;
                }
                f.items.push(Item::Fn(x));
            }
            Item::Impl(mut i) => {
                if is_test(&i.attrs) {
                    continue;
                }
                if let Some((_, p, _)) = &i.trait_ {
                    let n = p.segments.last().unwrap().ident.to_string();
                    if DROPPED_TRAITS.contains(&n.as_str()) {
                        continue;
                    }
                }
                let k = impl_key(&i);
                if o.drop.contains(&k) {
                    continue;
                }
                i.items.retain(|x| match x {
                    ImplItem::Fn(m) => {
                        let mk = format!("{}::{}", k, m.sig.ident);
                        !(is_test(&m.attrs)
                            || o.drop.contains(&mk)
                            || (!o.only.is_empty() && !o.only.contains(&mk) && !o.only.contains(&k)))
                    }
                    _ => true,
                });
                if !o.only.is_empty() && !o.only.contains(&k) && !i.items.iter().any(|x| matches!(x, ImplItem::Fn(_))) {
                    continue;
                }
                f.items.push(Item::Impl(i));
            }
            Item::Struct(s) => {
                if !o.drop.contains(&s.ident.to_string()) && !o.drop.contains(&format!("struct {}", s.ident)) {
                    f.items.push(Item::Struct(s))
                }
            }
            Item::Enum(s) => {
                if !o.drop.contains(&s.ident.to_string()) {
                    f.items.push(Item::Enum(s))
                }
            }
            Item::Trait(s) => {
                if !o.drop.contains(&s.ident.to_string()) {
                    f.items.push(Item::Trait(s))
                }
            }
            Item::Const(s) => {
                if !is_test(&s.attrs) && !o.drop.contains(&s.ident.to_string()) {
                    f.items.push(Item::Const(s))
                }
            }
            Item::Static(s) => {
                if !o.drop.contains(&s.ident.to_string()) {
                    f.items.push(Item::Static(s))
                }
            }
            Item::Type(s) => {
                if !o.drop.contains(&s.ident.to_string()) {
                    f.items.push(Item::Type(s))
                }
            }
            Item::Macro(_) => {}
            _ => {}
        }
    }
}

/// `FnMut(A, B)` found in a bound: the argument types
fn fnmut_args(b: &TypeParamBound) -> Option<Vec<Type>> {
    if let TypeParamBound::Trait(t) = b {
        let s = t.path.segments.last()?;
        if s.ident == "FnMut" {
            if let PathArguments::Parenthesized(p) = &s.arguments {
                return Some(p.inputs.iter().cloned().collect());
            }
        }
    }
    None
}

/// the callback parameter of a signature: (index among all inputs, name, argument types)
fn callback_param(sig: &Signature) -> Option<(usize, String, Vec<Type>)> {
    for (i, a) in sig.inputs.iter().enumerate() {
        if let FnArg::Typed(p) = a {
            let name = match &*p.pat {
                Pat::Ident(n) => n.ident.to_string(),
                _ => continue,
            };
            let mut t = &*p.ty;
            if let Type::Reference(r) = t {
                t = &*r.elem;
            }
            match t {
                Type::ImplTrait(it) => {
                    for b in &it.bounds {
                        if let Some(args) = fnmut_args(b) {
                            return Some((i, name, args));
                        }
                    }
                }
                Type::Path(p) if p.path.segments.len() == 1 => {
                    let id = &p.path.segments[0].ident;
                    for g in &sig.generics.params {
                        if let GenericParam::Type(tp) = g {
                            if &tp.ident == id {
                                for b in &tp.bounds {
                                    if let Some(args) = fnmut_args(b) {
                                        return Some((i, name, args));
                                    }
                                }
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    None
}

pub fn collect_callbacks(ctx: &mut Ctx, f: &File) {
    struct V<'a>(&'a mut Ctx);
    impl<'a, 'ast> Visit<'ast> for V<'a> {
        fn visit_signature(&mut self, s: &'ast Signature) {
            if let Some((i, _, args)) = callback_param(s) {
                let has_self = s.inputs.iter().any(|a| matches!(a, FnArg::Receiver(_)));
                let n = s.inputs.len() - has_self as usize;
                self.0.callbacks.insert((s.ident.to_string(), n), (i - has_self as usize, args));
            }
        }
    }
    V(ctx).visit_file(f);
    for i in &f.items {
        if let Item::Struct(s) = i {
            if s.generics.lifetimes().next().is_some() {
                ctx.lifetimed.insert(s.ident.to_string());
            }
        }
    }
}

fn owned_type(t: &Type) -> Type {
    match t {
        Type::Reference(r) => (*r.elem).clone(),
        _ => t.clone(),
    }
}

fn trace_type(args: &[Type]) -> Type {
    let ts: Vec<Type> = args.iter().map(owned_type).collect();
    if ts.len() == 1 {
        let t = &ts[0];
        parse_quote!(Vec<#t>)
    } else {
        parse_quote!(Vec<(#(#ts),*)>)
    }
}

// ---------------------------------------------------------------------------------------------------
// expression-level rules

struct Exprs<'a> {
    ctx: &'a mut Ctx,
}

fn is_macro(m: &Macro, n: &str) -> bool {
    m.path.segments.last().map(|s| s.ident == n).unwrap_or(false)
}

fn macro_args(m: &Macro) -> Vec<Expr> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated)
        .map(|p| p.into_iter().collect())
        .unwrap_or_default()
}

fn checker(name: &str) -> Ident {
    format_ident!("{}", if name.starts_with("debug") { "x_debug_assert" } else { "x_assert" })
}

fn macro_expr(m: &Macro) -> Option<Expr> {
    let name = m.path.segments.last()?.ident.to_string();
    match name.as_str() {
        // a debug_assert may stop the program but promises nothing
        "assert" | "debug_assert" => {
            let c = macro_args(m).into_iter().next()?;
            let f = checker(&name);
            Some(parse_quote!(#f(#c)))
        }
        "assert_eq" | "debug_assert_eq" => {
            let a = macro_args(m);
            let (x, y) = (&a[0], &a[1]);
            let f = checker(&name);
            Some(parse_quote!(#f(#x == #y)))
        }
        "assert_ne" | "debug_assert_ne" => {
            let a = macro_args(m);
            let (x, y) = (&a[0], &a[1]);
            let f = checker(&name);
            Some(parse_quote!(#f(#x != #y)))
        }
        "panic" | "unreachable" | "todo" | "unimplemented" => Some(parse_quote!(x_panic())),
        "println" | "eprintln" | "print" | "eprint" => Some(parse_quote!(())),
        "format" => Some(format_expr(m)),
        _ => None,
    }
}

/// format!("a{}b", x): x_fmt(x_fmt0("a"), &x, "b") where the arguments are names; otherwise some text
fn format_expr(m: &Macro) -> Expr {
    let unknown: Expr = parse_quote!(x_format());
    let mut args = macro_args(m).into_iter();
    let text = match args.next() {
        Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(),
        _ => return unknown,
    };
    if text.contains("{{") || text.contains("}}") {
        return unknown;
    }
    let mut pieces = text.split('{');
    let first = pieces.next().unwrap();
    let mut e: Expr = parse_quote!(x_fmt0(#first));
    for p in pieces {
        let (hole, rest) = match p.split_once('}') {
            Some(x) => x,
            None => return unknown,
        };
        let mut a: Expr = if hole.is_empty() {
            match args.next() {
                Some(a) => a,
                None => return unknown,
            }
        } else {
            match syn::parse_str::<Ident>(hole) {
                Ok(i) => parse_quote!(#i),
                Err(_) => return unknown,
            }
        };
        while let Expr::Reference(r) = a {
            a = *r.expr;
        }
        let simple = match &a {
            Expr::Path(_) | Expr::Index(_) => true,
            Expr::MethodCall(m) => m.method == "join",
            _ => false,
        };
        if !simple {
            return unknown;
        }
        let n = rest.chars().count();
        e = parse_quote!(x_fmt(#e, &#a, #rest, #n));
    }
    if args.next().is_some() { unknown } else { e }
}

fn path_is(p: &Path, suffix: &str) -> bool {
    let s = norm(p);
    s == suffix || s.ends_with(&format!("::{}", suffix))
}

impl<'a> VisitMut for Exprs<'a> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(e) = macro_expr(&m.mac) {
                let semi = m.semi_token;
                let is_panic = norm(&e).starts_with("x_panic");
                *s = match semi {
                    Some(semi) if !is_panic => Stmt::Expr(e, Some(semi)),
                    _ => Stmt::Expr(e, None),
                };
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::ImplTrait(i) = t {
            if norm(i) == "implAsRef<[u8]>" {
                *t = parse_quote!(impl XBytes);
            } else if norm(i) == "implAsMut<[u8]>" {
                *t = parse_quote!(impl XBytesMut);
            }
        }
        if norm(t) == "f64" {
            *t = parse_quote!(F64);
        }
        if let Type::ImplTrait(i) = t {
            if norm(i) == "implInto<String>" {
                *t = parse_quote!(impl XInto<String>);
            }
        }
        {
            // Box<dyn std::error::Error + ..>: only carried along, never inspected
            let n = norm(t);
            if n.starts_with("Box<dyn") && n.contains("Error") {
                *t = parse_quote!(XError);
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if let Some(n) = macro_expr(&m.mac) {
                *e = n;
            }
        }
        if let Expr::Unsafe(u) = e {
            // the only unsafe operation accepted here is from_utf8_unchecked, replaced below
            let b = &u.block;
            if b.stmts.len() == 1 {
                if let Stmt::Expr(x, None) = &b.stmts[0] {
                    *e = x.clone();
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                match m.method.to_string().as_str() {
                    "as_ref" if m.args.is_empty() => m.method = format_ident!("x_as_ref"),
                    "as_mut" if m.args.is_empty() => m.method = format_ident!("x_as_mut"),
                    "try_into" if m.args.is_empty() => m.method = format_ident!("x_try_into"),
                    "into" if m.args.is_empty() => m.method = format_ident!("x_into"),
                    "to_le_bytes" if m.args.is_empty() => m.method = format_ident!("x_to_le_bytes"),
                    "to_vec" if m.args.is_empty() => m.method = format_ident!("x_to_vec"),
                    "chunks" => m.method = format_ident!("x_chunks"),
                    "chunks_exact" => m.method = format_ident!("x_chunks_exact"),
                    "split_at" => m.method = format_ident!("x_split_at"),
                    "splitn" if m.args.len() == 2 => m.method = format_ident!("x_splitn"),
                    "split" if m.args.len() == 1 && matches!(&m.args[0], Expr::Lit(l) if matches!(l.lit, Lit::Char(_))) => m.method = format_ident!("x_split"),
                    "parse" if m.args.is_empty() && m.turbofish.is_some() => m.method = format_ident!("x_parse"),
                    _ => {}
                }
                None
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let f = norm(&p.path);
                    let args = &c.args;
                    if path_is(&p.path, "from_utf8_unchecked") {
                        Some(parse_quote!(x_string(#args)))
                    } else if f.ends_with("::from_le_bytes") {
                        let t: Ident = p.path.segments[p.path.segments.len() - 2].ident.clone();
                        let n = format_ident!("x_{}_from_le_bytes", t);
                        Some(parse_quote!(#n(#args)))
                    } else if f == "std::cmp::min" || f == "cmp::min" {
                        Some(parse_quote!(x_min(#args)))
                    } else if f == "std::fs::read" || f == "fs::read" {
                        Some(parse_quote!(x_fs_read(#args)))
                    } else if f == "std::fs::write" || f == "fs::write" {
                        Some(parse_quote!(x_fs_write(#args)))
                    } else if f == "std::fs::rename" || f == "fs::rename" {
                        Some(parse_quote!(x_fs_rename(#args)))
                    } else if f == "std::fs::remove_file" || f == "fs::remove_file" {
                        Some(parse_quote!(x_fs_remove(#args)))
                    } else if f == "std::fs::copy" || f == "fs::copy" {
                        Some(parse_quote!(x_fs_copy(#args)))
                    } else if f == "std::str::from_utf8" || f == "str::from_utf8" {
                        Some(parse_quote!(x_from_utf8(#args)))
                    } else if f == "Box::new" && args.len() == 1 {
                        Some(parse_quote!(x_boxed(#args)))
                    } else if f == "std::cmp::max" || f == "cmp::max" {
                        Some(parse_quote!(x_max(#args)))
                    } else if f == "Err" && args.len() == 1 {
                        None
                    } else {
                        None
                    }
                } else if let Expr::Paren(p) = &*c.func {
                    // calling what a field holds
                    let (f, args) = (&p.expr, &c.args);
                    if matches!(&**f, Expr::Field(_)) {
                        Some(parse_quote!(#f.x_call(#args)))
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            Expr::Cast(c) if norm(&c.ty) == "F64" => {
                let x = &c.expr;
                Some(parse_quote!(x_f64(#x)))
            }
            Expr::Lit(l) => match &l.lit {
                Lit::Float(f) => match f.base10_parse::<f64>() {
                    // numbers that are integers, and small enough to be exact
                    Ok(x) if x.fract() == 0.0 && x >= 0.0 && x <= 9007199254740992.0 => {
                        let n = LitInt::new(&format!("{}u64", x as u64), Span::call_site());
                        Some(parse_quote!(x_f64(#n)))
                    }
                    _ => None,
                },
                Lit::ByteStr(b) => {
                    let bytes = b.value();
                    let lits = bytes.iter().map(|b| LitInt::new(&format!("{}u8", b), Span::call_site()));
                    Some(parse_quote!(&[#(#lits),*]))
                }
                Lit::Byte(b) => {
                    let l = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                    Some(parse_quote!(#l))
                }
                _ => None,
            },
            Expr::Return(r) => {
                let _ = r;
                None
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        if let Pat::Lit(l) = p {
            if let Lit::Byte(b) = &l.lit {
                let b = LitInt::new(&format!("{}u8", b.value()), Span::call_site());
                *p = parse_quote!(#b);
            }
        }
        if let Pat::Range(r) = p {
            for e in [&mut r.start, &mut r.end] {
                if let Some(x) = e {
                    if let Expr::Lit(l) = &mut **x {
                        if let Lit::Byte(b) = &l.lit {
                            l.lit = Lit::Int(LitInt::new(&format!("{}u8", b.value()), Span::call_site()));
                        }
                    }
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// vec![..] is opened for the other rules and put back at the end

/// calls of what a pattern has bound: `match &self.f { Some(g) => g(x), .. }`
struct BoundCalls {
    names: Vec<String>,
}
impl BoundCalls {
    fn of(b: &Block) -> Self {
        struct V(Vec<String>);
        impl<'a> syn::visit::Visit<'a> for V {
            fn visit_arm(&mut self, a: &'a Arm) {
                let_names(&a.pat, &mut self.0);
                syn::visit::visit_arm(self, a);
            }
            fn visit_expr_let(&mut self, l: &'a ExprLet) {
                let_names(&l.pat, &mut self.0);
                syn::visit::visit_expr_let(self, l);
            }
        }
        let mut v = V(vec![]);
        syn::visit::Visit::visit_block(&mut v, b);
        BoundCalls { names: v.0 }
    }
}
impl VisitMut for BoundCalls {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if let Some(id) = p.path.get_ident() {
                    if self.names.contains(&id.to_string()) {
                        let args = &c.args;
                        *e = parse_quote!(#id.x_call(#args));
                    }
                }
            }
        }
    }
}

struct VecOpen;
impl VisitMut for VecOpen {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if is_macro(&m.mac, "vec") {
                *s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() }), m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if is_macro(&m.mac, "vec") {
                let t = &m.mac.tokens;
                if let Ok(r) = parse2::<ExprRepeat>(quote!([#t])) {
                    let (x, n) = (&r.expr, &r.len);
                    *e = parse_quote!(__vx_vecrep(#x, #n));
                } else if let Ok(a) = parse2::<ExprArray>(quote!([#t])) {
                    let xs = &a.elems;
                    *e = parse_quote!(__vx_veclit(#xs));
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
struct VecClose;
impl VisitMut for VecClose {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = norm(&c.func);
            if f == "__vx_vecrep" {
                let (x, n) = (&c.args[0], &c.args[1]);
                *e = parse_quote!(vec![#x; #n]);
            } else if f == "__vx_veclit" {
                let xs = &c.args;
                *e = parse_quote!(vec![#xs]);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// logging

fn is_log_call(e: &Expr) -> bool {
    if let Expr::MethodCall(m) = e {
        let n = m.method.to_string();
        if n == "log" && m.args.len() == 1 {
            let mut r = &*m.receiver;
            while let Expr::Reference(x) = r {
                r = &*x.expr;
            }
            let s = norm(r);
            return s == "logger" || s.ends_with("logger") || s.ends_with("logger()");
        }
    }
    false
}

struct Logs;
impl VisitMut for Logs {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        b.stmts.retain(|s| match s {
            Stmt::Expr(e, _) => !is_log_call(e),
            Stmt::Local(l) => {
                let n = norm(&l.pat);
                if let Some(i) = &l.init {
                    let x = norm(&i.expr);
                    !((n == "logger" || n == "mutlogger")
                        && (x.starts_with("Logger::new") || x.starts_with("PartialLogger::new") || x == "logger.clone()")
                        || x == "logger.interval()")
                } else {
                    true
                }
            }
            _ => true,
        });
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if is_log_call(e) {
            *e = parse_quote!(());
        }
        // logger arguments are dropped
        let drop_args = |args: &mut punctuated::Punctuated<Expr, Token![,]>| {
            let v: Vec<Expr> = args
                .iter()
                .filter(|a| {
                    let s = norm(*a);
                    !(s == "logger" || s == "&logger" || s == "&&logger" || s == "logger.clone()")
                })
                .cloned()
                .collect();
            *args = v.into_iter().collect();
        };
        match e {
            Expr::MethodCall(m) => drop_args(&mut m.args),
            Expr::Call(c) => drop_args(&mut c.args),
            _ => {}
        }
    }
    fn visit_signature_mut(&mut self, s: &mut Signature) {
        let v: Vec<FnArg> = s
            .inputs
            .iter()
            .filter(|a| match a {
                FnArg::Typed(p) => norm(&p.pat) != "logger",
                _ => true,
            })
            .cloned()
            .collect();
        s.inputs = v.into_iter().collect();
    }
}

// ---------------------------------------------------------------------------------------------------
// patterns with references: `&x`

/// replaces `&PAT` sub-patterns by fresh bindings; returns the `let` statements to put first
fn deref_pat(p: &mut Pat, n: &mut usize, lets: &mut Vec<Stmt>) {
    match p {
        Pat::Reference(r) => {
            let mut inner = (*r.pat).clone();
            while let Pat::Reference(r2) = inner {
                let id = format_ident!("__vx_p{}", *n);
                *n += 1;
                // && pattern: two derefs
                let inner2 = (*r2.pat).clone();
                lets.push(parse_quote!(let #id = *#id;));
                inner = inner2;
                let _ = id;
                lets.pop();
                let id2 = format_ident!("__vx_p{}", *n);
                *n += 1;
                lets.push(parse_quote!(let #inner = **#id2;));
                *p = parse_quote!(#id2);
                return;
            }
            if let Pat::Wild(_) = inner {
                *p = parse_quote!(_);
                return;
            }
            let id = format_ident!("__vx_p{}", *n);
            *n += 1;
            lets.push(parse_quote!(let #inner = *#id;));
            *p = parse_quote!(#id);
        }
        Pat::Tuple(t) => {
            for e in t.elems.iter_mut() {
                deref_pat(e, n, lets)
            }
        }
        Pat::TupleStruct(t) => {
            for e in t.elems.iter_mut() {
                deref_pat(e, n, lets)
            }
        }
        Pat::Paren(t) => deref_pat(&mut t.pat, n, lets),
        Pat::Struct(s) => {
            for f in s.fields.iter_mut() {
                deref_pat(&mut f.pat, n, lets)
            }
        }
        _ => {}
    }
}

/// reference patterns in `if let` / `match` arms
struct RefPats {
    n: usize,
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        if a.guard.is_some() {
            return;
        }
        let mut lets = Vec::new();
        deref_pat(&mut a.pat, &mut self.n, &mut lets);
        if !lets.is_empty() {
            let b = &a.body;
            a.body = parse_quote!({ #(#lets)* #b });
            a.comma = None;
        }
    }
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        if let Expr::Let(l) = &mut *i.cond {
            let mut lets = Vec::new();
            deref_pat(&mut l.pat, &mut self.n, &mut lets);
            for (k, s) in lets.into_iter().enumerate() {
                i.then_branch.stmts.insert(k, s);
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// loops

struct Loops {
    n: usize,
}

fn pat_ident(p: &Pat) -> Option<Ident> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() => Some(i.ident.clone()),
        _ => None,
    }
}

/// does the block contain a `continue` that belongs to this loop?
fn has_continue(b: &Block) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_continue(&mut self, _: &'ast ExprContinue) {
            self.0 = true;
        }
        fn visit_expr_for_loop(&mut self, _: &'ast ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'ast ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'ast ExprLoop) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_block(b);
    v.0
}

fn ends_continue(b: &Block) -> bool {
    matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(_), _)))
}

/// `if c { A; continue; } REST`  ->  `if c { A } else { REST }`
/// `let P = match e { P1 => V, P2 => continue }; REST` -> `match e { P1 => { let P = V; REST } P2 => {} }`
fn remove_continue(b: &mut Block) {
    let mut i = 0;
    while i < b.stmts.len() {
        let s = b.stmts[i].clone();
        match s {
            Stmt::Expr(Expr::If(mut x), _) if x.else_branch.is_none() && has_continue(&x.then_branch) => {
                if !ends_continue(&x.then_branch) {
                    return;
                }
                x.then_branch.stmts.pop();
                remove_continue(&mut x.then_branch);
                let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                remove_continue(&mut rest);
                if !rest.stmts.is_empty() {
                    x.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: rest }))));
                }
                b.stmts[i] = Stmt::Expr(Expr::If(x), None);
                return;
            }
            Stmt::Expr(Expr::Continue(_), _) => {
                b.stmts.truncate(i);
                return;
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if let Expr::Match(m) = &*init.expr {
                        let c: Vec<bool> = m.arms.iter().map(|a| matches!(&*a.body, Expr::Continue(_))).collect();
                        if c.iter().any(|x| *x) && c.iter().filter(|x| !**x).count() == 1 {
                            let mut m = m.clone();
                            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                            remove_continue(&mut rest);
                            for (a, c) in m.arms.iter_mut().zip(&c) {
                                if *c {
                                    a.body = parse_quote!({});
                                } else {
                                    let v = &a.body;
                                    let p = &l.pat;
                                    let st = &rest.stmts;
                                    a.body = parse_quote!({ let #p = #v; #(#st)* });
                                    a.comma = None;
                                }
                            }
                            b.stmts[i] = Stmt::Expr(Expr::Match(m), None);
                            return;
                        }
                    }
                    if let Some((_, d)) = &init.diverge {
                        let only = match &**d {
                            Expr::Block(x) => x.block.stmts.len() == 1 && ends_continue(&x.block),
                            Expr::Continue(_) => true,
                            _ => false,
                        };
                        if only {
                            let mut rest = Block { brace_token: Default::default(), stmts: b.stmts.split_off(i + 1) };
                            remove_continue(&mut rest);
                            let (p, e, st) = (&l.pat, &init.expr, &rest.stmts);
                            b.stmts[i] = parse_quote!(if let #p = #e { #(#st)* });
                            return;
                        }
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
}

impl Loops {
    fn fresh(&mut self) -> usize {
        self.n += 1;
        self.n
    }

    fn for_loop(&mut self, mut f: ExprForLoop) -> Vec<Stmt> {
        let mut pre: Vec<Stmt> = Vec::new();
        let mut head: Vec<Stmt> = Vec::new();
        if has_continue(&f.body) {
            remove_continue(&mut f.body);
        }
        loop {
            let e = (*f.expr).clone();
            match e {
                Expr::Paren(p) => f.expr = p.expr,
                Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => {
                    let (i, rest) = match &*f.pat {
                        Pat::Tuple(t) if t.elems.len() == 2 => (t.elems[0].clone(), t.elems[1].clone()),
                        _ => break,
                    };
                    if let Some(id) = pat_ident(&i) {
                        let c = format_ident!("__n_{}", id);
                        pre.push(parse_quote!(let mut #c: usize = 0;));
                        head.push(parse_quote!(let #id = #c;));
                        head.push(parse_quote!(#c = x_succ(#c);));
                    }
                    f.pat = Box::new(rest);
                    f.expr = m.receiver;
                }
                Expr::MethodCall(m) if m.method == "take_while" && m.args.len() == 1 => {
                    let cl = match &m.args[0] {
                        Expr::Closure(c) if c.inputs.len() == 1 => c.clone(),
                        _ => break,
                    };
                    // bind the item, test, break
                    let n = self.fresh();
                    let id = format_ident!("__vx_t{}", n);
                    let mut inner = cl.inputs[0].clone();
                    let mut depth = 0;
                    while let Pat::Reference(r) = inner {
                        inner = (*r.pat).clone();
                        depth += 1;
                    }
                    let pid = match pat_ident(&inner) {
                        Some(i) => i,
                        None => break,
                    };
                    // the closure receives `&item`: one reference more than the item itself
                    let val: Expr = match depth {
                        0 => parse_quote!(&#id),
                        1 => parse_quote!(#id),
                        2 => parse_quote!(*#id),
                        _ => break,
                    };
                    let body = &cl.body;
                    let mut h: Vec<Stmt> = vec![
                        parse_quote!(let __vx_c = { let #pid = #val; #body };),
                        parse_quote!(if !__vx_c { break; }),
                    ];
                    let mut pat = (*f.pat).clone();
                    if !matches!(pat, Pat::Wild(_)) {
                        let mut lets = Vec::new();
                        deref_pat(&mut pat, &mut self.n, &mut lets);
                        h.push(parse_quote!(let #pat = #id;));
                        h.extend(lets);
                    }
                    h.extend(std::mem::take(&mut head));
                    head = h;
                    f.pat = Box::new(parse_quote!(#id));
                    f.expr = m.receiver;
                }
                Expr::MethodCall(m) if m.method == "into_iter" && m.args.is_empty() => {
                    f.expr = m.receiver;
                }
                Expr::Reference(r) if r.mutability.is_some() => {
                    let x = &r.expr;
                    f.expr = parse_quote!(#x.iter_mut());
                }
                Expr::Reference(r) => {
                    // &E[..], &E.field of a standard collection; maps are handled by the shim's IntoIterator
                    match &*r.expr {
                        Expr::Index(_) => {
                            let x = &r.expr;
                            f.expr = parse_quote!(#x.iter());
                        }
                        _ => break,
                    }
                }
                _ => break,
            }
        }
        // the loop runs over a borrow of a value made for it: that value needs a name
        if let Expr::MethodCall(m) = &mut *f.expr {
            if m.args.is_empty() && (m.method == "iter" || m.method == "iter_mut") && matches!(&*m.receiver, Expr::Call(_) | Expr::MethodCall(_)) {
                let id = format_ident!("__vx_h{}", self.fresh());
                let e = &m.receiver;
                pre.push(if m.method == "iter" { parse_quote!(let #id = #e;) } else { parse_quote!(let mut #id = #e;) });
                m.receiver = parse_quote!(#id);
            }
        }
        let mut lets = Vec::new();
        let mut pat = (*f.pat).clone();
        deref_pat(&mut pat, &mut self.n, &mut lets);
        f.pat = Box::new(pat);
        let mut stmts = head;
        stmts.extend(lets);
        stmts.extend(std::mem::take(&mut f.body.stmts));
        f.body.stmts = stmts;
        pre.push(Stmt::Expr(Expr::ForLoop(f), None));
        pre
    }
}

impl VisitMut for Loops {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            match s {
                Stmt::Expr(Expr::ForLoop(f), _) => b.stmts.extend(self.for_loop(f)),
                s => b.stmts.push(s),
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

// ---------------------------------------------------------------------------------------------------
// callbacks as traces

struct Callbacks<'a> {
    ctx: &'a Ctx,
    /// name and argument types of the enclosing function's own callback parameter
    own: Option<(String, Vec<Type>)>,
    n: usize,
}

fn closure_of(e: &Expr) -> Option<ExprClosure> {
    match e {
        Expr::Reference(r) => closure_of(&r.expr),
        Expr::Paren(r) => closure_of(&r.expr),
        Expr::Closure(c) => Some(c.clone()),
        _ => None,
    }
}

impl<'a> Callbacks<'a> {
    fn own_name(&self, e: &Expr) -> bool {
        match (&self.own, e) {
            (Some((n, _)), Expr::Path(p)) => p.path.is_ident(n.as_str()),
            (Some(_), Expr::Reference(r)) => self.own_name(&r.expr),
            (Some(_), Expr::Paren(r)) => self.own_name(&r.expr),
            (Some(_), Expr::Unary(u)) if matches!(u.op, UnOp::Deref(_)) => self.own_name(&u.expr),
            _ => false,
        }
    }

    fn producer_call(&self, e: &Expr) -> Option<(Expr, Expr, Vec<Type>)> {
        // (call without its callback argument, callback argument, argument types)
        match e {
            Expr::MethodCall(m) => {
                let (i, args) = self.ctx.callbacks.get(&(m.method.to_string(), m.args.len()))?;
                if *i >= m.args.len() {
                    return None;
                }
                let cb = m.args[*i].clone();
                if closure_of(&cb).is_none() && !self.own_name(&cb) {
                    return None;
                }
                let mut m = m.clone();
                m.args = m.args.iter().enumerate().filter(|(k, _)| k != i).map(|(_, a)| a.clone()).collect();
                Some((Expr::MethodCall(m), cb, args.clone()))
            }
            Expr::Call(c) => {
                let p = match &*c.func {
                    Expr::Path(p) => p,
                    _ => return None,
                };
                let (i, args) = self.ctx.callbacks.get(&(p.path.segments.last()?.ident.to_string(), c.args.len()))?;
                if *i >= c.args.len() {
                    return None;
                }
                let cb = c.args[*i].clone();
                if closure_of(&cb).is_none() && !self.own_name(&cb) {
                    return None;
                }
                let mut c = c.clone();
                c.args = c.args.iter().enumerate().filter(|(k, _)| k != i).map(|(_, a)| a.clone()).collect();
                Some((Expr::Call(c), cb, args.clone()))
            }
            Expr::Await(a) => {
                let (c, cb, args) = self.producer_call(&a.base)?;
                Some((parse_quote!(#c.await), cb, args))
            }
            _ => None,
        }
    }
}

impl<'a> VisitMut for Callbacks<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // arms and branches whose value is the producer call
        if self.producer_call(e).is_some() {
            let mut b: Block = Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), None)] };
            self.visit_block_mut(&mut b);
            if b.stmts.len() == 1 {
                if let Stmt::Expr(x, _) = &b.stmts[0] {
                    *e = x.clone();
                    return;
                }
            }
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: b });
            return;
        }
        if let Expr::Call(c) = e {
            if self.own_name(&c.func) {
                let args = &self.own.as_ref().unwrap().1;
                let vals: Vec<Expr> = c
                    .args
                    .iter()
                    .zip(args)
                    .map(|(v, t)| match t {
                        Type::Reference(_) => match v {
                            Expr::Reference(r) if r.mutability.is_none() => {
                                let x = &r.expr;
                                parse_quote!((#x).clone())
                            }
                            _ => parse_quote!((#v).clone()),
                        },
                        _ => v.clone(),
                    })
                    .collect();
                *e = if vals.len() == 1 {
                    let v = &vals[0];
                    parse_quote!(__vx_trace.push(#v))
                } else {
                    parse_quote!(__vx_trace.push((#(#vals),*)))
                };
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for s in stmts {
            if let Stmt::Expr(e, _) = &s {
                if let Some((mut call, cb, args)) = self.producer_call(e) {
                    visit_mut::visit_expr_mut(self, &mut call);
                    if self.own_name(&cb) {
                        b.stmts.push(parse_quote!(__vx_trace.x_extend(#call);));
                        continue;
                    }
                    if let Some(c) = closure_of(&cb) {
                        let mut pats: Vec<Pat> = Vec::new();
                        let mut lets: Vec<Stmt> = Vec::new();
                        for (k, (p, t)) in c.inputs.iter().zip(&args).enumerate() {
                            let p = match p {
                                Pat::Type(t) => (*t.pat).clone(),
                                p => p.clone(),
                            };
                            if matches!(t, Type::Reference(_)) && !matches!(p, Pat::Wild(_)) {
                                let id = format_ident!("__vx_e{}_{}", self.n, k);
                                pats.push(parse_quote!(#id));
                                match p {
                                    Pat::Reference(r) => {
                                        let q = &r.pat;
                                        lets.push(parse_quote!(let #q = #id;));
                                    }
                                    p => lets.push(parse_quote!(let #p = &#id;)),
                                }
                            } else {
                                pats.push(p);
                            }
                        }
                        let src = format_ident!("__vx_src{}", self.n);
                        self.n += 1;
                        let body = &c.body;
                        let mut body: Vec<Stmt> = match &**body {
                            Expr::Block(b) => b.block.stmts.clone(),
                            x => vec![parse_quote!(#x;)],
                        };
                        if let Some(Stmt::Expr(x, None)) = body.last().cloned() {
                            if matches!(x, Expr::Call(_) | Expr::MethodCall(_)) {
                                let k = body.len() - 1;
                                body[k] = Stmt::Expr(x, Some(Default::default()));
                            }
                        }
                        let pat: Pat = if pats.len() == 1 {
                            pats[0].clone()
                        } else {
                            parse_quote!((#(#pats),*))
                        };
                        let mut lp: ExprForLoop = parse_quote!(for #pat in #src { #(#lets)* #(#body)* });
                        visit_mut::visit_block_mut(self, &mut lp.body);
                        let mut inner = Block { brace_token: Default::default(), stmts: std::mem::take(&mut lp.body.stmts) };
                        self.visit_block_mut(&mut inner);
                        lp.body = inner;
                        b.stmts.push(parse_quote!(let #src = #call;));
                        b.stmts.push(Stmt::Expr(Expr::ForLoop(lp), None));
                        continue;
                    }
                }
            }
            let mut s = s;
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
        }
    }
}

/// drops the callback parameter and its generic parameter, makes the function return its trace
fn callback_sig(sig: &mut Signature) -> Option<(String, Vec<Type>)> {
    let (i, name, args) = callback_param(sig)?;
    let ty = match &sig.inputs[i] {
        FnArg::Typed(p) => norm(&p.ty),
        _ => unreachable!(),
    };
    sig.inputs = sig.inputs.iter().enumerate().filter(|(k, _)| *k != i).map(|(_, a)| a.clone()).collect();
    let g: Vec<GenericParam> = sig
        .generics
        .params
        .iter()
        .filter(|g| match g {
            GenericParam::Type(t) => !(ty == t.ident.to_string() || ty == format!("&mut{}", t.ident)),
            _ => true,
        })
        .cloned()
        .collect();
    sig.generics.params = g.into_iter().collect();
    if sig.generics.params.is_empty() {
        sig.generics.lt_token = None;
        sig.generics.gt_token = None;
    }
    let t = trace_type(&args);
    sig.output = parse_quote!(-> #t);
    Some((name, args))
}

// ---------------------------------------------------------------------------------------------------
// iterator parameters: a generic `impl Iterator<Item = T>` argument is materialised

// ---------------------------------------------------------------------------------------------------
// `X.into_iter().map(|p| body).collect()` as a value -> loop

struct MapCollect {
    n: usize,
}
enum Adapter {
    Map(ExprClosure),
    Filter(ExprClosure),
    Flatten,
}
/// leaves the closure it is in
fn returns(e: &Expr) -> bool {
    struct V(bool);
    impl<'ast> Visit<'ast> for V {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}
/// the source of an adapter chain and its adapters, first one first
fn adapters(e: &Expr) -> Option<(Expr, Vec<Adapter>)> {
    let m = match e {
        Expr::MethodCall(m) => m,
        Expr::Paren(p) => return adapters(&p.expr),
        _ => return Some((e.clone(), vec![])),
    };
    if m.args.iter().any(returns) {
        return Some((e.clone(), vec![]));
    }
    let a = match (m.method.to_string().as_str(), m.args.len()) {
        ("map", 1) => Adapter::Map(match &m.args[0] {
            // a function by name
            Expr::Path(p) => parse_quote!(|__vx_a| #p(__vx_a)),
            a => closure_of(a)?,
        }),
        ("filter", 1) => Adapter::Filter(closure_of(&m.args[0])?),
        ("flatten", 0) => Adapter::Flatten,
        _ => return Some((e.clone(), vec![])),
    };
    let (src, mut v) = adapters(&m.receiver)?;
    v.push(a);
    Some((src, v))
}
impl MapCollect {
    fn fresh(&mut self, p: &str) -> Ident {
        self.n += 1;
        format_ident!("__vx_{}{}", p, self.n)
    }
    /// `for x in src { adapters; v.push(x) }`
    fn chain(&mut self, src: Expr, mut a: std::collections::VecDeque<Adapter>, v: &Ident) -> Option<Stmt> {
        let (pat, mut stmts, item): (Pat, Vec<Stmt>, Ident) = match a.pop_front() {
            Some(Adapter::Map(cl)) => {
                let x = self.fresh("x");
                let mut stmts: Vec<Stmt> = Vec::new();
                let tail: Expr = match &*cl.body {
                    Expr::Block(b) => {
                        stmts = b.block.stmts.clone();
                        match stmts.pop() {
                            Some(Stmt::Expr(t, None)) => t,
                            _ => return None,
                        }
                    }
                    b => b.clone(),
                };
                stmts.push(parse_quote!(let #x = #tail;));
                (cl.inputs[0].clone(), stmts, x)
            }
            first => {
                let x = self.fresh("x");
                if let Some(f) = first {
                    a.push_front(f);
                }
                (parse_quote!(#x), vec![], x)
            }
        };
        stmts.extend(self.rest(item, a, v)?);
        Some(parse_quote!(for #pat in #src { #(#stmts)* }))
    }
    fn rest(&mut self, x: Ident, mut a: std::collections::VecDeque<Adapter>, v: &Ident) -> Option<Vec<Stmt>> {
        Some(match a.pop_front() {
            None => vec![parse_quote!(#v.push(#x);)],
            Some(Adapter::Map(cl)) => {
                let y = self.fresh("x");
                let (p, body) = (&cl.inputs[0], &cl.body);
                let mut s: Vec<Stmt> = vec![parse_quote!(let #y = { let #p = #x; #body };)];
                s.extend(self.rest(y, a, v)?);
                s
            }
            Some(Adapter::Filter(cl)) => {
                let c = self.fresh("c");
                let (p, body) = (&cl.inputs[0], &cl.body);
                let s = self.rest(x.clone(), a, v)?;
                vec![parse_quote!(let #c = { let #p = &#x; #body };), parse_quote!(if #c { #(#s)* })]
            }
            Some(Adapter::Flatten) if a.is_empty() => vec![parse_quote!(#v.x_extend(#x);)],
            Some(Adapter::Flatten) => vec![self.chain(parse_quote!(#x), a, v)?],
        })
    }
}
impl VisitMut for MapCollect {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        // what `into_iter()` gives is read as the collection itself: both yield its elements in order
        if let Expr::MethodCall(m) = e {
            if m.method == "into_iter" && m.args.is_empty() {
                *e = (*m.receiver).clone();
                return;
            }
        }
        let new: Option<Expr> = (|| {
            let c = match e {
                Expr::MethodCall(m) if m.method == "collect" || m.method == "__vx_try_collect" => m,
                _ => return None,
            };
            let (src, mut a) = adapters(&c.receiver)?;
            if a.is_empty() {
                return None;
            }
            let v = self.fresh("v");
            if c.method == "__vx_try_collect" {
                // the first error is returned, the values before it are dropped
                let x = self.fresh("x");
                a.push(Adapter::Map(parse_quote!(|#x| match #x {
                    Ok(__vx_ok) => __vx_ok,
                    Err(__vx_err) => return Err(__vx_err),
                })));
                let lp = self.chain(src, a.into(), &v)?;
                return Some(parse_quote!({
                    let mut #v = Vec::new();
                    #lp
                    Ok(#v)
                }));
            }
            let lp = self.chain(src, a.into(), &v)?;
            Some(parse_quote!({
                let mut #v = Vec::new();
                #lp
                #v
            }))
        })();
        if let Some(n) = new {
            *e = n;
        }
    }
}

// ---------------------------------------------------------------------------------------------------
// inserting the overlay

/// the closures that are arguments of `x.method("literal", ..)`, and their numbers
#[derive(Default)]
struct NamedClosures {
    n: usize,
    found: std::collections::BTreeMap<String, usize>,
}
impl<'ast> Visit<'ast> for NamedClosures {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let key = match m.args.first() {
            Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => Some(format!("{} {}", m.method, s.value())),
            _ => None,
        };
        self.visit_expr(&m.receiver);
        for a in &m.args {
            if let (Some(k), Expr::Closure(_)) = (&key, a) {
                self.found.insert(k.clone(), self.n);
            }
            self.visit_expr(a);
        }
    }
    fn visit_expr_closure(&mut self, c: &'ast ExprClosure) {
        self.n += 1;
        visit::visit_expr_closure(self, c);
    }
}

struct Markers<'a> {
    key: &'a str,
    spec: &'a FnSpec,
    n: usize,
    nc: usize,
    /// closures with a contract get a name, so that the contract of the function they are passed to can be used
    hoisted: Vec<Stmt>,
    found: Vec<usize>,
    ctx: &'a mut Ctx,
}

fn at_text(spec: &FnSpec, anchor: &str) -> Option<usize> {
    spec.at.iter().position(|(a, _)| a == anchor)
}

impl<'a> Markers<'a> {
    fn at_stmt(&mut self, i: usize) -> Stmt {
        self.found.push(i);
        let k = format!("at:{}:{}", self.key, i);
        self.ctx.texts.insert(k.clone(), self.spec.at[i].1.clone());
        parse_quote!(__vx_at!(#k);)
    }
    fn all(&self, anchor: &str) -> Vec<usize> {
        self.spec.at.iter().enumerate().filter(|(_, (a, _))| a == anchor).map(|(i, _)| i).collect()
    }
    fn loop_body(&mut self, n: usize, body: &mut Block) {
        let k = format!("loop:{}:{}", self.key, n);
        if let Some(t) = self.spec.loops.get(&n) {
            self.ctx.texts.insert(k.clone(), t.clone());
        }
        let mut stmts: Vec<Stmt> = vec![parse_quote!(__vx_loop!(#k);)];
        for i in self.all(&format!("loop {} start", n)) {
            let s = self.at_stmt(i);
            stmts.push(s);
        }
        stmts.extend(std::mem::take(&mut body.stmts));
        for i in self.all(&format!("loop {} end", n)) {
            let s = self.at_stmt(i);
            if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() {
                if semi.is_none() {
                    *semi = Some(Default::default());
                }
            }
            stmts.push(s);
        }
        body.stmts = stmts;
    }
}

fn calls_of(s: &Stmt) -> Vec<String> {
    // names of functions and methods called in this statement, not inside nested blocks
    struct V(Vec<String>);
    impl<'ast> Visit<'ast> for V {
        fn visit_block(&mut self, _: &'ast Block) {}
        fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
            self.0.push(m.method.to_string());
            visit::visit_expr_method_call(self, m);
        }
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
            visit::visit_expr_call(self, c);
        }
    }
    let mut v = V(vec![]);
    v.visit_stmt(s);
    v.0
}

fn let_names(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|e| let_names(e, out)),
        Pat::Type(t) => let_names(&t.pat, out),
        Pat::TupleStruct(t) => t.elems.iter().for_each(|e| let_names(e, out)),
        _ => {}
    }
}

impl<'a> Markers<'a> {
    fn block(&mut self, b: &mut Block, counts: &mut std::collections::BTreeMap<String, usize>) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let mut before: Vec<Stmt> = Vec::new();
            let mut after: Vec<Stmt> = Vec::new();
            // anchors on calls
            for c in calls_of(&s) {
                let n = counts.entry(format!("call {}", c)).or_insert(0);
                *n += 1;
                let n = *n;
                for suffix in ["before", "after"] {
                    let mut names = vec![format!("call {}#{} {}", c, n, suffix)];
                    if n == 1 {
                        names.push(format!("call {} {}", c, suffix));
                    }
                    for a in names {
                        for i in self.all(&a) {
                            let m = self.at_stmt(i);
                            if suffix == "before" {
                                before.push(m)
                            } else {
                                after.push(m)
                            }
                        }
                    }
                }
            }
            if let Stmt::Local(l) = &s {
                let mut names = Vec::new();
                let_names(&l.pat, &mut names);
                for nm in names {
                    let n = counts.entry(format!("let {}", nm)).or_insert(0);
                    *n += 1;
                    let n = *n;
                    for (a, bef) in [
                        (format!("let {}#{}", nm, n), false),
                        (format!("let {}#{} before", nm, n), true),
                        (if n == 1 { format!("let {}", nm) } else { String::new() }, false),
                        (if n == 1 { format!("let {} before", nm) } else { String::new() }, true),
                    ] {
                        for i in self.all(&a) {
                            let m = self.at_stmt(i);
                            if bef {
                                before.push(m)
                            } else {
                                after.push(m)
                            }
                        }
                    }
                }
            }
            // loops as statements
            let is_loop = match &s {
                Stmt::Expr(e, _) => matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)),
                _ => false,
            };
            if is_loop {
                let n = self.n;
                for i in self.all(&format!("loop {} before", n)) {
                    let m = self.at_stmt(i);
                    before.push(m);
                }
                for i in self.all(&format!("loop {} after", n)) {
                    let m = self.at_stmt(i);
                    after.push(m);
                }
            }
            let saved = std::mem::take(&mut self.hoisted);
            self.stmt(&mut s, counts);
            let mut before = before;
            let mut lets = std::mem::replace(&mut self.hoisted, saved);
            lets.append(&mut before);
            let before = lets;
            let tail = matches!(&s, Stmt::Expr(_, None)) && !is_loop;
            if tail && !after.is_empty() {
                if let Stmt::Expr(e, None) = &s {
                    if matches!(e, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) {
                        // may be a unit statement in the middle of a block
                        s = Stmt::Expr(e.clone(), Some(Default::default()));
                    }
                }
            }
            b.stmts.extend(before);
            b.stmts.push(s);
            b.stmts.extend(after);
        }
    }

    fn stmt(&mut self, s: &mut Stmt, counts: &mut std::collections::BTreeMap<String, usize>) {
        struct W<'b, 'a> {
            m: &'b mut Markers<'a>,
            counts: &'b mut std::collections::BTreeMap<String, usize>,
        }
        impl<'b, 'a> VisitMut for W<'b, 'a> {
            fn visit_block_mut(&mut self, b: &mut Block) {
                self.m.block(b, self.counts);
            }
            fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
                let n = self.m.n;
                self.m.n += 1;
                self.visit_expr_mut(&mut f.expr);
                self.m.block(&mut f.body, self.counts);
                let e = &f.expr;
                let nl = LitInt::new(&n.to_string(), Span::call_site());
                f.expr = parse_quote!(__vx_it!(#nl, #e));
                self.m.loop_body(n, &mut f.body);
            }
            fn visit_expr_mut(&mut self, e: &mut Expr) {
                let n = self.m.nc;
                visit_mut::visit_expr_mut(self, e);
                if matches!(e, Expr::Closure(_)) && self.m.spec.closures.contains_key(&n) {
                    let id = format_ident!("__vx_c{}", n);
                    let c = std::mem::replace(e, parse_quote!(#id));
                    self.m.hoisted.push(parse_quote!(let #id = #c;));
                }
            }
            fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
                let n = self.m.nc;
                self.m.nc += 1;
                let Some((name, ty, text, ptypes)) = self.m.spec.closures.get(&n).cloned() else {
                    for (i, p) in c.inputs.iter_mut().enumerate() {
                        if let Pat::Wild(_) = p {
                            let id = format_ident!("__vx_w{}", i);
                            *p = parse_quote!(#id);
                        }
                    }
                    visit_mut::visit_expr_closure_mut(self, c);
                    return;
                };
                // |(a, b)| e  =>  |__p0| { let (a, b) = __p0; e }
                let mut lets: Vec<Stmt> = vec![];
                for (i, p) in c.inputs.iter_mut().enumerate() {
                    let (pat, t) = match &*p {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), ptypes.get(i).map(|t| syn::parse_str::<Type>(t).unwrap())),
                    };
                    if !matches!(pat, Pat::Ident(_)) || ptypes.get(i).is_some() {
                        let id = format_ident!("__p{}", i);
                        lets.push(parse_quote!(let #pat = #id;));
                        *p = match t {
                            Some(t) => Pat::Type(PatType { attrs: vec![], pat: Box::new(parse_quote!(#id)), colon_token: Default::default(), ty: Box::new(t) }),
                            None => parse_quote!(#id),
                        };
                    }
                }
                let mut body: Block = match &*c.body {
                    Expr::Block(b) => b.block.clone(),
                    e => parse_quote!({ #e }),
                };
                self.m.block(&mut body, self.counts);
                let k = format!("closure:{}:{}", self.m.key, n);
                self.m.ctx.texts.insert(k.clone(), text);
                let mut stmts: Vec<Stmt> = vec![parse_quote!(__vx_loop!(#k);)];
                for i in self.m.all(&format!("closure {} start", n)) {
                    let s = self.m.at_stmt(i);
                    stmts.push(s);
                }
                stmts.extend(lets);
                let mut tail = vec![];
                for i in self.m.all(&format!("closure {} end", n)) {
                    tail.push(self.m.at_stmt(i));
                }
                if let (false, Some(Stmt::Expr(_, None))) = (tail.is_empty(), body.stmts.last()) {
                    let e = body.stmts.pop().unwrap();
                    body.stmts.extend(tail);
                    body.stmts.push(e);
                }
                stmts.extend(body.stmts);
                c.body = Box::new(parse_quote!({ #(#stmts)* }));
                let id = format_ident!("__vxr_{}", name);
                let ty: Type = syn::parse_str(&ty).unwrap();
                c.output = parse_quote!(-> __VxRet<(#id, #ty)>);
            }
            fn visit_expr_while_mut(&mut self, f: &mut ExprWhile) {
                let n = self.m.n;
                self.m.n += 1;
                self.visit_expr_mut(&mut f.cond);
                self.m.block(&mut f.body, self.counts);
                self.m.loop_body(n, &mut f.body);
            }
            fn visit_expr_loop_mut(&mut self, f: &mut ExprLoop) {
                let n = self.m.n;
                self.m.n += 1;
                self.m.block(&mut f.body, self.counts);
                self.m.loop_body(n, &mut f.body);
            }
        }
        W { m: self, counts }.visit_stmt_mut(s);
    }
}

// ---------------------------------------------------------------------------------------------------

/// `let X = ..;` at the top level of a function, where X is a parameter: the new binding becomes X1 (X2, ..),
/// so that contracts of the parameter and of the binding can be told apart
fn unshadow(sig: &Signature, body: &mut Block) {
    struct R<'a> {
        from: &'a str,
        to: Ident,
    }
    impl<'a> VisitMut for R<'a> {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.qself.is_none() && p.path.is_ident(self.from) {
                let to = &self.to;
                p.path = parse_quote!(#to);
            }
            visit_mut::visit_expr_path_mut(self, p);
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
            if p.ident == self.from {
                p.ident = self.to.clone();
            }
            visit_mut::visit_pat_ident_mut(self, p);
        }
        fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
            f.colon_token = Some(Default::default());
            visit_mut::visit_field_value_mut(self, f);
        }
        fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
            f.colon_token = Some(Default::default());
            visit_mut::visit_field_pat_mut(self, f);
        }
        fn visit_macro_mut(&mut self, m: &mut Macro) {
            use proc_macro2::{TokenStream, TokenTree};
            fn go(ts: TokenStream, from: &str, to: &Ident) -> TokenStream {
                ts.into_iter()
                    .map(|t| match t {
                        TokenTree::Ident(i) if i == from => TokenTree::Ident(to.clone()),
                        TokenTree::Group(g) => TokenTree::Group(proc_macro2::Group::new(g.delimiter(), go(g.stream(), from, to))),
                        t => t,
                    })
                    .collect()
            }
            m.tokens = go(std::mem::take(&mut m.tokens), self.from, &self.to);
        }
    }
    for a in &sig.inputs {
        let FnArg::Typed(p) = a else { continue };
        let Pat::Ident(i) = &*p.pat else { continue };
        let name = i.ident.to_string();
        let mut n = 0usize;
        let mut cur = name.clone();
        for k in 0..body.stmts.len() {
            let shadows = match &body.stmts[k] {
                Stmt::Local(l) => {
                    let mut v = vec![];
                    let_names(&l.pat, &mut v);
                    v.contains(&cur)
                }
                _ => false,
            };
            if shadows {
                n += 1;
                let next = format_ident!("{}{}", name, n);
                let mut r = R { from: &cur, to: next.clone() };
                if let Stmt::Local(l) = &mut body.stmts[k] {
                    r.visit_pat_mut(&mut l.pat);
                }
                for s in body.stmts[k + 1..].iter_mut() {
                    r.visit_stmt_mut(s);
                }
                cur = next.to_string();
            }
        }
    }
}

/// `for x in p` where p is a parameter of type `impl ..Iterator<Item = &T>`: x is a reference, and as an
/// operand of an arithmetic or bit operator it is dereferenced (what the reference impls of the operators do)
fn deref_items(sig: &Signature, body: &mut Block) {
    let mut params = Vec::new();
    for a in &sig.inputs {
        let FnArg::Typed(p) = a else { continue };
        let Pat::Ident(i) = &*p.pat else { continue };
        let t = norm(&p.ty);
        if t.contains("Iterator<Item=&") {
            params.push(i.ident.to_string());
        }
    }
    struct B(Ident);
    impl VisitMut for B {
        fn visit_expr_binary_mut(&mut self, b: &mut ExprBinary) {
            visit_mut::visit_expr_binary_mut(self, b);
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) {
                return;
            }
            for e in [&mut b.left, &mut b.right] {
                let is = matches!(&**e, Expr::Path(p) if p.path.is_ident(&self.0));
                if is {
                    let i = &self.0;
                    **e = parse_quote!((*#i));
                }
            }
        }
    }
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
            visit_mut::visit_expr_for_loop_mut(self, f);
            let Expr::Path(p) = &*f.expr else { return };
            let Some(id) = p.path.get_ident() else { return };
            if !self.0.contains(&id.to_string()) {
                return;
            }
            if let Some(i) = pat_ident(&f.pat) {
                B(i).visit_block_mut(&mut f.body);
            }
        }
    }
    V(params).visit_block_mut(body);
}

struct Texts(Vec<String>);
impl<'a> syn::visit::Visit<'a> for Texts {
    fn visit_lit_str(&mut self, l: &'a LitStr) {
        self.0.push(l.value());
    }
}

/// `unwrap` and `expect` as an obligation `there is a value || may_panic()`
struct Unwraps;
impl VisitMut for Unwraps {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if (m.method == "unwrap" && m.args.is_empty()) || (m.method == "expect" && m.args.len() == 1) {
                let x = &m.receiver;
                *e = parse_quote!(x_unwrap(#x));
            }
        }
    }
}

/// `&t[a..b]` where t is a parameter of type &str and is bound to nothing else
fn text_slices(sig: &Signature, body: &mut Block) {
    let mut params = Vec::new();
    for a in &sig.inputs {
        let FnArg::Typed(p) = a else { continue };
        let Pat::Ident(i) = &*p.pat else { continue };
        if matches!(&*p.ty, Type::Reference(r) if r.mutability.is_none() && norm(&r.elem) == "str") {
            params.push(i.ident.to_string());
        }
    }
    let bound = names::of(sig, Some(body)).locals;
    params.retain(|p| !bound.contains(p));
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let x = match e {
                Expr::Reference(r) if r.mutability.is_none() => &r.expr,
                _ => return,
            };
            let Expr::Index(i) = &**x else { return };
            let Expr::Path(p) = &*i.expr else { return };
            let Some(id) = p.path.get_ident() else { return };
            let Expr::Range(g) = &*i.index else { return };
            if !self.0.contains(&id.to_string()) || !matches!(g.limits, RangeLimits::HalfOpen(_)) {
                return;
            }
            let new: Expr = match (&g.start, &g.end) {
                (Some(a), Some(b)) => parse_quote!(x_sub(#id, #a, #b)),
                (None, Some(b)) => parse_quote!(x_sub(#id, 0, #b)),
                (Some(a), None) => parse_quote!(x_sub_from(#id, #a)),
                _ => return,
            };
            *e = new;
        }
    }
    V(params).visit_block_mut(body);
}

pub struct FnCtx<'a> {
    pub o: &'a Overlay,
    pub key: String,
    pub in_trait: bool,
    pub trait_impl: bool,
}

use crate::names;
fn transform_fn(ctx: &mut Ctx, f: &FnCtx, attrs: &mut Vec<Attribute>, vis: Option<&mut Visibility>, sig: &mut Signature, body: Option<&mut Block>) {
    attrs.clear();
    let full = format!("{}::{}", f.o.module, f.key);
    let has_spec = f.o.fns.contains_key(&f.key);
    let spec = f.o.fns.get(&f.key).cloned().unwrap_or_default();
    Logs.visit_signature_mut(sig);
    Exprs { ctx }.visit_signature_mut(sig);
    let own = callback_sig(sig);
    for (n, t) in &spec.params {
        // override of a parameter's type (documented per use)
        let t: Type = parse_str(t).unwrap();
        for a in sig.inputs.iter_mut() {
            match a {
                FnArg::Typed(p) if norm(&p.pat).trim_start_matches("mut") == n => p.ty = Box::new(t.clone()),
                FnArg::Receiver(r) if n == "self" => {
                    let s = norm(&t);
                    *r = if s.starts_with("&mut") { parse_quote!(&mut self) } else { parse_quote!(&self) };
                }
                _ => {}
            }
        }
    }
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(p) = a {
            if let Pat::Wild(_) = &*p.pat {
                let id = format_ident!("__vx_arg{}", k);
                p.pat = Box::new(parse_quote!(#id));
            }
        }
    }
    if let Some(v) = vis {
        if !f.trait_impl && !f.in_trait {
            *v = parse_quote!(pub);
        }
    }
    let mut status = if has_spec { "spec" } else { "nospec" };
    let mut atext = String::new();
    for a in &spec.attrs {
        atext.push_str(a);
        atext.push('\n');
    }
    let demoted = ctx.demote.contains(&full);
    let ret = spec.ret.clone();
    if let Some(body) = body {
        if demoted || spec.external {
            status = if demoted { "demoted" } else { "external" };
            atext.push_str("#[verifier::external_body]\n");
            *body = parse_quote!({ unimplemented!() });
            // mut bindings are irrelevant in a body-less function
            for a in sig.inputs.iter_mut() {
                if let FnArg::Typed(p) = a {
                    if let Pat::Ident(i) = &mut *p.pat {
                        i.mutability = None;
                    }
                }
            }
        } else {
            let mut texts = Texts(vec![]);
            texts.visit_block(body);
            for l in &spec.literals {
                if !texts.0.contains(l) {
                    ctx.lost.insert(format!("{}\tliteral {}", full, l));
                }
            }
            if spec.unwraps {
                Unwraps.visit_block_mut(body);
            }
            unshadow(sig, body);
            deref_items(sig, body);
            text_slices(sig, body);
            VecOpen.visit_block_mut(body);
            Logs.visit_block_mut(body);
            let mut cb = Callbacks { ctx, own: own.clone(), n: 0 };
            cb.visit_block_mut(body);
            if let Some((_, args)) = &own {
                let t = trace_type(args);
                if let Some(Stmt::Expr(e, semi)) = body.stmts.last_mut() {
                    if semi.is_none() && !matches!(e, Expr::ForLoop(_) | Expr::If(_) | Expr::While(_) | Expr::Match(_) | Expr::Block(_)) {
                        *semi = Some(Default::default());
                    }
                }
                let stmts = std::mem::take(&mut body.stmts);
                *body = parse_quote!({ let mut __vx_trace: #t = Vec::new(); #(#stmts)* __vx_trace });
            }
            if norm(&sig.output).starts_with("->Result<Vec<") {
                if let Some(Stmt::Expr(Expr::MethodCall(m), None)) = body.stmts.last_mut() {
                    if m.method == "collect" && m.turbofish.is_none() {
                        m.method = format_ident!("__vx_try_collect");
                    }
                }
            }
            BoundCalls::of(body).visit_block_mut(body);
            if sig.ident != "into_iter" {
                MapCollect { n: 0 }.visit_block_mut(body);
            }
            let mut lp = Loops { n: 0 };
            lp.visit_block_mut(body);
            RefPats { n: 100 }.visit_block_mut(body);
            Exprs { ctx }.visit_block_mut(body);
            VecClose.visit_block_mut(body);
            let now = names::of(sig, Some(body));
            let renamed = names::renamed(ctx, &full, &now);
            let mut spec = spec.clone();
            if !renamed.is_empty() && names::rename_hints(&renamed, &mut spec) {
                let l: Vec<String> = renamed.iter().map(|(a, b)| format!("{} for {}", b, a)).collect();
                ctx.lost.insert(format!("{}\tnames guessed: {}", full, l.join(", ")));
            }
            ctx.names.push((full.clone(), now));
            let named = std::mem::take(&mut spec.named_closures);
            if !named.is_empty() {
                let mut v = NamedClosures::default();
                v.visit_block(body);
                for (k, name) in named {
                    if let (Some(n), Some(c)) = (v.found.get(&name), spec.closures.get(&k).cloned()) {
                        spec.closures.remove(&k);
                        spec.closures.insert(*n, c);
                    }
                }
            }
            let mut m = Markers { key: &full, spec: &spec, n: 0, nc: 0, hoisted: vec![], found: vec![], ctx };
            let mut counts = Default::default();
            m.block(body, &mut counts);
            let nloops = m.n;
            let nclosures = m.nc;
            let mut head: Vec<Stmt> = Vec::new();
            for i in m.all("start") {
                let s = m.at_stmt(i);
                head.push(s);
            }
            let probing = m.ctx.probe && has_spec;
            if probing {
                m.ctx.texts.insert("x_probe".into(), "if x_any() { proof { assert(false); /* x_probe */ } }\n".into());
                head.push(parse_quote!(__vx_at!("x_probe");));
            }
            let mut tail: Vec<Stmt> = Vec::new();
            for i in m.all("end") {
                let s = m.at_stmt(i);
                tail.push(s);
            }
            let mut rets: Vec<Stmt> = Vec::new();
            for i in m.all("ret") {
                let s = m.at_stmt(i);
                rets.push(s);
            }
            let found = m.found.clone();
            for (i, (a, _)) in spec.at.iter().enumerate() {
                if !found.contains(&i) {
                    ctx.lost.insert(format!("{}\tat {}", full, a));
                }
            }
            for n in spec.closures.keys() {
                if *n >= nclosures {
                    ctx.lost.insert(format!("{}\tclosure {}", full, n));
                }
            }
            for n in spec.loops.keys() {
                if *n >= nloops {
                    ctx.lost.insert(format!("{}\tloop {}", full, n));
                }
            }
            for n in 0..nloops {
                if !spec.loops.contains_key(&n) && has_spec {
                    ctx.lost.insert(format!("{}\tnew-loop {}", full, n));
                }
            }
            let mut stmts = std::mem::take(&mut body.stmts);
            let unit = matches!(sig.output, ReturnType::Default) || norm(&sig.output) == "->()";
            if !tail.is_empty() || !rets.is_empty() {
                match stmts.last() {
                    Some(Stmt::Expr(e, None)) if !unit => {
                        let e = e.clone();
                        stmts.pop();
                        if !rets.is_empty() {
                            stmts.extend(tail);
                            stmts.push(parse_quote!(let __vx_r = #e;));
                            stmts.extend(rets);
                            stmts.push(Stmt::Expr(parse_quote!(__vx_r), None));
                        } else {
                            stmts.extend(tail);
                            stmts.push(Stmt::Expr(e, None));
                        }
                    }
                    _ => {
                        if let Some(Stmt::Expr(_, semi)) = stmts.last_mut() {
                            *semi = Some(Default::default());
                        }
                        stmts.extend(tail);
                        stmts.extend(rets);
                    }
                }
            }
            head.extend(stmts);
            body.stmts = head;
            if probing {
                Probes.visit_block_mut(body);
            }
        }
    } else {
        status = "decl";
    }
    // calls of these methods are redirected to the shim's traits; the crate's own methods of that name follow
    if sig.inputs.len() == 1 && sig.receiver().is_some() {
        let n = sig.ident.to_string();
        if ["to_vec", "to_le_bytes"].contains(&n.as_str()) {
            sig.ident = format_ident!("x_{}", n);
        }
    }
    if let Some(r) = ret {
        let id = format_ident!("__vxr_{}", r);
        match &sig.output {
            ReturnType::Default => sig.output = parse_quote!(-> __VxRet<(#id, ())>),
            ReturnType::Type(_, t) => sig.output = parse_quote!(-> __VxRet<(#id, #t)>),
        }
    }
    let renamed = names::renamed(ctx, &full, &names::of(sig, None));
    ctx.texts.insert(format!("spec:{}", full), names::rename(&renamed, &spec.spec));
    ctx.texts.insert(format!("attrs:{}", full), atext);
    attrs.push(parse_quote!(#[vx_fn(#full)]));
    ctx.functions.push(FnInfo { key: full, status: status.into() });
}

/// `assert(false)` on a branch of its own after every statement: all of them must fail, or what follows is vacuous
struct Probes;
impl VisitMut for Probes {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let old = std::mem::take(&mut b.stmts);
        for st in old {
            let plain = match &st {
                Stmt::Local(_) => true,
                Stmt::Expr(e, Some(_)) => !matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_)),
                Stmt::Expr(e, None) => matches!(e, Expr::ForLoop(_) | Expr::While(_)),
                Stmt::Macro(m) => m.mac.path.is_ident("__vx_loop"),
                _ => false,
            };
            b.stmts.push(st);
            if plain {
                b.stmts.push(parse_quote!(__vx_at!("x_probe");));
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

fn derives(attrs: &[Attribute]) -> Vec<String> {
    let mut v = Vec::new();
    for a in attrs {
        if a.path().is_ident("derive") {
            let _ = a.parse_nested_meta(|m| {
                v.push(m.path.segments.last().unwrap().ident.to_string());
                Ok(())
            });
        }
    }
    v
}

fn derived_items(d: &[String], ident: &Ident, g: &Generics, o: &Overlay) -> (Vec<Attribute>, TokenStream) {
    let mut attrs: Vec<Attribute> = Vec::new();
    let mut items = TokenStream::new();
    let (ig, tg, wc) = g.split_for_impl();
    if o.drop.contains(&format!("derive {}", ident)) {
        return (attrs, items);
    }
    let has = |s: &str| d.iter().any(|x| x == s);
    let mut keep: Vec<Ident> = Vec::new();
    if has("Copy") {
        keep.push(format_ident!("Copy"));
        keep.push(format_ident!("Clone"));
    } else if has("Clone") {
        items.extend(quote! {
            impl #ig Clone for #ident #tg #wc {
                #[verifier::external_body]
                #[vx_fn("derive_clone")]
                fn clone(&self) -> __VxRet<(__vxr_r, Self)> { unimplemented!() }
            }
        });
    }
    if has("PartialEq") {
        items.extend(quote! {
            impl #ig PartialEq for #ident #tg #wc {
                #[verifier::external_body]
                fn eq(&self, other: &Self) -> bool { unimplemented!() }
            }
        });
        let key = format!("eqspec:{}:{}", ident, norm(&tg));
        items.extend(quote! { __vx_items!(#key); });
    }
    if has("Debug") {
        keep.push(format_ident!("Debug"));
    }
    if has("Eq") {
        keep.push(format_ident!("Eq"));
    }
    if has("Hash") {
        items.extend(quote! {
            impl #ig core::hash::Hash for #ident #tg #wc {
                #[verifier::external_body]
                fn hash<__H: core::hash::Hasher>(&self, state: &mut __H) { unimplemented!() }
            }
        });
    }
    if has("Hash") && has("PartialEq") && has("Eq") {
        // derived equality and hash agree: the type can be the key of a hash map
        items.extend(quote! { impl #ig crate::shim::XKey for #ident #tg #wc {} });
    }
    if !keep.is_empty() {
        attrs.push(parse_quote!(#[derive(#(#keep),*)]));
    }
    (attrs, items)
}

pub fn transform(ctx: &mut Ctx, o: &Overlay, f: File) -> TokenStream {
    ctx.texts.insert("spec:derive_clone".into(), "ensures r == *self,".into());
    let mut out = TokenStream::new();
    let mut seen: std::collections::BTreeSet<String> = Default::default();
    let mut seen_impls: std::collections::BTreeSet<String> = Default::default();
    for item in f.items {
        match item {
            Item::Use(u) => {
                if let Some(t) = drop_use(ctx, o, &u.tree, "") {
                    let mut u = u;
                    u.tree = t;
                    // glob-visible to sibling modules
                    u.vis = match u.vis {
                        Visibility::Inherited => Visibility::Inherited,
                        _ => parse_quote!(pub),
                    };
                    out.extend(quote!(#[allow(unused_imports)] #u));
                }
            }
            Item::Struct(mut s) => {
                let d = derives(&s.attrs);
                let (a, extra) = derived_items(&d, &s.ident, &s.generics, o);
                if o.known.contains(&format!("key {}", s.ident)) && !["Hash", "PartialEq", "Eq"].iter().all(|x| d.iter().any(|y| y == x)) {
                    ctx.lost.insert(format!("{}\timpl Hash for {}", o.module, s.ident));
                }
                s.attrs = a;
                s.vis = parse_quote!(pub);
                for fl in s.fields.iter_mut() {
                    fl.vis = parse_quote!(pub);
                    fl.attrs.clear();
                }
                eq_text(ctx, &s.ident, &s.generics);
                struct_types(ctx, o, &mut s);
                let k = format!("attrs-type:{}:{}", o.module, s.ident);
                ctx.texts.insert(k.clone(), o.impls.get(&format!("type {}", s.ident)).cloned().unwrap_or_default());
                seen_impls.insert(format!("type {}", s.ident));
                out.extend(quote!(__vx_items!(#k); #s #extra));
            }
            Item::Enum(mut s) => {
                let d = derives(&s.attrs);
                let (a, extra) = derived_items(&d, &s.ident, &s.generics, o);
                if o.known.contains(&format!("key {}", s.ident)) && !["Hash", "PartialEq", "Eq"].iter().all(|x| d.iter().any(|y| y == x)) {
                    ctx.lost.insert(format!("{}\timpl Hash for {}", o.module, s.ident));
                }
                s.attrs = a;
                s.vis = parse_quote!(pub);
                for v in s.variants.iter_mut() {
                    v.attrs.clear();
                    for fl in v.fields.iter_mut() {
                        fl.attrs.clear();
                    }
                }
                eq_text(ctx, &s.ident, &s.generics);
                out.extend(quote!(#s #extra));
            }
            Item::Type(mut t) => {
                t.vis = parse_quote!(pub);
                out.extend(quote!(#t));
            }
            Item::Const(c) => {
                let key = c.ident.to_string();
                seen.insert(key.clone());
                let id = format_ident!("__vxconst_{}", c.ident);
                let mut c = c;
                if let Type::Path(p) = &mut *c.ty {
                    let s = p.path.segments.last_mut().unwrap();
                    if s.arguments.is_empty() && ctx.lifetimed.contains(&s.ident.to_string()) {
                        s.arguments = PathArguments::AngleBracketed(parse_quote!(<'static>));
                    }
                }
                if let Type::Reference(r) = &mut *c.ty {
                    r.lifetime = Some(parse_quote!('static));
                }
                let (t, e) = (&c.ty, &c.expr);
                // `&[u8; N]` constants initialised with a byte string
                let mut x: ItemFn = parse_quote!(pub const fn #id() -> #t { #e });
                let fc = FnCtx { o, key, in_trait: false, trait_impl: false };
                transform_fn(ctx, &fc, &mut x.attrs, Some(&mut x.vis), &mut x.sig, Some(&mut x.block));
                out.extend(quote!(#x));
            }
            Item::Fn(mut x) => {
                let key = x.sig.ident.to_string();
                seen.insert(key.clone());
                let fc = FnCtx { o, key, in_trait: false, trait_impl: false };
                transform_fn(ctx, &fc, &mut x.attrs, Some(&mut x.vis), &mut x.sig, Some(&mut x.block));
                out.extend(quote!(#x));
            }
            Item::Trait(mut t) => {
                t.attrs.clear();
                t.vis = parse_quote!(pub);
                let name = t.ident.to_string();
                for i in t.items.iter_mut() {
                    if let TraitItem::Fn(m) = i {
                        let key = format!("{}::{}", name, m.sig.ident);
                        seen.insert(key.clone());
                        let fc = FnCtx { o, key, in_trait: true, trait_impl: false };
                        transform_fn(ctx, &fc, &mut m.attrs, None, &mut m.sig, m.default.as_mut());
                    }
                }
                let k = format!("trait:{}:{}", o.module, name);
                ctx.texts.insert(k.clone(), o.impls.get(&name).cloned().unwrap_or_default());
                seen_impls.insert(name);
                let m: TraitItem = parse_quote!(__vx_items!(#k););
                t.items.insert(0, m);
                out.extend(quote!(#t));
            }
            Item::Impl(mut i) => {
                i.attrs.clear();
                let ik = impl_key(&i);
                if o.impls.contains_key(&format!("inherent {}", ik)) {
                    // `impl Trait for T` taken over as inherent methods
                    i.trait_ = None;
                    let assoc: Vec<(String, Type)> = i
                        .items
                        .iter()
                        .filter_map(|x| match x {
                            ImplItem::Type(t) => Some((t.ident.to_string(), t.ty.clone())),
                            _ => None,
                        })
                        .collect();
                    i.items.retain(|x| !matches!(x, ImplItem::Type(_)));
                    struct A(Vec<(String, Type)>);
                    impl VisitMut for A {
                        fn visit_type_mut(&mut self, t: &mut Type) {
                            visit_mut::visit_type_mut(self, t);
                            let s = norm(t);
                            for (n, ty) in &self.0 {
                                if s == format!("Self::{}", n) {
                                    *t = ty.clone();
                                }
                            }
                        }
                    }
                    let mut a = A(assoc);
                    for _ in 0..2 {
                        a.visit_item_impl_mut(&mut i);
                    }
                }
                seen_impls.insert(ik.clone());
                seen_impls.insert(format!("inherent {}", ik));
                let trait_impl = i.trait_.is_some();
                for x in i.items.iter_mut() {
                    if let ImplItem::Fn(m) = x {
                        let key = format!("{}::{}", ik, m.sig.ident);
                        seen.insert(key.clone());
                        let fc = FnCtx { o, key, in_trait: false, trait_impl };
                        transform_fn(ctx, &fc, &mut m.attrs, Some(&mut m.vis), &mut m.sig, Some(&mut m.block));
                    }
                }
                if i.items.iter().all(|x| !matches!(x, ImplItem::Fn(_))) && !trait_impl {
                    continue;
                }
                let k = format!("impl:{}:{}", o.module, ik);
                let mut text = o.impls.get(&ik).cloned().unwrap_or_default();
                if let Some(t) = o.impls.get(&format!("inherent {}", ik)) {
                    text.push_str(t);
                }
                // ghost items go into the first impl block with that key only
                if ctx.texts.contains_key(&k) {
                    text = String::new();
                }
                let k = if ctx.texts.contains_key(&k) { format!("{}:again", k) } else { k };
                ctx.texts.insert(k.clone(), text);
                let m: ImplItem = parse_quote!(__vx_items!(#k););
                i.items.insert(0, m);
                out.extend(quote!(#i));
            }
            _ => {}
        }
    }
    for k in o.fns.keys() {
        if !seen.contains(k) {
            ctx.lost.insert(format!("{}::{}\tgone", o.module, k));
        }
    }
    for k in o.impls.keys() {
        if !seen_impls.contains(k) {
            ctx.lost.insert(format!("{}\timpl {}", o.module, k));
        }
    }
    out
}

fn struct_types(_ctx: &mut Ctx, _o: &Overlay, _s: &mut ItemStruct) {}

fn eq_text(ctx: &mut Ctx, ident: &Ident, g: &Generics) {
    let (ig, tg, wc) = g.split_for_impl();
    let key = format!("eqspec:{}:{}", ident, norm(&tg));
    ctx.texts.insert(
        key,
        format!(
            "impl {} vstd::std_specs::cmp::PartialEqSpecImpl for {} {} {} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, other: &Self) -> bool {{ *self == *other }} }}\n",
            ig.to_token_stream(),
            ident,
            tg.to_token_stream(),
            wc.to_token_stream()
        ),
    );
}

fn drop_use(ctx: &Ctx, o: &Overlay, t: &UseTree, prefix: &str) -> Option<UseTree> {
    match t {
        UseTree::Path(p) => {
            let sub = drop_use(ctx, o, &p.tree, &format!("{}{}::", prefix, p.ident))?;
            let mut p = p.clone();
            p.tree = Box::new(sub);
            Some(UseTree::Path(p))
        }
        UseTree::Group(g) => {
            let mut g = g.clone();
            g.items = g.items.iter().filter_map(|t| drop_use(ctx, o, t, prefix)).collect();
            if g.items.is_empty() {
                None
            } else {
                Some(UseTree::Group(g))
            }
        }
        UseTree::Name(n) => {
            if ctx.dropuse.contains(&format!("{}:{}", o.module, n.ident)) {
                None
            } else {
                Some(t.clone())
            }
        }
        _ => Some(t.clone()),
    }
}
