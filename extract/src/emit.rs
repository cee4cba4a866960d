//! Prints the transformed items, formats them, and substitutes the overlay texts.
use crate::overlay::Overlay;
use crate::Ctx;
use proc_macro2::TokenStream;
use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};

struct Node {
    body: Option<String>,
    top: String,
    children: BTreeMap<String, Node>,
}

fn rustfmt(s: &str) -> String {
    let mut child = Command::new("rustfmt")
        .args(["--edition", "2021", "--config", "max_width=140"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("rustfmt");
    let mut stdin = child.stdin.take().unwrap();
    let text = s.to_string();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(text.as_bytes());
    });
    let out = child.wait_with_output().unwrap();
    t.join().unwrap();
    if !out.status.success() {
        eprintln!("rustfmt failed: {}", String::from_utf8_lossy(&out.stderr));
        eprintln!("{}", s);
        std::process::exit(3);
    }
    String::from_utf8(out.stdout).unwrap()
}

/// index just after the parenthesis matching the one at `open`
fn matching(s: &[u8], open: usize) -> usize {
    let mut depth = 0i32;
    let mut i = open;
    while i < s.len() {
        match s[i] {
            b'(' | b'[' | b'{' => depth += 1,
            b')' | b']' | b'}' => {
                depth -= 1;
                if depth == 0 {
                    return i + 1;
                }
            }
            b'"' => {
                i += 1;
                while s[i] != b'"' {
                    if s[i] == b'\\' {
                        i += 1;
                    }
                    i += 1;
                }
            }
            _ => {}
        }
        i += 1;
    }
    panic!("unbalanced");
}

/// the keys of the markers are replaced by short names, so that lines stay short enough for rustfmt
fn shorten(s: &str, names: &mut Vec<String>) -> String {
    let mut out = String::new();
    let mut rest = s;
    loop {
        let next = ["__vx_at ! (", "__vx_loop ! (", "__vx_items ! (", "vx_fn ("].iter().filter_map(|m| rest.find(m).map(|p| p + m.len())).min();
        let Some(p) = next else { break };
        let q = p + rest[p..].find('"').unwrap() + 1;
        let e = q + rest[q..].find('"').unwrap();
        out.push_str(&rest[..q]);
        out.push_str(&format!("k{}", names.len()));
        names.push(rest[q..e].to_string());
        rest = &rest[e..];
    }
    out.push_str(rest);
    out
}
fn long(names: &[String], k: &str) -> String {
    names[k[1..].parse::<usize>().unwrap()].clone()
}

fn substitute(ctx: &Ctx, mut s: String, names: &[String]) -> String {
    // __vx_it!(N, EXPR)  ->  itN: EXPR
    while let Some(p) = s.find("__vx_it!") {
        let open = p + "__vx_it!".len();
        let end = matching(s.as_bytes(), open);
        let inner = s[open + 1..end - 1].trim().to_string();
        let (n, e) = inner.split_once(',').unwrap();
        let e = e.trim().trim_end_matches(',').to_string();
        s.replace_range(p..end, &format!("it{}: {}", n.trim(), e));
    }
    // `{ __vx_loop!("key");` -> SPEC {
    while let Some(p) = s.find("__vx_loop!") {
        let open = p + "__vx_loop!".len();
        let end = matching(s.as_bytes(), open);
        let key = s[open + 1..end - 1].trim().trim_end_matches(',').trim_matches('"').to_string();
        let key = long(names, &key);
        let mut e2 = end;
        if s.as_bytes()[e2] == b';' {
            e2 += 1;
        }
        let brace = s[..p].rfind('{').unwrap();
        assert!(s[brace + 1..p].trim().is_empty(), "loop marker not at start: {}", &s[brace..e2]);
        let text = ctx.texts.get(&key).cloned().unwrap_or_default();
        s.replace_range(brace..e2, &format!("\n{}\n{{", text.trim_end()));
    }
    // __vx_at!("key");
    for name in ["__vx_at!", "__vx_items!"] {
        while let Some(p) = s.find(name) {
            let open = p + name.len();
            let end = matching(s.as_bytes(), open);
            let key = s[open + 1..end - 1].trim().trim_end_matches(',').trim_matches('"').to_string();
            let key = long(names, &key);
            let mut e2 = end;
            if e2 < s.len() && s.as_bytes()[e2] == b';' {
                e2 += 1;
            }
            let text = ctx.texts.get(&key).cloned().unwrap_or_default();
            s.replace_range(p..e2, &text);
        }
    }
    // #[vx_fn("key")] ... signature
    while let Some(p) = s.find("#[vx_fn") {
        let open = p + "#[vx_fn".len();
        let aend = matching(s.as_bytes(), p + 1);
        let kend = matching(s.as_bytes(), open);
        let key = s[open + 1..kend - 1].trim().trim_end_matches(',').trim_matches('"').to_string();
        let key = long(names, &key);
        // signature end: first `{` or `;` at depth 0
        let b = s.as_bytes();
        let mut i = aend;
        let mut depth = 0;
        while i < b.len() {
            match b[i] {
                b'(' | b'[' => depth += 1,
                b')' | b']' => depth -= 1,
                b'{' if depth == 0 => break,
                b';' if depth == 0 => break,
                _ => {}
            }
            i += 1;
        }
        let spec = ctx.texts.get(&format!("spec:{}", key)).cloned().unwrap_or_default();
        let attrs = ctx.texts.get(&format!("attrs:{}", key)).cloned().unwrap_or_default();
        s.insert_str(i, &format!("\n{}\n", spec.trim_end()));
        s.replace_range(p..aend, &format!("// VXFN {}\n{}", key, attrs));
    }
    // constants
    while let Some(p) = s.find("pub const fn __vxconst_") {
        let a = p + "pub const fn __vxconst_".len();
        let e = s[a..].find("() ->").unwrap() + a;
        let name = s[a..e].to_string();
        s.replace_range(p..e + "() ->".len(), &format!("pub exec const {}:", name));
    }
    // -> __VxRet<(name, T)>  ->  -> (name: T)
    while let Some(p) = s.find("__VxRet<") {
        let open = p + "__VxRet<".len();
        let b = s.as_bytes();
        let mut depth = 1;
        let mut i = open;
        while depth > 0 {
            match b[i] {
                b'<' | b'(' | b'[' => depth += 1,
                b'>' if b[i - 1] != b'-' => depth -= 1,
                b')' | b']' => depth -= 1,
                _ => {}
            }
            i += 1;
        }
        let inner = s[open..i - 1].trim().to_string();
        let inner = inner.trim().trim_end_matches(',').trim();
        let inner = inner[1..inner.len() - 1].trim().trim_end_matches(',').to_string();
        let (n, t) = inner.split_once(',').unwrap();
        let n = n.trim().trim_start_matches("__vxr_").to_string();
        let t = t.trim().to_string();
        s.replace_range(p..i, &format!("({}: {})", n, t));
    }
    s
}

fn print(node: &Node, name: &str, out: &mut String, ghost_top: &str) {
    if !name.is_empty() {
        out.push_str(&format!("pub mod {} {{\n", name));
        out.push_str("#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::*;\n");
    }
    out.push_str("verus! {\n");
    if !node.top.is_empty() {
        out.push_str(&format!("// VXGHOST {}\n", if name.is_empty() { "root" } else { name }));
        out.push_str(&node.top);
    }
    out.push_str(ghost_top);
    if let Some(b) = &node.body {
        out.push_str("// VXCODE\n");
        out.push_str(b);
    }
    out.push_str("\n} // verus!\n");
    for (n, c) in &node.children {
        print(c, n, out, "");
    }
    if !name.is_empty() {
        out.push_str(&format!("}} // mod {}\n", name));
    }
}

pub fn emit(ctx: &mut Ctx, modules: BTreeMap<String, (Overlay, TokenStream)>, root: &str) -> String {
    let mut tree = Node { body: None, top: String::new(), children: BTreeMap::new() };
    for (m, (o, ts)) in modules {
        let mut names = Vec::new();
        let text = rustfmt(&shorten(&ts.to_string(), &mut names));
        let mut text = substitute(ctx, text, &names);
        for (a, b) in &o.replace {
            if !text.contains(a.as_str()) {
                ctx.notes.push(format!("replace pattern {:?} not found in {}", a, o.file));
            }
            text = text.replace(a.as_str(), b);
        }
        let mut node = &mut tree;
        for part in m.split("::") {
            node = node
                .children
                .entry(part.to_string())
                .or_insert(Node { body: None, top: String::new(), children: BTreeMap::new() });
        }
        node.body = Some(text);
        node.top = o.top.clone();
    }
    let mut out = String::new();
    out.push_str("// GENERATED on every run by /verif/extract from the repository's sources. Do not edit.\n");
    out.push_str(root);
    let children = std::mem::take(&mut tree.children);
    for (n, c) in &children {
        print(c, n, &mut out, "");
    }
    out.push_str("fn main() {}\n");
    out
}
