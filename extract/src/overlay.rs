//! Overlay files: contracts keyed by function, inserted at structural anchors.
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct FnSpec {
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    /// closures, in the order they appear: name and type of the result, contract
    pub closures: BTreeMap<usize, (String, String, String, Vec<String>)>,
    /// closures named by the call they are an argument of, "method first-argument" (numbered from 1000)
    pub named_closures: BTreeMap<usize, String>,
    /// anchor -> text.  Anchors: start, end, loop N before|after|start|end, let NAME
    pub at: Vec<(String, String)>,
    pub external: bool,
    pub params: Vec<(String, String)>,
    /// literals that the hints speak of
    pub literals: Vec<String>,
    /// its `unwrap`s may stop it
    pub unwraps: bool,
    /// number of loops the annotations were written for
    pub used: bool,
}

#[derive(Default, Clone, Debug)]
pub struct Overlay {
    pub file: String,
    pub module: String,
    pub top: String,
    pub drop: Vec<String>,
    pub only: Vec<String>,
    pub fns: BTreeMap<String, FnSpec>,
    /// ghost items inserted in an impl or trait
    pub impls: BTreeMap<String, String>,
    pub uses: Option<String>,
    pub replace: Vec<(String, String)>,
    pub known: Vec<String>,
    /// `Arc<T>` is read as T
    pub noarcs: bool,
    /// tokio's locks are kept as locks
    pub locks: bool,
}

pub fn load_dir(dir: &str) -> Vec<Overlay> {
    let mut names: Vec<_> = std::fs::read_dir(dir)
        .unwrap()
        .map(|e| e.unwrap().path())
        .filter(|p| p.extension().map(|e| e == "vs").unwrap_or(false))
        .collect();
    names.sort();
    names.iter().map(|p| parse(&std::fs::read_to_string(p).unwrap(), p.to_str().unwrap())).collect()
}

fn parse(text: &str, name: &str) -> Overlay {
    let mut o = Overlay::default();
    let mut cur_fn: Option<String> = None;
    // where raw text goes
    enum Sink {
        None,
        Top,
        Impl(String),
        Spec,
        Loop(usize),
        Closure(usize),
        At(usize),
        Uses,
    }
    let mut sink = Sink::None;
    for line in text.lines() {
        let t = line.trim_start();
        if let Some(d) = t.strip_prefix("//@ ") {
            let d = d.trim();
            let (cmd, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            sink = Sink::None;
            match cmd {
                "file" => {
                    o.file = rest.to_string();
                    let m = rest.trim_end_matches(".rs").trim_end_matches("/mod").replace('/', "::");
                    o.module = m;
                }
                "top" => sink = Sink::Top,
                "uses" => {
                    o.uses = Some(String::new());
                    sink = Sink::Uses
                }
                "drop" => o.drop.push(rest.to_string()),
                "only" => o.only.push(rest.to_string()),
                "noarcs" => o.noarcs = true,
                "locks" => o.locks = true,
                "module" => o.module = rest.to_string(),
                "known" => o.known.push(rest.to_string()),
                "replace" => {
                    let (a, b) = rest.split_once(" => ").unwrap();
                    o.replace.push((a.trim().to_string(), b.trim().to_string()));
                }
                "impl" | "trait" => {
                    o.impls.insert(rest.to_string(), String::new());
                    sink = Sink::Impl(rest.to_string());
                }
                "fn" => {
                    assert!(!o.fns.contains_key(rest), "{}: duplicate fn {}", name, rest);
                    o.fns.insert(rest.to_string(), FnSpec::default());
                    cur_fn = Some(rest.to_string());
                    sink = Sink::Spec;
                }
                "spec" => sink = Sink::Spec,
                "ret" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.ret = Some(rest.to_string());
                    sink = Sink::Spec
                }
                "attr" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.attrs.push(rest.to_string());
                    sink = Sink::Spec
                }
                "literal" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.literals.push(rest.to_string());
                    sink = Sink::Spec
                }
                "unwraps" => {
                    o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap().unwraps = true;
                    sink = Sink::Spec
                }
                "param" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    let (a, b) = rest.split_once(": ").unwrap();
                    f.params.push((a.to_string(), b.to_string()));
                    sink = Sink::Spec
                }
                "external" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.external = true;
                    sink = Sink::Spec
                }
                "loop" => {
                    let n: usize = rest.parse().unwrap();
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.loops.insert(n, String::new());
                    sink = Sink::Loop(n);
                }
                "closure" => {
                    // closure N name: Type [| parameter type ; parameter type ..]
                    let (rest, params) = rest.split_once(" | ").unwrap_or((rest, ""));
                    let params = params.split(" ; ").map(|t| t.trim().to_string()).filter(|t| !t.is_empty()).collect();
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    let (n, r) = match rest.strip_prefix('"') {
                        Some(q) => {
                            let (name, r) = q.split_once("\" ").unwrap();
                            let n = 1000 + f.named_closures.len();
                            f.named_closures.insert(n, name.to_string());
                            (n, r)
                        }
                        None => {
                            let (n, r) = rest.split_once(' ').unwrap();
                            (n.parse::<usize>().unwrap(), r)
                        }
                    };
                    let (a, b) = r.split_once(": ").unwrap();
                    f.closures.insert(n, (a.to_string(), b.to_string(), String::new(), params));
                    sink = Sink::Closure(n);
                }
                "at" => {
                    let f = o.fns.get_mut(cur_fn.as_ref().unwrap()).unwrap();
                    f.at.push((rest.to_string(), String::new()));
                    sink = Sink::At(f.at.len() - 1);
                }
                "#" => {}
                _ => panic!("{}: unknown directive {}", name, d),
            }
            continue;
        }
        let f = cur_fn.as_ref().map(|n| n.clone());
        let dst: Option<&mut String> = match &sink {
            Sink::None => None,
            Sink::Top => Some(&mut o.top),
            Sink::Uses => o.uses.as_mut(),
            Sink::Impl(k) => o.impls.get_mut(k),
            Sink::Spec => f.and_then(|f| o.fns.get_mut(&f)).map(|f| &mut f.spec),
            Sink::Loop(n) => o.fns.get_mut(&f.unwrap()).unwrap().loops.get_mut(n),
            Sink::Closure(n) => o.fns.get_mut(&f.unwrap()).unwrap().closures.get_mut(n).map(|c| &mut c.2),
            Sink::At(i) => Some(&mut o.fns.get_mut(&f.unwrap()).unwrap().at[*i].1),
        };
        match dst {
            Some(s) => {
                s.push_str(line);
                s.push('\n');
            }
            None => {
                if !line.trim().is_empty() && !line.trim().starts_with("//") {
                    panic!("{}: stray text {:?}", name, line)
                }
            }
        }
    }
    assert!(!o.file.is_empty(), "{}: no file", name);
    o
}
