//@ file server.rs
//@ uses
//@ drop BoxedResponseFuture
//@ drop BoxedHandler
//@ drop BoxedDefaultHandler
//@ top
use std::sync::Arc;
use vstd::std_specs::iter::IteratorSpec;
broadcast use crate::shim::shim_axioms;
// ---- hyper, std: assumed
/// std's HashMap of strings
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { opaque: core::marker::PhantomData<(K, V)> }
pub type Params = Map<Seq<char>, Seq<char>>;
impl<V: View> HashMap<String, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V::V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r.m() == Map::<Seq<char>, V::V>::empty(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().insert(k@, v@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k@), r matches Some(v) ==> v@ == self.m()[k@],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool)
        ensures r == self.m().contains_key(k@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn extend(&mut self, other: HashMap<String, V>)
        ensures final(self).m() == old(self).m().union_prefer_right(other.m()),
    { unimplemented!() }
}
/// each entry once
pub open spec fn entries<V: View>(s: Seq<(&String, &V)>, m: Map<Seq<char>, V::V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == s[i].1@
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0@ != (#[trigger] s[j]).0@
}
impl<'a, V: View> IntoIterator for &'a HashMap<String, V> {
    type Item = (&'a String, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a String, &'a V)>;
    #[verifier::external_body]
    fn into_iter(self) -> (r: std::vec::IntoIter<(&'a String, &'a V)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, entries(r.remaining(), self.m()),
    { unimplemented!() }
}
#[derive(Debug)]
pub enum Method { GET, POST, Other }
impl PartialEq for Method {
    #[verifier::external_body]
    fn eq(&self, other: &Method) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Method) -> bool { *self == *other }
}
impl<'a> PartialEq<Method> for &'a Method {
    #[verifier::external_body]
    fn eq(&self, other: &Method) -> bool { unimplemented!() }
}
impl<'a> vstd::std_specs::cmp::PartialEqSpecImpl<Method> for &'a Method {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Method) -> bool { **self == *other }
}
#[derive(Debug)]
pub enum StatusCode { OK, BAD_REQUEST, NOT_FOUND, INTERNAL_SERVER_ERROR, Other }
#[verifier::external_body]
pub struct Uri { opaque: () }
impl Uri {
    pub uninterp spec fn s_path(&self) -> Seq<char>;
    pub uninterp spec fn s_query(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str)
        ensures r@ == self.s_path(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn query(&self) -> (r: Option<&str>)
        ensures r is Some <==> self.s_query() is Some, r matches Some(t) ==> self.s_query() == Some(t@),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Body { opaque: () }
pub trait XBody { spec fn text(&self) -> Seq<char>; }
impl XBody for Body { uninterp spec fn text(&self) -> Seq<char>; }
impl XInto<Body> for &str {
    open spec fn into_spec(self, r: Body) -> bool { r.text() == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (r: Body) { unimplemented!() }
}
impl XInto<Body> for String {
    open spec fn into_spec(self, r: Body) -> bool { r.text() == self@ }
    #[verifier::external_body]
    fn x_into(self) -> (r: Body) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Request<B> { opaque: core::marker::PhantomData<B> }
impl<B> Request<B> {
    pub uninterp spec fn s_method(&self) -> Method;
    pub uninterp spec fn s_uri(&self) -> Uri;
    #[verifier::external_body]
    pub fn method(&self) -> (r: &Method)
        ensures *r == self.s_method(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn uri(&self) -> (r: &Uri)
        ensures *r == self.s_uri(),
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(B)]
pub struct Response<B> { opaque: core::marker::PhantomData<B> }
#[verifier::external_body]
pub struct HttpError { opaque: () }
#[verifier::external]
impl std::fmt::Debug for HttpError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub struct Builder { opaque: () }
impl<B> Response<B> {
    pub uninterp spec fn status(&self) -> StatusCode;
    pub uninterp spec fn text(&self) -> Seq<char>;
}
impl Response<Body> {
    #[verifier::external_body]
    pub fn builder() -> (r: Builder)
        ensures r.s_status() == StatusCode::OK, r.fine(),
    { unimplemented!() }
}
impl Builder {
    pub uninterp spec fn s_status(&self) -> StatusCode;
    pub uninterp spec fn fine(&self) -> bool;
    #[verifier::external_body]
    pub fn status(self, s: StatusCode) -> (r: Builder)
        ensures r.s_status() == s, r.fine() == self.fine(),
    { unimplemented!() }
    /// the name and the value are well-formed (assumed of the literals in the code)
    #[verifier::external_body]
    pub fn header(self, name: &str, value: &str) -> (r: Builder)
        ensures r.s_status() == self.s_status(), r.fine() == self.fine(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn body<B: XBody>(self, b: B) -> (r: Result<Response<B>, HttpError>)
        ensures self.fine() ==> r is Ok, r matches Ok(x) ==> x.status() == self.s_status() && x.text() == b.text(),
    { unimplemented!() }
}
// ---- handlers: a boxed closure is what it was made from
pub type Asked<S> = (Request<Body>, HashMap<String, String>, Vec<u8>, Arc<S>);
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct BoxedHandler<S> { opaque: core::marker::PhantomData<S> }
impl<S> BoxedHandler<S> {
    pub uninterp spec fn accepts(&self, a: Asked<S>) -> bool;
    pub uninterp spec fn gives(&self, a: Asked<S>, r: Response<Body>) -> bool;
    /// it does what `h` does
    pub open spec fn wraps<H: Fn(Request<Body>, HashMap<String, String>, Vec<u8>, Arc<S>) -> Response<Body>>(&self, h: H) -> bool {
        &&& forall|a: Asked<S>| call_requires(h, a) ==> #[trigger] self.accepts(a)
        &&& forall|a: Asked<S>, r: Response<Body>| #[trigger] self.gives(a, r) ==> call_ensures(h, a, r)
    }
    #[verifier::external_body]
    pub fn x_call(&self, request: Request<Body>, parameters: HashMap<String, String>, body: Vec<u8>, state: Arc<S>) -> (r: Response<Body>)
        requires self.accepts((request, parameters, body, state)),
        ensures self.gives((request, parameters, body, state), r),
    { unimplemented!() }
}
pub type Unmatched<S> = (Request<Body>, Vec<u8>, Arc<S>);
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct BoxedDefaultHandler<S> { opaque: core::marker::PhantomData<S> }
impl<S> BoxedDefaultHandler<S> {
    pub uninterp spec fn accepts(&self, a: Unmatched<S>) -> bool;
    pub uninterp spec fn gives(&self, a: Unmatched<S>, r: Response<Body>) -> bool;
    pub open spec fn wraps<H: Fn(Request<Body>, Vec<u8>, Arc<S>) -> Response<Body>>(&self, h: H) -> bool {
        &&& forall|a: Unmatched<S>| call_requires(h, a) ==> #[trigger] self.accepts(a)
        &&& forall|a: Unmatched<S>, r: Response<Body>| #[trigger] self.gives(a, r) ==> call_ensures(h, a, r)
    }
    #[verifier::external_body]
    pub fn x_call(&self, request: Request<Body>, body: Vec<u8>, state: Arc<S>) -> (r: Response<Body>)
        requires self.accepts((request, body, state)),
        ensures self.gives((request, body, state), r),
    { unimplemented!() }
}
pub trait XBoxed<A, H>: Sized {
    spec fn boxed(&self, h: H) -> bool;
    fn x_box(h: H) -> (r: Self)
        ensures r.boxed(h);
}
impl<S, H: Fn(Request<Body>, HashMap<String, String>, Vec<u8>, Arc<S>) -> Response<Body>> XBoxed<Asked<S>, H> for BoxedHandler<S> {
    open spec fn boxed(&self, h: H) -> bool { self.wraps(h) }
    #[verifier::external_body]
    fn x_box(h: H) -> (r: Self) { unimplemented!() }
}
impl<S, H: Fn(Request<Body>, Vec<u8>, Arc<S>) -> Response<Body>> XBoxed<Unmatched<S>, H> for BoxedDefaultHandler<S> {
    open spec fn boxed(&self, h: H) -> bool { self.wraps(h) }
    #[verifier::external_body]
    fn x_box(h: H) -> (r: Self) { unimplemented!() }
}
pub fn x_boxed<A, H, T: XBoxed<A, H>>(h: H) -> (r: T)
    ensures r.boxed(h),
{ T::x_box(h) }
// ---- paths
pub open spec fn no_braces(t: Seq<char>) -> bool { !t.contains('{') && !t.contains('}') }
/// a pattern with one named hole
pub open spec fn holed(pattern: Seq<char>, pre: Seq<char>, name: Seq<char>, post: Seq<char>) -> bool {
    pattern == pre + seq!['{'] + name + seq!['}'] + post && no_braces(pre) && no_braces(name) && no_braces(post)
}
/// the hole takes one segment of the path
pub open spec fn fills(path: Seq<char>, pre: Seq<char>, post: Seq<char>, seg: Seq<char>) -> bool { path == pre + seg + post && !seg.contains('/') }
/// patterns that DynamicUri is made for
pub open spec fn is_pattern(t: Seq<char>) -> bool { no_braces(t) || exists|pre: Seq<char>, name: Seq<char>, post: Seq<char>| #[trigger] holed(t, pre, name, post) }
// ---- regular expressions: what is assumed of the crate, for the expressions that the code uses
/// a character that means something in a regular expression
pub open spec fn special(c: char) -> bool {
    c == '.' || c == '+' || c == '*' || c == '?' || c == '^' || c == '$' || c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}' || c == '|' || c == '\\'
}
pub open spec fn escaped_char(c: char) -> Seq<char> { if special(c) { seq!['\\', c] } else { seq![c] } }
pub open spec fn escaped(t: Seq<char>) -> Seq<char> { t.map_values(|c: char| escaped_char(c)).flatten() }
/// a piece of a path: any characters but slashes
pub open spec fn segment_re() -> Seq<char> { "([^/]*)"@ }
pub open spec fn plain_re(t: Seq<char>) -> Seq<char> { seq!['^'] + escaped(t) + seq!['$'] }
pub open spec fn holed_re(pre: Seq<char>, post: Seq<char>) -> Seq<char> { seq!['^'] + (escaped(pre) + segment_re() + escaped(post)) + seq!['$'] }
/// the groups of the first match, the whole of it first
pub uninterp spec fn re_groups(pattern: Seq<char>, text: Seq<char>) -> Option<Seq<Seq<char>>>;
/// where the successive matches are
pub uninterp spec fn re_found(pattern: Seq<char>, text: Seq<char>) -> Seq<(int, int)>;
/// the expression is one group around a class of characters
pub uninterp spec fn re_class(pattern: Seq<char>) -> Option<spec_fn(char) -> bool>;
pub axiom fn axiom_plain_re(t: Seq<char>)
    ensures
        re_valid(plain_re(t)),
        forall|path: Seq<char>| #[trigger] re_groups(plain_re(t), path) == (if path == t { Some(seq![path]) } else { None });
pub axiom fn axiom_holed_re(pre: Seq<char>, post: Seq<char>)
    ensures
        re_valid(holed_re(pre, post)),
        forall|path: Seq<char>| #[trigger] re_groups(holed_re(pre, post), path) is Some ==> exists|seg: Seq<char>| fills(path, pre, post, seg),
        forall|path: Seq<char>, seg: Seq<char>| #[trigger] fills(path, pre, post, seg) ==> re_groups(holed_re(pre, post), path) == Some(seq![path, seg]);
pub axiom fn axiom_hole_re(t: Seq<char>)
    ensures
        re_valid("\\{([^\\{]*)\\}"@),
        no_braces(t) ==> re_found("\\{([^\\{]*)\\}"@, t).len() == 0,
        forall|pre: Seq<char>, name: Seq<char>, post: Seq<char>| #[trigger] holed(t, pre, name, post) ==> re_found("\\{([^\\{]*)\\}"@, t) == seq![(pre.len() as int, (pre.len() + name.len() + 2) as int)];
pub axiom fn axiom_special_re()
    ensures
        re_valid("([\\.\\+\\*\\?\\^\\$\\(\\)\\[\\]\\{\\}\\|\\\\])"@),
        re_class("([\\.\\+\\*\\?\\^\\$\\(\\)\\[\\]\\{\\}\\|\\\\])"@) == Some(|c: char| special(c));
#[verifier::external_body]
pub struct Captures<'t> { opaque: &'t str }
impl<'t> Captures<'t> { pub uninterp spec fn groups(&self) -> Seq<Seq<char>>; }
impl<'t> vstd::std_specs::core::IndexSpecImpl<usize> for Captures<'t> {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self.groups().len() || may_panic() }
}
impl<'t> core::ops::Index<usize> for Captures<'t> {
    type Output = str;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &str)
        ensures i < self.groups().len(), r@ == self.groups()[i as int],
    { unimplemented!() }
}
mod regex { pub use super::Captures; }
#[verifier::external_body]
pub struct XMatch<'t> { opaque: &'t str }
impl<'t> XMatch<'t> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn at(&self) -> (int, int);
    /// a text has at most isize::MAX bytes
    #[verifier::external_body]
    pub fn range(&self) -> (r: core::ops::Range<usize>)
        ensures r.start == offset_of(self.text(), self.at().0), r.end == offset_of(self.text(), self.at().1), r.end <= isize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize)
        ensures r == offset_of(self.text(), self.at().0), r <= isize::MAX,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize)
        ensures r == offset_of(self.text(), self.at().1), r <= isize::MAX,
    { unimplemented!() }
}
/// what a character is replaced by
pub open spec fn replaced<F: Fn(&Captures) -> String>(class: spec_fn(char) -> bool, f: F, c: char, s: Seq<char>) -> bool {
    if class(c) { exists|g: Captures, x: String| g.groups() == seq![seq![c], seq![c]] && #[trigger] f.ensures((&g,), x) && x@ == s } else { s == seq![c] }
}
pub trait XRegex {
    spec fn source(&self) -> Seq<char>;
    fn find_iter<'t>(&self, text: &'t str) -> (r: Vec<XMatch<'t>>)
        ensures
            r@.len() == re_found(self.source(), text@).len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).text() == text@ && r@[i].at() == re_found(self.source(), text@)[i];
    fn captures<'t>(&self, text: &'t str) -> (r: Option<Captures<'t>>)
        ensures
            r is Some <==> re_groups(self.source(), text@) is Some,
            r matches Some(c) ==> Some(c.groups()) == re_groups(self.source(), text@);
    fn replace_all<'t, F: Fn(&Captures) -> String>(&self, text: &'t str, f: F) -> (r: Cow<'t, str>)
        requires forall|g: Captures| g.groups().len() == 2 ==> #[trigger] f.requires((&g,)),
        ensures
            re_class(self.source()) matches Some(class) ==> exists|m: Seq<Seq<char>>| {
                &&& m.len() == text@.len() && r.text() == m.flatten()
                &&& forall|i: int| 0 <= i < m.len() ==> replaced(class, f, text@[i], #[trigger] m[i])
            };
}
impl XRegex for Regex {
    open spec fn source(&self) -> Seq<char> { self.pattern() }
    #[verifier::external_body]
    fn find_iter<'t>(&self, text: &'t str) -> (r: Vec<XMatch<'t>>) { unimplemented!() }
    #[verifier::external_body]
    fn captures<'t>(&self, text: &'t str) -> (r: Option<Captures<'t>>) { unimplemented!() }
    #[verifier::external_body]
    fn replace_all<'t, F: Fn(&Captures) -> String>(&self, text: &'t str, f: F) -> (r: Cow<'t, str>) { unimplemented!() }
}
/// std's Cow of a text
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Cow<'t, T: ?Sized> { opaque: core::marker::PhantomData<&'t T> }
impl<'t> Cow<'t, str> {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(t: &'t str) -> (r: Self)
        ensures r.text() == t@,
    { unimplemented!() }
}
pub open spec fn joined(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { joined(l.drop_last(), sep) + sep + l.last() } }
pub open spec fn cow_texts<'t>(l: Seq<Cow<'t, str>>) -> Seq<Seq<char>> { l.map_values(|c: Cow<'t, str>| c.text()) }
pub trait XJoin {
    spec fn parts(&self) -> Seq<Seq<char>>;
    fn join(&self, sep: &str) -> (r: String)
        ensures r@ == joined(self.parts(), sep@);
}
impl<'t> XJoin for Vec<Cow<'t, str>> {
    open spec fn parts(&self) -> Seq<Seq<char>> { cow_texts(self@) }
    #[verifier::external_body]
    fn join(&self, sep: &str) -> (r: String) { unimplemented!() }
}
// ---- what a DynamicUri does
impl DynamicUri {
    /// the arguments that it takes from a path, if the path fits
    pub open spec fn args(&self, path: Seq<char>) -> Option<Params> {
        match re_groups(self.regex.pattern(), path) { Some(g) => Some(self.parameters.m().map_values(|i: usize| g[i as int])), None => None }
    }
    /// each parameter has a group
    pub open spec fn wf(&self) -> bool {
        forall|path: Seq<char>, k: Seq<char>| #![trigger re_groups(self.regex.pattern(), path), self.parameters.m().contains_key(k)]
            re_groups(self.regex.pattern(), path) is Some && self.parameters.m().contains_key(k) ==> self.parameters.m()[k] < re_groups(self.regex.pattern(), path)->0.len()
    }
    /// it takes the paths of this pattern
    pub open spec fn serves(&self, t: Seq<char>) -> bool {
        &&& no_braces(t) ==> forall|path: Seq<char>| #[trigger] self.args(path) == (if path == t { Some(Map::<Seq<char>, Seq<char>>::empty()) } else { None })
        &&& forall|pre: Seq<char>, name: Seq<char>, post: Seq<char>, path: Seq<char>| #![trigger holed(t, pre, name, post), self.args(path)]
            holed(t, pre, name, post) ==> (self.args(path) is Some <==> exists|seg: Seq<char>| fills(path, pre, post, seg))
        &&& forall|pre: Seq<char>, name: Seq<char>, post: Seq<char>, path: Seq<char>, seg: Seq<char>| #![trigger holed(t, pre, name, post), fills(path, pre, post, seg)]
            holed(t, pre, name, post) && fills(path, pre, post, seg) ==> self.args(path) == Some(map![name => seg])
        &&& self.wf()
    }
}
/// with no holes
pub proof fn lemma_plain(d: DynamicUri, t: Seq<char>)
    requires no_braces(t), d.regex.pattern() == plain_re(t), d.parameters.m() == Map::<Seq<char>, usize>::empty(),
    ensures d.serves(t),
{
    axiom_plain_re(t);
    assert forall|path: Seq<char>| #[trigger] d.args(path) == (if path == t { Some(Map::<Seq<char>, Seq<char>>::empty()) } else { None }) by {
        if path == t { assert(d.args(path)->0 =~= Map::<Seq<char>, Seq<char>>::empty()); }
    }
    assert forall|pre: Seq<char>, name: Seq<char>, post: Seq<char>| !#[trigger] holed(t, pre, name, post) by {
        if holed(t, pre, name, post) { assert(t[pre.len() as int] == '{'); }
    }
}
pub proof fn lemma_one_hole(t: Seq<char>, pre: Seq<char>, name: Seq<char>, post: Seq<char>, pre2: Seq<char>, name2: Seq<char>, post2: Seq<char>)
    requires holed(t, pre, name, post), holed(t, pre2, name2, post2),
    ensures pre == pre2, name == name2, post == post2, !no_braces(t),
{
    let (i, j) = (pre.len() as int, pre2.len() as int);
    assert(t[i] == '{' && t[j] == '{');
    if i < j { assert(pre2[i] == '{'); }
    if j < i { assert(pre[j] == '{'); }
    let (k, l) = (i + 1 + name.len(), j + 1 + name2.len());
    assert(t[k] == '}' && t[l] == '}');
    if k < l { assert(name2[k - j - 1] == '}'); }
    if l < k { assert(name[l - i - 1] == '}'); }
    assert(pre =~= t.take(i) && pre2 =~= t.take(j));
    assert(name =~= t.subrange(i + 1, k) && name2 =~= t.subrange(j + 1, l));
    assert(post =~= t.skip(k + 1) && post2 =~= t.skip(l + 1));
}
/// with one
pub proof fn lemma_holed(d: DynamicUri, t: Seq<char>, pre: Seq<char>, name: Seq<char>, post: Seq<char>)
    requires holed(t, pre, name, post), d.regex.pattern() == holed_re(pre, post), d.parameters.m() == Map::<Seq<char>, usize>::empty().insert(name, 1usize),
    ensures d.serves(t),
{
    axiom_holed_re(pre, post);
    lemma_one_hole(t, pre, name, post, pre, name, post);
    assert forall|path: Seq<char>, seg: Seq<char>| #[trigger] fills(path, pre, post, seg) implies d.args(path) == Some(map![name => seg]) by {
        let g = re_groups(d.regex.pattern(), path)->0;
        assert(g[1] == seg);
        assert(d.args(path)->0 =~= map![name => seg]);
    }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>, path: Seq<char>| #![trigger holed(t, a, b, c), d.args(path)]
        holed(t, a, b, c) implies (d.args(path) is Some <==> exists|seg: Seq<char>| fills(path, a, c, seg)) by { lemma_one_hole(t, pre, name, post, a, b, c); }
    assert forall|a: Seq<char>, b: Seq<char>, c: Seq<char>, path: Seq<char>, seg: Seq<char>| #![trigger holed(t, a, b, c), fills(path, a, c, seg)]
        holed(t, a, b, c) && fills(path, a, c, seg) implies d.args(path) == Some(map![b => seg]) by { lemma_one_hole(t, pre, name, post, a, b, c); }
    assert forall|path: Seq<char>, k: Seq<char>| #![trigger re_groups(d.regex.pattern(), path), d.parameters.m().contains_key(k)]
        re_groups(d.regex.pattern(), path) is Some && d.parameters.m().contains_key(k) implies d.parameters.m()[k] < re_groups(d.regex.pattern(), path)->0.len() by {
        let seg = choose|seg: Seq<char>| fills(path, pre, post, seg);
        assert(re_groups(d.regex.pattern(), path) == Some(seq![path, seg]));
    }
}
// ---- queries
/// a name and its value: what is before and after the first =
pub open spec fn name_of(part: Seq<char>) -> Seq<char> { cut_at(part, '=')[0] }
pub open spec fn value_of(part: Seq<char>) -> Seq<char> { if cut_at(part, '=').len() > 1 { cut_at(part, '=')[1] } else { Seq::empty() } }
/// of equal names the last one counts
pub open spec fn named(parts: Seq<Seq<char>>) -> Params
    decreases parts.len(),
{ if parts.len() == 0 { Map::empty() } else { named(parts.drop_last()).insert(name_of(parts.last()), value_of(parts.last())) } }
pub open spec fn query_args(q: Option<Seq<char>>) -> Params { match q { Some(t) => named(split_at(t, '&')), None => Map::empty() } }
/// the route is for this request
pub open spec fn meant<S>(t: Route<S>, q: Request<Body>) -> bool { t.method == q.s_method() && t.dynamic_uri.args(q.s_uri().s_path()) is Some }
/// what its handler is given: the query's parameters, and the path's over them
pub open spec fn given<S>(t: Route<S>, q: Request<Body>) -> Params {
    query_args(q.s_uri().s_query()).union_prefer_right(t.dynamic_uri.args(q.s_uri().s_path())->0)
}
/// the first route for this request
pub open spec fn first_for<S>(routes: Seq<Route<S>>, q: Request<Body>, i: int) -> bool {
    0 <= i < routes.len() && meant(routes[i], q) && forall|j: int| 0 <= j < i ==> !meant(#[trigger] routes[j], q)
}
pub open spec fn answered_by<S>(t: Route<S>, q: Request<Body>, p: HashMap<String, String>, b: Vec<u8>, s: Arc<S>, r: Response<Body>) -> bool {
    p.m() == given(t, q) && t.handler.gives((q, p, b, s), r)
}
/// a request that finds its handler is answered by it, any other one by the default or with 404
pub open spec fn routed<S>(t: Router<S>, q: Request<Body>, b: Vec<u8>, r: Response<Body>) -> bool {
    &&& forall|i: int| #[trigger] first_for(t.routes@, q, i) ==> exists|p: HashMap<String, String>| answered_by(t.routes@[i], q, p, b, t.state, r)
    &&& (forall|i: int| 0 <= i < t.routes@.len() ==> !meant(#[trigger] t.routes@[i], q)) ==> match t.default {
        Some(d) => d.gives((q, b, t.state), r),
        None => r.status() == StatusCode::NOT_FOUND,
    }
}
/// the handlers can be called with what they will be given
pub open spec fn ready_for<S>(t: Router<S>, q: Request<Body>, b: Vec<u8>) -> bool {
    &&& forall|i: int| 0 <= i < t.routes@.len() ==> (#[trigger] t.routes@[i]).dynamic_uri.wf()
    &&& forall|i: int, p: HashMap<String, String>| first_for(t.routes@, q, i) && p.m() == given(t.routes@[i], q) ==> #[trigger] t.routes@[i].handler.accepts((q, p, b, t.state))
    &&& t.default matches Some(d) ==> d.accepts((q, b, t.state))
}
/// `t` is `u` with this route at its end
pub open spec fn with_route<S, H: Fn(Request<Body>, HashMap<String, String>, Vec<u8>, Arc<S>) -> Response<Body>>(u: Router<S>, t: Router<S>, m: Method, uri: Seq<char>, h: H) -> bool {
    &&& t.state == u.state && t.default == u.default && t.routes@.len() == u.routes@.len() + 1 && t.routes@.drop_last() == u.routes@
    &&& is_route(t.routes@.last(), m, uri) && t.routes@.last().handler.wraps(h)
}
pub open spec fn is_route<S>(t: Route<S>, m: Method, uri: Seq<char>) -> bool { t.method == m && t.dynamic_uri.serves(uri) }
// ---- the server: hyper reads requests, calls the service for each and sends what it returns
#[verifier::external_body]
pub struct SocketAddr { opaque: () }
#[verifier::external_body]
pub struct Infallible { opaque: () }
#[verifier::external_body]
pub struct XConnection { opaque: () }
/// what is left to read of a body: pieces, or the connection's failure
pub type Pieces = Seq<Result<Vec<u8>, HttpError>>;
pub open spec fn all_bytes(l: Pieces) -> Seq<u8>
    decreases l.len(),
{ if l.len() == 0 { Seq::empty() } else { (match l[0] { Ok(b) => b@, Err(_) => Seq::empty() }) + all_bytes(l.skip(1)) } }
impl Body {
    pub uninterp spec fn pieces(&self) -> Pieces;
    #[verifier::external_body]
    pub fn data(&mut self) -> (r: Option<Result<Vec<u8>, HttpError>>)
        ensures
            old(self).pieces().len() == 0 ==> r is None && final(self).pieces() == old(self).pieces(),
            old(self).pieces().len() > 0 ==> r == Some(old(self).pieces()[0]) && final(self).pieces() == old(self).pieces().skip(1),
    { unimplemented!() }
}
impl<B> Request<B> {
    pub uninterp spec fn s_body(&self) -> B;
    #[verifier::external_body]
    pub fn body_mut(&mut self) -> (r: &mut B)
        ensures *r == old(self).s_body(), final(self).s_body() == *final(r), same_head(*old(self), *final(self)),
    { unimplemented!() }
}
pub open spec fn same_head<B>(q: Request<B>, p: Request<B>) -> bool { p.s_method() == q.s_method() && p.s_uri() == q.s_uri() }
#[verifier::external_body]
pub struct XService { opaque: () }
impl XService { pub uninterp spec fn gives(&self, q: Request<Body>, r: Result<Response<Body>, Infallible>) -> bool; }
#[verifier::external_body]
pub fn service_fn<F: Fn(Request<Body>) -> Result<Response<Body>, Infallible>>(f: F) -> (r: XService)
    requires forall|q: Request<Body>| f.requires((q,)),
    ensures forall|q: Request<Body>, x: Result<Response<Body>, Infallible>| #[trigger] r.gives(q, x) ==> f.ensures((q,), x),
{ unimplemented!() }
#[verifier::external_body]
pub struct XMakeService { opaque: () }
impl XMakeService { pub uninterp spec fn gives(&self, s: Result<XService, Infallible>) -> bool; }
#[verifier::external_body]
pub fn make_service_fn<F: Fn(XConnection) -> Result<XService, Infallible>>(f: F) -> (r: XMakeService)
    requires forall|c: XConnection| f.requires((c,)),
    ensures forall|s: Result<XService, Infallible>| #[trigger] r.gives(s) ==> exists|c: XConnection| f.ensures((c,), s),
{ unimplemented!() }
/// what may be sent in answer to a request (whatever the caller of `run` takes it to be)
pub uninterp spec fn due(a: SocketAddr, q: Request<Body>, r: Response<Body>) -> bool;
#[verifier::external_body]
pub struct XHyper { opaque: () }
impl XHyper {
    pub uninterp spec fn address(&self) -> SocketAddr;
    #[verifier::external_body]
    pub fn bind(a: &SocketAddr) -> (r: XHyper)
        ensures r.address() == *a,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serve(self, m: XMakeService) -> (r: Result<(), HttpError>)
        requires
            forall|s: Result<XService, Infallible>, q: Request<Body>, r: Result<Response<Body>, Infallible>| #![trigger m.gives(s), s->Ok_0.gives(q, r)]
                m.gives(s) ==> s is Ok && (s->Ok_0.gives(q, r) ==> r is Ok && due(self.address(), q, r->Ok_0)),
    { unimplemented!() }
}
mod hyper { pub use super::XHyper as Server; }
/// what the routes say about a request whose body was read to its end
pub open spec fn routed_whole<S>(t: Router<S>, q: Request<Body>, r: Response<Body>) -> bool {
    exists|p: Request<Body>, b: Vec<u8>| same_head(q, p) && b@ == all_bytes(q.s_body().pieces()) && #[trigger] routed(t, p, b, r)
}
//@ impl type Route
#[verifier::reject_recursive_types(S)]
//@ impl type Router
#[verifier::reject_recursive_types(S)]
//@ impl type Server
#[verifier::reject_recursive_types(S)]
//@ fn escape_regex
//@ literal ([\.\+\*\?\^\$\(\)\[\]\{\}\|\\])
//@ ret r
ensures r.text() == escaped(text@),
//@ at start
proof { axiom_special_re(); }
//@ closure 0 r: String
requires caps.groups().len() == 2,
ensures r@ =~= seq!['\\'] + caps.groups()[1],
//@ at closure 0 start
proof { reveal_strlit("\\"); reveal_strlit(""); }
//@ at ret
proof {
    let class = |c: char| special(c);
    let m = choose|m: Seq<Seq<char>>| m.len() == text@.len() && __vx_r.text() == m.flatten() && forall|i: int| 0 <= i < m.len() ==> replaced(class, __vx_c0, text@[i], #[trigger] m[i]);
    assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == escaped_char(text@[i]) by {
        assert(replaced(class, __vx_c0, text@[i], m[i]));
        let c = text@[i];
        if special(c) { assert(seq!['\\'] + seq![c] =~= seq!['\\', c]); }
    }
    assert(m =~= text@.map_values(|c: char| escaped_char(c)));
}
//@ fn DynamicUri::new
//@ literal \{([^\{]*)\}
//@ literal ([^/]*)
//@ ret r
requires is_pattern(uri@),
ensures r.serves(uri@),
//@ at start
let ghost found = re_found("\\{([^\\{]*)\\}"@, uri@);
let ghost (pre, name0, post) = choose|pre: Seq<char>, name: Seq<char>, post: Seq<char>| #[trigger] holed(uri@, pre, name, post);
proof {
    axiom_hole_re(uri@);
    reveal_strlit(""); reveal_strlit("^"); reveal_strlit("$");
}
//@ loop 0
invariant
    is_pattern(uri@), found == re_found("\\{([^\\{]*)\\}"@, uri@), it0.seq().len() == found.len(),
    !no_braces(uri@) ==> holed(uri@, pre, name0, post) && found == seq![(pre.len() as int, (pre.len() + name0.len() + 2) as int)],
    no_braces(uri@) ==> found.len() == 0,
    forall|i: int| 0 <= i < it0.seq().len() ==> (#[trigger] it0.seq()[i]).text() == uri@ && it0.seq()[i].at() == found[i],
    it0.index() == 0 ==> offset == 0 && index == 1 && cow_texts(chunks@) =~= Seq::empty() && parameters.m() == Map::<Seq<char>, usize>::empty(),
    it0.index() > 0 ==> {
        &&& offset == offset_of(uri@, (pre.len() + name0.len() + 2) as int)
        &&& cow_texts(chunks@) =~= seq![escaped(pre), segment_re()]
        &&& parameters.m() == Map::<Seq<char>, usize>::empty().insert(name0, 1usize)
    },
//@ at loop 0 start
proof {
    let (i, j) = (pre.len() as int, (pre.len() + name0.len() + 1) as int);
    assert(uri@[i] == '{' && uri@[j] == '}');
    lemma_offset(uri@, 0, i); lemma_offset(uri@, i + 1, j); lemma_offset(uri@, j, j + 1);
    assert(offset_of(uri@, i + 1) == offset_of(uri@, i) + 1);
    assert(offset_of(uri@, j + 1) == offset_of(uri@, j) + 1);
    assert(uri@.subrange(i + 1, j) =~= name0);
    assert(uri@.subrange(0, i) =~= pre);
    assert(x_whole(uri@, i + 1, j, offset_of(uri@, i) + 1, offset_of(uri@, j)));
    assert(x_whole(uri@, 0, i, 0, offset_of(uri@, i)));
}
//@ at loop 0 after
proof {
    if no_braces(uri@) {
        assert(offset_of(uri@, 0) == 0);
        assert(uri@.skip(0) =~= uri@);
    } else {
        let k = (pre.len() + name0.len() + 2) as int;
        assert(offset_of(uri@, k) == offset);
        assert(uri@.skip(k) =~= post);
    }
}
//@ at let regex#2 before
proof {
    let l = cow_texts(chunks@);
    axiom_plain_re(uri@); axiom_holed_re(pre, post);
    if no_braces(uri@) {
        assert(l =~= seq![escaped(uri@)]);
        assert(joined(l, ""@) == escaped(uri@));
        assert("^"@ + joined(l, ""@) + "$"@ =~= plain_re(uri@));
    } else {
        assert(l =~= seq![escaped(pre), segment_re(), escaped(post)]);
        assert(l.drop_last() =~= seq![escaped(pre), segment_re()]);
        assert(l.drop_last().drop_last() =~= seq![escaped(pre)]);
        reveal_with_fuel(joined, 4);
        assert(joined(l, ""@) =~= escaped(pre) + segment_re() + escaped(post));
        assert("^"@ + joined(l, ""@) + "$"@ =~= holed_re(pre, post));
    }
}
//@ at ret
proof {
    if no_braces(uri@) { lemma_plain(__vx_r, uri@); } else { lemma_holed(__vx_r, uri@, pre, name0, post); }
}
//@ fn DynamicUri::check
//@ ret r
requires self.wf(),
ensures
    r is Some <==> self.args(uri@) is Some,
    r matches Some(p) ==> self.args(uri@) == Some(p.m()),
//@ loop 0
invariant
    Some(captures.groups()) == re_groups(self.regex.pattern(), uri@), self.wf(), entries(it0.seq(), self.parameters.m()),
    forall|k: Seq<char>| #[trigger] parameters.m().contains_key(k) ==> self.parameters.m().contains_key(k) && parameters.m()[k] == captures.groups()[self.parameters.m()[k] as int],
    forall|i: int| 0 <= i < it0.index() ==> parameters.m().contains_key((#[trigger] it0.seq()[i]).0@),
    it0.index() == it0.seq().len() ==> forall|k: Seq<char>| #[trigger] self.parameters.m().contains_key(k) ==> parameters.m().contains_key(k),
//@ at loop 0 start
proof {
    let e = it0.seq()[it0.index() as int];
    assert(self.parameters.m().contains_key(e.0@) && self.parameters.m()[e.0@] == e.1@);
}
//@ at loop 0 after
proof { assert(parameters.m() =~= self.args(uri@)->0); }
//@ fn Route::new
//@ ret r
requires is_pattern(uri@),
ensures is_route(r, method, uri@), r.handler == handler,
//@ fn Route::check
//@ ret r
requires self.dynamic_uri.wf(),
ensures
    r is Some <==> meant(*self, *request),
    r matches Some(p) ==> self.dynamic_uri.args(request.s_uri().s_path()) == Some(p.m()),
//@ fn Router::new
//@ ret r
ensures r.default is None, r.routes@.len() == 0, r.state == state,
//@ fn Router::get
requires is_pattern(uri@),
ensures with_route(*old(self), *final(self), Method::GET, uri@, handler),
//@ at end
proof { assert(self.routes@.drop_last() =~= old(self).routes@); }
//@ fn Router::post
requires is_pattern(uri@),
ensures with_route(*old(self), *final(self), Method::POST, uri@, handler),
//@ at end
proof { assert(self.routes@.drop_last() =~= old(self).routes@); }
//@ fn Router::default
ensures
    final(self).state == old(self).state, final(self).routes == old(self).routes,
    final(self).default matches Some(d) && d.wraps(handler),
//@ fn Router::route
//@ ret r
requires ready_for(*self, request, body),
ensures routed(*self, request, body, r),
//@ loop 0
invariant
    it0.seq().len() == self.routes@.len(), forall|i: int| 0 <= i < self.routes@.len() ==> *#[trigger] it0.seq()[i] == self.routes@[i],
    forall|j: int| 0 <= j < it0.index() ==> !meant(#[trigger] self.routes@[j], request),
    it0.index() == it0.seq().len() ==> forall|j: int| 0 <= j < self.routes@.len() ==> !meant(#[trigger] self.routes@[j], request),
    ready_for(*self, request, body),
//@ at call x_call before
let ghost (k, p) = (it0.index() as int, parameters);
proof {
    assert(p.m() == given(*route, request));
    assert(first_for(self.routes@, request, k));
    assert forall|i: int| #[trigger] first_for(self.routes@, request, i) implies i == k by { }
    assert forall|r: Response<Body>| #[trigger] route.handler.gives((request, p, body, self.state), r) implies answered_by(self.routes@[k], request, p, body, self.state, r) by { }
}
//@ at loop 1 before
let ghost all = split_at(query@, '&');
proof { assert(all.take(0) =~= Seq::empty()); }
//@ loop 1
invariant
    texts(it1.seq()) == all, parameters.m() == named(all.take(it1.index() as int)), it1.index() == it1.seq().len() ==> parameters.m() == named(all),
//@ at loop 1 end
proof {
    let k = it1.index() as int;
    assert(texts(it1.seq())[k] == part@ && part@ == all[k]);
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    assert(name@ == name_of(part@));
    assert(value@ == value_of(part@));
    assert(all.take(k + 1).last() == all[k]);
    assert(all.take(k + 1).drop_last() =~= all.take(k));
    if k + 1 == all.len() { assert(all.take(k + 1) =~= all); }
}
//@ fn Server::new
//@ ret r
ensures r.router.default is None, r.router.routes@.len() == 0, r.router.state == state,
//@ fn Server::get
requires is_pattern(uri@),
ensures with_route(old(self).router, final(self).router, Method::GET, uri@, handler),
//@ fn Server::post
requires is_pattern(uri@),
ensures with_route(old(self).router, final(self).router, Method::POST, uri@, handler),
//@ fn Server::default
ensures
    final(self).router.state == old(self).router.state, final(self).router.routes == old(self).router.routes,
    final(self).router.default matches Some(d) && d.wraps(handler),
//@ fn Server::run
//@ unwraps
requires
    may_panic(),
    forall|q: Request<Body>, b: Vec<u8>| #[trigger] ready_for(self.router, q, b),
    forall|q: Request<Body>, r: Response<Body>| #[trigger] routed_whole(self.router, q, r) ==> due(address, q, r),
//@ closure 0 s: Result<XService, Infallible>
ensures s is Ok, forall|q: Request<Body>, r: Result<Response<Body>, Infallible>| #[trigger] s->Ok_0.gives(q, r) ==> r is Ok && routed_whole(*router, q, r->Ok_0),
//@ closure 1 r: Result<Response<Body>, Infallible>
ensures r is Ok, routed_whole(*router, request, r->Ok_0),
//@ loop 0
invariant body@ + all_bytes(request.s_body().pieces()) =~= all_bytes(asked.s_body().pieces()), same_head(asked, request), may_panic(),
ensures body@ =~= all_bytes(asked.s_body().pieces()), same_head(asked, request),
decreases request.s_body().pieces().len(),
//@ at closure 1 start
let ghost asked = request;
//@ at call route before
let ghost (last, whole) = (request, body);
proof {
    assert forall|x: Response<Body>| #[trigger] routed(*router, last, whole, x) implies routed_whole(*router, asked, x) by { }
}
