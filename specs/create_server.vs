//@ file create_server.rs
//@ uses
//@ drop Error as Display
//@ drop Error as Error
//@ drop Error::message
//@ top
use std::sync::Arc;
use crate::{reverse_hex, serde_json, Address, Server, State, TransactionOutput};
use crate::server::*;
use crate::state::*;
use crate::address::*;
use crate::hex::hex;
mod hyper { pub use crate::server::{Body, Response, StatusCode}; }
use crate::base58::{b58_bytes, btc58};
use crate::store::transaction_store_backend_trait::*;
broadcast use crate::shim::shim_axioms;
impl XInto<String> for Error {
    open spec fn into_spec(self, r: String) -> bool { true }
    #[verifier::external_body]
    fn x_into(self) -> (r: String) { unimplemented!() }
}
impl Error {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
// ---- what is asked for
/// the number of confirmations a request is about, or none if it is to be refused
pub open spec fn asked(p: Params, max: int) -> Option<int> {
    if !p.contains_key("confirmations"@) { Some(0) } else {
        match number(p["confirmations"@]) { Some(n) => if n <= max { Some(n as int) } else { None }, None => None }
    }
}
/// the text names the address
pub open spec fn text_of(t: Seq<u8>, a: Address) -> bool { is_addr_text(t) && stored(a) == b58_bytes(t, btc58()).take(21) }
pub open spec fn addr(t: Seq<u8>) -> Option<Address> { if exists|a: Address| text_of(t, a) { Some(choose|a: Address| text_of(t, a)) } else { None } }
/// all of them, or none if one of them is no address
pub open spec fn addrs(t: Seq<Seq<u8>>) -> Option<Seq<Address>> {
    if forall|i: int| 0 <= i < t.len() ==> addr(#[trigger] t[i]) is Some { Some(t.map_values(|x: Seq<u8>| addr(x)->0)) } else { None }
}
pub open spec fn encoded(t: Seq<Seq<char>>) -> Seq<Seq<u8>> { t.map_values(|x: Seq<char>| utf8(x)) }
pub open spec fn listed(p: Params) -> Option<Seq<Address>> {
    if p.contains_key("addresses"@) { addrs(encoded(split_at(p["addresses"@], ','))) } else { None }
}
pub open spec fn strings(l: Seq<J>) -> Option<Seq<Seq<u8>>> {
    if forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] is Str { Some(l.map_values(|x: J| x->Str_0)) } else { None }
}
pub open spec fn posted(b: Seq<u8>) -> Option<Seq<Address>> {
    match from_utf8(b) {
        Some(t) => match spelled(t) {
            Some(j) => match items(j) { Some(l) => match strings(l) { Some(s) => addrs(s), None => None }, None => None },
            None => None,
        },
        None => None,
    }
}
// ---- what is answered
/// the number times 1e8, rounded, is this many satoshis
pub open spec fn amount(f: F64, sats: nat) -> bool { 2real * absr(f.val() * 100000000real - sats as real) < 1real }
pub open spec fn shows(j: J, sats: nat) -> bool { j matches J::Float(f) && amount(f, sats) }
pub open spec fn member(j: J, k: Seq<char>, v: J) -> bool { j matches J::Obj(m) && m.contains_key(k) && m[k] == v }
pub open spec fn has_amount(j: J, k: Seq<char>, sats: nat) -> bool { j matches J::Obj(m) && m.contains_key(k) && shows(m[k], sats) }
/// the object has these members only
pub open spec fn only(j: J, k: Set<Seq<char>>) -> bool { j matches J::Obj(m) && m.dom() == k }
pub open spec fn shows_utxo(j: J, u: TransactionOutput, v: u64) -> bool {
    &&& member(j, "hash"@, J::Str(hex(u.hash@.reverse()))) && member(j, "vout"@, J::Num(u.index as int)) && has_amount(j, "value"@, v as nat)
    &&& only(j, set!["hash"@, "vout"@, "value"@])
}
pub open spec fn shows_utxos(x: Seq<J>, l: Seq<(TransactionOutput, u64)>) -> bool {
    x.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> shows_utxo(#[trigger] x[i], l[i].0, l[i].1)
}
pub open spec fn said(r: Response<Body>, j: J) -> bool { r.status() == StatusCode::OK && r.text() == printed(j) }
pub open spec fn refused(r: Response<Body>) -> bool { r.status() == StatusCode::BAD_REQUEST }
pub open spec fn says_balance(s: State, a: Address, c: int, r: Response<Body>) -> bool { exists|j: J| #[trigger] said(r, j) && shows(j, total(s.answer(c, a))) }
pub open spec fn balance_answer(s: State, a: Address, p: Params, r: Response<Body>) -> bool {
    match asked(p, s.confirmations as int) { Some(c) => says_balance(s, a, c, r), None => refused(r) }
}
pub open spec fn balance_entry(j: J, s: State, a: Address, c: int) -> bool {
    &&& member(j, "address"@, J::Str(addr_text(a))) && has_amount(j, "balance"@, total(s.answer(c, a)))
    &&& only(j, set!["address"@, "balance"@])
}
pub open spec fn says_balances(s: State, v: Seq<Address>, c: int, r: Response<Body>) -> bool {
    exists|x: Seq<J>| #[trigger] said(r, J::List(x)) && balance_list(x, s, v, c)
}
pub open spec fn balance_list(x: Seq<J>, s: State, v: Seq<Address>, c: int) -> bool { x.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> balance_entry(#[trigger] x[i], s, v[i], c) }
pub open spec fn balances_answer(s: State, v: Seq<Address>, p: Params, r: Response<Body>) -> bool {
    match asked(p, s.confirmations as int) { Some(c) => says_balances(s, v, c, r), None => refused(r) }
}
pub open spec fn shows_list(x: Seq<J>, m: Listing) -> bool { exists|l: Seq<(TransactionOutput, u64)>| #[trigger] lists(l, m) && shows_utxos(x, l) }
pub open spec fn says_utxos(s: State, a: Address, c: int, r: Response<Body>) -> bool {
    exists|x: Seq<J>| #[trigger] said(r, J::List(x)) && shows_list(x, s.answer(c, a))
}
pub open spec fn utxos_answer(s: State, a: Address, p: Params, r: Response<Body>) -> bool {
    match asked(p, s.confirmations as int) { Some(c) => says_utxos(s, a, c, r), None => refused(r) }
}
pub open spec fn has_utxos(j: J, l: Listing) -> bool { j matches J::Obj(m) && m.contains_key("utxos"@) && is_list(m["utxos"@], l) }
pub open spec fn is_list(j: J, l: Listing) -> bool { j matches J::List(x) && shows_list(x, l) }
pub open spec fn utxos_entry(j: J, s: State, a: Address, c: int) -> bool {
    &&& member(j, "address"@, J::Str(addr_text(a)))
    &&& has_utxos(j, s.answer(c, a))
    &&& only(j, set!["address"@, "utxos"@])
}
pub open spec fn says_utxos_lists(s: State, v: Seq<Address>, c: int, r: Response<Body>) -> bool {
    exists|x: Seq<J>| #[trigger] said(r, J::List(x)) && utxos_list(x, s, v, c)
}
pub open spec fn utxos_list(x: Seq<J>, s: State, v: Seq<Address>, c: int) -> bool { x.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> utxos_entry(#[trigger] x[i], s, v[i], c) }
pub open spec fn utxos_lists_answer(s: State, v: Seq<Address>, p: Params, r: Response<Body>) -> bool {
    match asked(p, s.confirmations as int) { Some(c) => says_utxos_lists(s, v, c, r), None => refused(r) }
}
/// 21 million bitcoin
pub open spec fn supply() -> nat { 2_100_000_000_000_000 }
/// the state that requests are answered from, and no more than there can be is unspent
pub open spec fn serving(s: State) -> bool {
    &&& s.wf() && s.ready() && s.augs().len() >= s.confirmations
    &&& forall|c: int, a: Address| total(#[trigger] s.answer(c, a)) <= supply()
    &&& forall|c: int, a: Address, u: TransactionOutput| #[trigger] s.answer(c, a).contains_key(u) ==> s.answer(c, a)[u] <= supply()
}
// ---- lemmas
pub proof fn lemma_addr(t: Seq<u8>, a: Address)
    requires text_of(t, a),
    ensures addr(t) == Some(a),
{
    assert forall|b: Address| text_of(t, b) implies b == a by { lemma_stored_unique(a, b); }
}
/// whatever text is an address's names one
pub proof fn lemma_parses(t: Seq<u8>)
    ensures
        is_addr_text(t) <==> addr(t) is Some,
        forall|a: Address| #[trigger] stored(a) == b58_bytes(t, btc58()).take(21) && is_addr_text(t) ==> addr(t) == Some(a),
{
    if is_addr_text(t) {
        let b = b58_bytes(t, btc58()).take(21);
        let a = if b[0] == 0 { Address::P2PKH(arr(b.skip(1))) } else { Address::P2SH(arr(b.skip(1))) };
        assert(stored(a) =~= b);
        assert forall|a: Address| #[trigger] stored(a) == b && is_addr_text(t) implies addr(t) == Some(a) by { lemma_addr(t, a); }
    }
}
/// one address for each text
pub open spec fn parsed(t: Seq<Seq<u8>>, v: Seq<Address>) -> bool { t.len() == v.len() && forall|i: int| 0 <= i < t.len() ==> #[trigger] addr(t[i]) == Some(v[i]) }
pub proof fn lemma_parsed(t: Seq<Seq<u8>>, v: Seq<Address>)
    requires parsed(t, v),
    ensures addrs(t) == Some(v),
{
    assert forall|i: int| 0 <= i < t.len() implies addr(#[trigger] t[i]) == Some(v[i]) by { }
    assert(addrs(t) is Some);
    assert(addrs(t)->0 =~= v);
}
pub proof fn lemma_parsed_push(t: Seq<Seq<u8>>, v: Seq<Address>, a: Address)
    requires v.len() < t.len(), parsed(t.take(v.len() as int), v), addr(t[v.len() as int]) == Some(a),
    ensures parsed(t.take(v.len() as int + 1), v.push(a)), v.len() + 1 == t.len() ==> parsed(t, v.push(a)),
{
    let (p, q) = (t.take(v.len() as int), t.take(v.len() as int + 1));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] addr(q[i]) == Some(v.push(a)[i]) by { if i < v.len() { assert(p[i] == q[i]); assert(addr(p[i]) == Some(v[i])); } }
    if v.len() + 1 == t.len() { assert(q =~= t); }
}
/// what of an array has been read so far
pub open spec fn read_so_far(l: Seq<J>, k: int, v: Seq<Address>) -> bool {
    &&& v.len() == k && forall|i: int| 0 <= i < k ==> (#[trigger] l[i] matches J::Str(t) && addr(t) == Some(v[i]))
}
pub proof fn lemma_read(l: Seq<J>, v: Seq<Address>)
    requires read_so_far(l, l.len() as int, v),
    ensures strings(l) is Some, addrs(strings(l)->0) == Some(v),
{
    let s = l.map_values(|x: J| x->Str_0);
    assert forall|i: int| 0 <= i < l.len() implies #[trigger] addr(s[i]) == Some(v[i]) by { assert(l[i] is Str); assert(s[i] == l[i]->Str_0); }
    lemma_parsed(s, v);
}
/// an element that is no address
pub proof fn lemma_not_read(l: Seq<J>, k: int)
    requires 0 <= k < l.len(), !(l[k] is Str) || addr(l[k]->Str_0) is None,
    ensures strings(l) is None || addrs(strings(l)->0) is None,
{ if l[k] is Str && strings(l) is Some { assert(strings(l)->0[k] == l[k]->Str_0); } }
/// no value listed is more than there can be
pub proof fn lemma_values(s: Arc<State>, c: int, a: Address, l: Seq<(TransactionOutput, u64)>)
    requires serving(*s), lists(l, s.answer(c, a)),
    ensures forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1 <= supply(),
{ assert forall|i: int| 0 <= i < l.len() implies (#[trigger] l[i]).1 <= supply() by { assert(s.answer(c, a).contains_key(l[i].0)); } }
// ---- the requests
/// for the address named `t`
pub open spec fn one_balance(s: State, t: Seq<char>, p: Params, r: Response<Body>) -> bool { match addr(utf8(t)) { Some(a) => balance_answer(s, a, p, r), None => refused(r) } }
pub open spec fn one_utxos(s: State, t: Seq<char>, p: Params, r: Response<Body>) -> bool { match addr(utf8(t)) { Some(a) => utxos_answer(s, a, p, r), None => refused(r) } }
/// for these addresses, if that is what they are
pub open spec fn all_balances(s: State, v: Option<Seq<Address>>, p: Params, r: Response<Body>) -> bool { match v { Some(v) => balances_answer(s, v, p, r), None => refused(r) } }
pub open spec fn all_utxos(s: State, v: Option<Seq<Address>>, p: Params, r: Response<Body>) -> bool { match v { Some(v) => utxos_lists_answer(s, v, p, r), None => refused(r) } }
pub open spec fn about(q: Request<Body>, post: Seq<char>, t: Seq<char>) -> bool { q.s_method() == Method::GET && fills(q.s_uri().s_path(), "/addresses/"@, post, t) }
pub open spec fn is_for(q: Request<Body>, m: Method, path: Seq<char>) -> bool { q.s_method() == m && q.s_uri().s_path() == path }
/// the service: what is answered to each request
pub open spec fn service(s: State, q: Request<Body>, body: Seq<u8>, r: Response<Body>) -> bool {
    let p = query_args(q.s_uri().s_query());
    &&& forall|t: Seq<char>| #[trigger] about(q, "/balance"@, t) ==> one_balance(s, t, p, r)
    &&& forall|t: Seq<char>| #[trigger] about(q, "/utxos"@, t) ==> one_utxos(s, t, p, r)
    &&& is_for(q, Method::GET, "/addresses/balance"@) ==> all_balances(s, listed(p), p, r)
    &&& is_for(q, Method::POST, "/addresses/balance"@) ==> all_balances(s, posted(body), p, r)
    &&& is_for(q, Method::GET, "/addresses/utxos"@) ==> all_utxos(s, listed(p), p, r)
    &&& is_for(q, Method::POST, "/addresses/utxos"@) ==> all_utxos(s, posted(body), p, r)
    &&& !served(q) ==> r.status() == StatusCode::NOT_FOUND
}
pub open spec fn served(q: Request<Body>) -> bool {
    ||| exists|t: Seq<char>| #[trigger] about(q, "/balance"@, t)
    ||| exists|t: Seq<char>| #[trigger] about(q, "/utxos"@, t)
    ||| is_for(q, Method::GET, "/addresses/balance"@) || is_for(q, Method::POST, "/addresses/balance"@)
    ||| is_for(q, Method::GET, "/addresses/utxos"@) || is_for(q, Method::POST, "/addresses/utxos"@)
}
/// what a handler is given fits it
pub open spec fn named_one(a: Asked<State>) -> bool { serving(*a.3) && a.1.m().contains_key("address"@) }
pub open spec fn handles_balance(h: BoxedHandler<State>) -> bool {
    &&& forall|a: Asked<State>| named_one(a) ==> #[trigger] h.accepts(a)
    &&& forall|a: Asked<State>, r: Response<Body>| #[trigger] h.gives(a, r) ==> one_balance(*a.3, a.1.m()["address"@], a.1.m(), r)
}
pub open spec fn handles_utxos(h: BoxedHandler<State>) -> bool {
    &&& forall|a: Asked<State>| named_one(a) ==> #[trigger] h.accepts(a)
    &&& forall|a: Asked<State>, r: Response<Body>| #[trigger] h.gives(a, r) ==> one_utxos(*a.3, a.1.m()["address"@], a.1.m(), r)
}
pub open spec fn handles_balances(h: BoxedHandler<State>, post: bool) -> bool {
    &&& forall|a: Asked<State>| serving(*a.3) ==> #[trigger] h.accepts(a)
    &&& forall|a: Asked<State>, r: Response<Body>| #[trigger] h.gives(a, r) ==> all_balances(*a.3, if post { posted(a.2@) } else { listed(a.1.m()) }, a.1.m(), r)
}
pub open spec fn handles_utxos_lists(h: BoxedHandler<State>, post: bool) -> bool {
    &&& forall|a: Asked<State>| serving(*a.3) ==> #[trigger] h.accepts(a)
    &&& forall|a: Asked<State>, r: Response<Body>| #[trigger] h.gives(a, r) ==> all_utxos(*a.3, if post { posted(a.2@) } else { listed(a.1.m()) }, a.1.m(), r)
}
/// a route of the service
pub open spec fn is_offered(t: Route<State>) -> bool {
    ||| is_route(t, Method::GET, "/addresses/{address}/balance"@) && handles_balance(t.handler)
    ||| is_route(t, Method::GET, "/addresses/{address}/utxos"@) && handles_utxos(t.handler)
    ||| is_route(t, Method::GET, "/addresses/balance"@) && handles_balances(t.handler, false)
    ||| is_route(t, Method::POST, "/addresses/balance"@) && handles_balances(t.handler, true)
    ||| is_route(t, Method::GET, "/addresses/utxos"@) && handles_utxos_lists(t.handler, false)
    ||| is_route(t, Method::POST, "/addresses/utxos"@) && handles_utxos_lists(t.handler, true)
}
pub open spec fn offers(t: Seq<Route<State>>, m: Method, uri: Seq<char>) -> bool { exists|i: int| 0 <= i < t.len() && is_route(#[trigger] t[i], m, uri) }
/// the routes are those of the service, in whatever order
pub open spec fn complete(t: Router<State>) -> bool {
    &&& t.default is None
    &&& forall|i: int| 0 <= i < t.routes@.len() ==> is_offered(#[trigger] t.routes@[i])
    &&& offers(t.routes@, Method::GET, "/addresses/{address}/balance"@) && offers(t.routes@, Method::GET, "/addresses/{address}/utxos"@)
    &&& offers(t.routes@, Method::GET, "/addresses/balance"@) && offers(t.routes@, Method::POST, "/addresses/balance"@)
    &&& offers(t.routes@, Method::GET, "/addresses/utxos"@) && offers(t.routes@, Method::POST, "/addresses/utxos"@)
}
pub proof fn lemma_patterns()
    ensures
        holed("/addresses/{address}/balance"@, "/addresses/"@, "address"@, "/balance"@),
        holed("/addresses/{address}/utxos"@, "/addresses/"@, "address"@, "/utxos"@),
        no_braces("/addresses/balance"@), no_braces("/addresses/utxos"@),
{
    reveal_strlit("/addresses/{address}/balance"); reveal_strlit("/addresses/{address}/utxos"); reveal_strlit("/addresses/"); reveal_strlit("address");
    reveal_strlit("/balance"); reveal_strlit("/utxos"); reveal_strlit("/addresses/balance"); reveal_strlit("/addresses/utxos");
    assert("/addresses/{address}/balance"@ =~= "/addresses/"@ + seq!['{'] + "address"@ + seq!['}'] + "/balance"@);
    assert("/addresses/{address}/utxos"@ =~= "/addresses/"@ + seq!['{'] + "address"@ + seq!['}'] + "/utxos"@);
}
/// which route is for which request
pub proof fn lemma_apart(q: Request<Body>, t: Seq<char>)
    ensures
        about(q, "/balance"@, t) ==> !is_for(q, Method::GET, "/addresses/balance"@) && !is_for(q, Method::GET, "/addresses/utxos"@),
        about(q, "/utxos"@, t) ==> !is_for(q, Method::GET, "/addresses/balance"@) && !is_for(q, Method::GET, "/addresses/utxos"@),
        about(q, "/balance"@, t) ==> forall|u: Seq<char>| !#[trigger] about(q, "/utxos"@, u),
        "/addresses/balance"@ != "/addresses/utxos"@,
{
    reveal_strlit("/addresses/"); reveal_strlit("/balance"); reveal_strlit("/utxos"); reveal_strlit("/addresses/balance"); reveal_strlit("/addresses/utxos");
    let (p, a, b, c) = (q.s_uri().s_path(), "/addresses/"@, "/balance"@, "/utxos"@);
    assert(a.len() == 11 && b.len() == 8 && c.len() == 6);
    assert("/addresses/balance"@.len() == 18 && "/addresses/utxos"@.len() == 16);
    if about(q, b, t) {
        assert(p.last() == 'e' && p[p.len() - 8] == '/' && p.len() >= 19);
        assert forall|u: Seq<char>| !#[trigger] about(q, c, u) by { if about(q, c, u) { assert(p.last() == 's'); } }
    }
    if about(q, c, t) {
        assert(p.last() == 's' && p[p.len() - 6] == '/' && p.len() >= 17);
        assert("/addresses/utxos"@.last() == 's');
        assert("/addresses/balance"@[12] == 'a');
        assert(p.len() == 18 ==> p[12] == '/');
    }
}
/// what each route takes
pub proof fn lemma_meant(t: Route<State>, q: Request<Body>)
    requires is_offered(t),
    ensures
        is_route(t, Method::GET, "/addresses/{address}/balance"@) ==> (meant(t, q) <==> exists|s: Seq<char>| #[trigger] about(q, "/balance"@, s)),
        is_route(t, Method::GET, "/addresses/{address}/utxos"@) ==> (meant(t, q) <==> exists|s: Seq<char>| #[trigger] about(q, "/utxos"@, s)),
        forall|m: Method| is_route(t, m, "/addresses/balance"@) ==> (meant(t, q) <==> is_for(q, m, "/addresses/balance"@)),
        forall|m: Method| is_route(t, m, "/addresses/utxos"@) ==> (meant(t, q) <==> is_for(q, m, "/addresses/utxos"@)),
        is_route(t, Method::GET, "/addresses/{address}/balance"@) ==> forall|s: Seq<char>| #[trigger] about(q, "/balance"@, s) ==> given(t, q) == with_address(q, s),
        is_route(t, Method::GET, "/addresses/{address}/utxos"@) ==> forall|s: Seq<char>| #[trigger] about(q, "/utxos"@, s) ==> given(t, q) == with_address(q, s),
        forall|m: Method| #[trigger] is_route(t, m, "/addresses/balance"@) && meant(t, q) ==> given(t, q) == query_args(q.s_uri().s_query()),
        forall|m: Method| #[trigger] is_route(t, m, "/addresses/utxos"@) && meant(t, q) ==> given(t, q) == query_args(q.s_uri().s_query()),
{
    let (path, d) = (q.s_uri().s_path(), t.dynamic_uri);
    lemma_patterns();
    if d.serves("/addresses/balance"@) || d.serves("/addresses/utxos"@) {
        assert(d.args(path) is Some ==> d.args(path)->0 == Map::<Seq<char>, Seq<char>>::empty());
        if meant(t, q) { assert(given(t, q) =~= query_args(q.s_uri().s_query())); }
    }
    lemma_meant_holed(t, q, "/addresses/{address}/balance"@, "/balance"@);
    lemma_meant_holed(t, q, "/addresses/{address}/utxos"@, "/utxos"@);
}
pub proof fn lemma_meant_holed(t: Route<State>, q: Request<Body>, uri: Seq<char>, post: Seq<char>)
    requires holed(uri, "/addresses/"@, "address"@, post),
    ensures
        is_route(t, Method::GET, uri) ==> (meant(t, q) <==> exists|s: Seq<char>| #[trigger] about(q, post, s)),
        is_route(t, Method::GET, uri) ==> forall|s: Seq<char>| #[trigger] about(q, post, s) ==> given(t, q) == with_address(q, s),
{
    let (path, d) = (q.s_uri().s_path(), t.dynamic_uri);
    if is_route(t, Method::GET, uri) {
        assert(d.args(path) is Some <==> exists|seg: Seq<char>| fills(path, "/addresses/"@, post, seg));
        assert forall|s: Seq<char>| #[trigger] about(q, post, s) implies given(t, q) == with_address(q, s) && d.args(path) is Some by {
            assert(fills(path, "/addresses/"@, post, s));
            assert(given(t, q) =~= with_address(q, s));
        }
        if meant(t, q) { let s = choose|s: Seq<char>| fills(path, "/addresses/"@, post, s); assert(about(q, post, s)); }
    }
}
pub open spec fn with_address(q: Request<Body>, t: Seq<char>) -> Params { query_args(q.s_uri().s_query()).insert("address"@, t) }
/// the number of confirmations is asked for in the query
pub proof fn lemma_asked(q: Request<Body>, t: Seq<char>, max: int)
    ensures asked(with_address(q, t), max) == asked(query_args(q.s_uri().s_query()), max),
{ lemma_names(); }
/// the first of the routes for a request, if there is one
pub proof fn lemma_first(t: Seq<Route<State>>, q: Request<Body>, i: int) -> (k: int)
    requires 0 <= i < t.len(), meant(t[i], q),
    ensures first_for(t, q, k),
    decreases i,
{ if exists|j: int| 0 <= j < i && meant(#[trigger] t[j], q) { let j = choose|j: int| 0 <= j < i && meant(#[trigger] t[j], q); lemma_first(t, q, j) } else { i } }
/// the handlers can be called
pub proof fn lemma_can_serve(t: Router<State>, q: Request<Body>, b: Vec<u8>)
    requires complete(t), serving(*t.state),
    ensures ready_for(t, q, b),
{
    lemma_patterns();
    assert forall|i: int, p: HashMap<String, String>| first_for(t.routes@, q, i) && p.m() == given(t.routes@[i], q) implies #[trigger] t.routes@[i].handler.accepts((q, p, b, t.state)) by {
        let x = t.routes@[i];
        lemma_meant(x, q);
        let a: Asked<State> = (q, p, b, t.state);
        if is_route(x, Method::GET, "/addresses/{address}/balance"@) { let s = choose|s: Seq<char>| #[trigger] about(q, "/balance"@, s); assert(given(x, q) == with_address(q, s)); }
        if is_route(x, Method::GET, "/addresses/{address}/utxos"@) { let s = choose|s: Seq<char>| #[trigger] about(q, "/utxos"@, s); assert(given(x, q) == with_address(q, s)); }
        lemma_distinct();
        assert(x.handler.accepts(a));
    }
}
pub proof fn lemma_distinct()
    ensures
        !no_braces("/addresses/{address}/balance"@), !no_braces("/addresses/{address}/utxos"@), "/addresses/{address}/balance"@ != "/addresses/{address}/utxos"@,
        "/addresses/balance"@ != "/addresses/utxos"@,
        "/addresses/{address}/balance"@ != "/addresses/balance"@, "/addresses/{address}/balance"@ != "/addresses/utxos"@,
        "/addresses/{address}/utxos"@ != "/addresses/balance"@, "/addresses/{address}/utxos"@ != "/addresses/utxos"@,
{
    reveal_strlit("/addresses/{address}/balance"); reveal_strlit("/addresses/{address}/utxos"); reveal_strlit("/addresses/balance"); reveal_strlit("/addresses/utxos");
    assert("/addresses/{address}/balance"@[11] == '{' && "/addresses/{address}/utxos"@[11] == '{');
    assert("/addresses/{address}/balance"@.len() == 28 && "/addresses/{address}/utxos"@.len() == 26);
    assert("/addresses/balance"@.len() == 18 && "/addresses/utxos"@.len() == 16);
}
/// nothing serves two of the patterns
pub proof fn lemma_one_pattern(d: DynamicUri)
    ensures
        d.serves("/addresses/{address}/balance"@) ==> !d.serves("/addresses/{address}/utxos"@) && !d.serves("/addresses/balance"@) && !d.serves("/addresses/utxos"@),
        d.serves("/addresses/{address}/utxos"@) ==> !d.serves("/addresses/balance"@) && !d.serves("/addresses/utxos"@),
        d.serves("/addresses/balance"@) ==> !d.serves("/addresses/utxos"@),
{
    lemma_patterns();
    lemma_distinct();
    reveal_strlit("/addresses/"); reveal_strlit("/balance"); reveal_strlit("/utxos"); reveal_strlit("/addresses/balance"); reveal_strlit("/addresses/utxos");
    let (pre, b, u, no) = ("/addresses/"@, "/balance"@, "/utxos"@, Seq::<char>::empty());
    assert(pre.len() == 11 && b.len() == 8 && u.len() == 6);
    let (pb, pu) = (pre + no + b, pre + no + u);
    assert(fills(pb, pre, b, no) && fills(pu, pre, u, no));
    assert(pb.last() == 'e' && pb.len() == 19 && pu.last() == 's' && pu.len() == 17);
    if d.serves("/addresses/{address}/balance"@) { assert(d.args(pb) is Some); }
    if d.serves("/addresses/{address}/utxos"@) {
        assert(d.args(pu) is Some);
        if d.args(pb) is Some { let seg = choose|seg: Seq<char>| fills(pb, pre, u, seg); assert(pb.last() == 's'); }
    }
    if d.serves("/addresses/balance"@) {
        assert("/addresses/balance"@.len() == 18);
        assert(d.args(pb) is None && d.args(pu) is None && d.args("/addresses/balance"@) is Some);
    }
    if d.serves("/addresses/utxos"@) {
        assert("/addresses/utxos"@.len() == 16);
        assert(d.args(pb) is None && d.args(pu) is None && d.args("/addresses/balance"@) is None);
    }
}
proof fn lemma_answered_one(x: Route<State>, q: Request<Body>, a: Asked<State>, r: Response<Body>, post: Seq<char>)
    requires
        meant(x, q), a.1.m() == given(x, q), x.handler.gives(a, r),
        is_route(x, Method::GET, "/addresses/{address}/balance"@) && handles_balance(x.handler) && post == "/balance"@
            || is_route(x, Method::GET, "/addresses/{address}/utxos"@) && handles_utxos(x.handler) && post == "/utxos"@,
    ensures
        exists|u: Seq<char>| #[trigger] about(q, post, u),
        forall|u: Seq<char>| #[trigger] about(q, post, u) ==> if post == "/balance"@ { one_balance(*a.3, u, query_args(q.s_uri().s_query()), r) } else { one_utxos(*a.3, u, query_args(q.s_uri().s_query()), r) },
{
    hide(addr); hide(asked); hide(query_args); hide(given); hide(says_balance); hide(says_utxos); hide(about); hide(meant); hide(refused); hide(is_offered);
    lemma_distinct();
    reveal_strlit("/balance"); reveal_strlit("/utxos");
    assert("/balance"@.len() == 8 && "/utxos"@.len() == 6);
    assert(is_offered(x)) by { reveal(is_offered); }
    lemma_meant(x, q);
    let p = query_args(q.s_uri().s_query());
    assert forall|u: Seq<char>| #[trigger] about(q, post, u) implies if post == "/balance"@ { one_balance(*a.3, u, p, r) } else { one_utxos(*a.3, u, p, r) } by {
        assert(a.1.m() == with_address(q, u));
        lemma_asked(q, u, a.3.confirmations as int);
        assert(a.1.m()["address"@] == u);
    }
}
proof fn lemma_answered(x: Route<State>, q: Request<Body>, a: Asked<State>, r: Response<Body>)
    requires is_offered(x), meant(x, q), a.1.m() == given(x, q), x.handler.gives(a, r),
    ensures service(*a.3, q, a.2@, r),
{
    hide(addr); hide(asked); hide(query_args); hide(given); hide(balances_answer); hide(utxos_lists_answer); hide(about); hide(meant); hide(refused); hide(one_balance); hide(one_utxos); hide(listed); hide(posted);
    hide(handles_balance); hide(handles_utxos); hide(no_braces);
    lemma_distinct(); lemma_one_pattern(x.dynamic_uri);
    lemma_meant(x, q);
    let (pb, pu, ab, au) = ("/addresses/{address}/balance"@, "/addresses/{address}/utxos"@, "/addresses/balance"@, "/addresses/utxos"@);
    if is_route(x, Method::GET, pb) {
        lemma_answered_one(x, q, a, r, "/balance"@);
        let u = choose|u: Seq<char>| #[trigger] about(q, "/balance"@, u);
        lemma_apart(q, u);
        assert(is_for(q, q.s_method(), q.s_uri().s_path()));
        assert(q.s_method() == Method::GET) by { reveal(about); }
    } else if is_route(x, Method::GET, pu) {
        lemma_answered_one(x, q, a, r, "/utxos"@);
        let u = choose|u: Seq<char>| #[trigger] about(q, "/utxos"@, u);
        lemma_apart(q, u);
        assert(q.s_method() == Method::GET) by { reveal(about); }
        assert forall|v: Seq<char>| #[trigger] about(q, "/balance"@, v) implies false by { lemma_apart(q, v); }
    } else {
        lemma_patterns();
        assert forall|v: Seq<char>| #[trigger] about(q, "/balance"@, v) implies false by { lemma_apart(q, v); assert(q.s_method() == Method::GET) by { reveal(about); } }
        assert forall|v: Seq<char>| #[trigger] about(q, "/utxos"@, v) implies false by { lemma_apart(q, v); assert(q.s_method() == Method::GET) by { reveal(about); } }
    }
}
/// what comes out of the routes of the service is what the service says
pub proof fn lemma_service(t: Router<State>, q: Request<Body>, b: Vec<u8>, r: Response<Body>)
    requires complete(t), serving(*t.state), routed(t, q, b, r),
    ensures service(*t.state, q, b@, r),
{
    lemma_distinct();
    lemma_names();
    let (l, pb, pu, ab, au) = (t.routes@, "/addresses/{address}/balance"@, "/addresses/{address}/utxos"@, "/addresses/balance"@, "/addresses/utxos"@);
    assert forall|i: int| 0 <= i < l.len() implies (meant(#[trigger] l[i], q) ==> served(q)) by { lemma_meant(l[i], q); }
    if served(q) {
        lemma_offered(t, q);
        let i = choose|i: int| 0 <= i < l.len() && meant(#[trigger] l[i], q);
        let k = lemma_first(l, q, i);
        let x = l[k];
        lemma_meant(x, q);
        let m = choose|m: HashMap<String, String>| answered_by(x, q, m, b, t.state, r);
        lemma_answered(x, q, (q, m, b, t.state), r);
    }
}
/// what the server sends (see Server::run) is what the service says about the request and the whole of its body
pub proof fn lemma_sent(t: Router<State>, q: Request<Body>, r: Response<Body>)
    requires complete(t), serving(*t.state), routed_whole(t, q, r),
    ensures service(*t.state, q, all_bytes(q.s_body().pieces()), r),
{
    let (p, b) = choose|p: Request<Body>, b: Vec<u8>| same_head(q, p) && b@ == all_bytes(q.s_body().pieces()) && #[trigger] routed(t, p, b, r);
    lemma_service(t, p, b, r);
    assert forall|post: Seq<char>, x: Seq<char>| #[trigger] about(q, post, x) implies about(p, post, x) by { }
    assert forall|post: Seq<char>, x: Seq<char>| #[trigger] about(p, post, x) implies about(q, post, x) by { }
}
/// and it can be started
pub proof fn lemma_starts(t: Router<State>)
    requires complete(t), serving(*t.state),
    ensures forall|q: Request<Body>, b: Vec<u8>| #[trigger] ready_for(t, q, b),
{
    assert forall|q: Request<Body>, b: Vec<u8>| #[trigger] ready_for(t, q, b) by { lemma_can_serve(t, q, b); }
}
/// a request that the service knows has a route
pub proof fn lemma_offered(t: Router<State>, q: Request<Body>)
    requires complete(t), served(q),
    ensures exists|i: int| 0 <= i < t.routes@.len() && meant(#[trigger] t.routes@[i], q),
{
    let (l, pb, pu, ab, au) = (t.routes@, "/addresses/{address}/balance"@, "/addresses/{address}/utxos"@, "/addresses/balance"@, "/addresses/utxos"@);
    let (m, uri) = if exists|u: Seq<char>| #[trigger] about(q, "/balance"@, u) { (Method::GET, pb) } else if exists|u: Seq<char>| #[trigger] about(q, "/utxos"@, u) { (Method::GET, pu) }
        else if is_for(q, Method::GET, ab) { (Method::GET, ab) } else if is_for(q, Method::POST, ab) { (Method::POST, ab) } else if is_for(q, Method::GET, au) { (Method::GET, au) } else { (Method::POST, au) };
    assert(offers(l, m, uri));
    let i = choose|i: int| 0 <= i < l.len() && is_route(#[trigger] l[i], m, uri);
    lemma_meant(l[i], q);
    assert(meant(l[i], q));
}
pub proof fn lemma_names()
    ensures
        "hash"@ != "vout"@, "hash"@ != "value"@, "vout"@ != "value"@, "address"@ != "balance"@, "address"@ != "utxos"@,
        "address"@ != "confirmations"@, "address"@ != "addresses"@,
{
    reveal_strlit("hash"); reveal_strlit("vout"); reveal_strlit("value"); reveal_strlit("address"); reveal_strlit("balance"); reveal_strlit("utxos");
    reveal_strlit("confirmations"); reveal_strlit("addresses");
    assert("hash"@[0] == 'h' && "vout"@[0] == 'v' && "vout"@.len() == 4 && "value"@.len() == 5);
    assert("address"@.len() == 7 && "balance"@.len() == 7 && "address"@[0] == 'a' && "balance"@[0] == 'b');
}
/// dividing by 1e8 with one rounding
pub proof fn lemma_amount(sats: nat, f: F64)
    ensures sats <= supply() && rounds_to(sats as real / 100000000real, f.val()) ==> amount(f, sats),
{
    if sats <= supply() && rounds_to(sats as real / 100000000real, f.val()) { lemma_amount_(sats, f); }
}
proof fn lemma_amount_(sats: nat, f: F64)
    requires sats <= supply(), rounds_to(sats as real / 100000000real, f.val()),
    ensures amount(f, sats),
{
    let x = sats as real;
    let q = x / 100000000real;
    assert(q * 100000000real == x) by (nonlinear_arith) requires q == x / 100000000real;
    assert(absr(f.val() * 100000000real - x) == absr(f.val() - q) * 100000000real) by (nonlinear_arith) requires q * 100000000real == x;
    assert(absr(q) == q) by (nonlinear_arith) requires q == x / 100000000real, x >= 0real;
    assert(absr(f.val() - q) * 9007199254740992real * 100000000real <= x) by (nonlinear_arith) requires absr(f.val() - q) * 9007199254740992real <= q, q * 100000000real == x;
    assert(x <= 2100000000000000real);
}
//@ fn Error::new
//@ ret r
//@ fn parse_address
//@ ret r
ensures r is Ok <==> addr(utf8(address@)) is Some, r matches Ok(a) ==> addr(utf8(address@)) == Some(a),
//@ at start
proof { lemma_parses(utf8(address@)); }
//@ fn parse_address_from_parameters
//@ ret r
requires parameters.m().contains_key("address"@),
ensures
    r is Ok <==> addr(utf8(parameters.m()["address"@])) is Some,
    r matches Ok(a) ==> addr(utf8(parameters.m()["address"@])) == Some(a),
//@ fn parse_addresses_from_parameters
//@ ret r
ensures r is Ok <==> listed(parameters.m()) is Some, r matches Ok(v) ==> listed(parameters.m()) == Some(v@),
//@ at loop 0 before
let ghost all = encoded(split_at(parameters.m()["addresses"@], ','));
proof { assert(all.take(0) =~= Seq::empty()); if all.len() == 0 { assert(all.take(0) =~= all); } }
//@ loop 0
invariant
    all == encoded(texts(it0.seq())), all == encoded(split_at(parameters.m()["addresses"@], ',')), parameters.m().contains_key("addresses"@),
    __vx_v1@.len() == it0.index(), parsed(all.take(it0.index() as int), __vx_v1@), it0.index() == it0.seq().len() ==> parsed(all, __vx_v1@),
//@ at let __vx_x3
let ghost (k, v0) = (it0.index() as int, __vx_v1@);
proof {
    assert(texts(it0.seq())[k] == __vx_a@);
    assert(all[k] == utf8(__vx_a@));
    if __vx_x3 is Ok { lemma_parsed_push(all, v0, __vx_x3->Ok_0); }
}
//@ at loop 0 after
proof { lemma_parsed(all, __vx_v1@); }
//@ fn parse_addresses_from_body
//@ ret r
ensures r is Ok <==> posted(body@) is Some, r matches Ok(v) ==> posted(body@) == Some(v@),
//@ at loop 0 before
let ghost all = js(array@);
//@ loop 0
invariant
    all == js(array@), it0.seq().len() == array@.len(), forall|i: int| 0 <= i < array@.len() ==> *#[trigger] it0.seq()[i] == array@[i],
    posted(body@) == match strings(all) { Some(s) => addrs(s), None => None },
    read_so_far(all, it0.index() as int, __vx_v1@), it0.index() == it0.seq().len() ==> read_so_far(all, all.len() as int, __vx_v1@),
//@ at let __vx_x3
let ghost k = it0.index() as int;
proof {
    assert(all[k] == address.j());
    if __vx_x3 is Err { lemma_not_read(all, k); }
}
//@ at loop 0 after
proof { lemma_read(all, __vx_v1@); }
//@ fn parse_confirmations
//@ ret r
ensures
    r is Ok <==> asked(parameters.m(), max_confirmations as int) is Some,
    r matches Ok(c) ==> asked(parameters.m(), max_confirmations as int) == Some(c as int),
//@ fn format_value
//@ ret r
ensures balance <= supply() ==> amount(r, balance as nat),
//@ at ret
proof { lemma_amount(balance as nat, __vx_r); }
//@ fn format_utxo
//@ ret r
ensures value <= supply() ==> shows_utxo(r.j(), *utxo, value),
//@ at ret
proof { lemma_names(); }
//@ fn get_balance
//@ ret r
requires serving(*state),
ensures balance_answer(*state, *address, parameters.m(), r),
//@ fn get_balance_array
//@ ret r
requires serving(*state),
ensures balances_answer(*state, addresses@, parameters.m(), r),
//@ at start
let ghost src = addresses@;
proof { lemma_names(); }
//@ at loop 0 before
let ghost (found, c) = (__vx_h1@, confirmations as int);
proof { assert(src.take(0) =~= Seq::empty()); if src.len() == 0 { assert(src.take(0) =~= src); } }
//@ loop 0
invariant
    it0.seq().len() == found.len(), forall|i: int| 0 <= i < found.len() ==> *#[trigger] it0.seq()[i] == found[i],
    found == __vx_h1@, balances(found, *state, c, src), serving(*state), "address"@ != "balance"@,
    balance_list(js(__vx_v1@), *state, src.take(it0.index() as int), c), it0.index() == it0.seq().len() ==> balance_list(js(__vx_v1@), *state, src, c),
//@ at loop 0 start
let ghost v0 = __vx_v1@;
//@ at loop 0 end
proof {
    let k = it0.index() as int;
    assert(*it0.seq()[k] == found[k]);
    let e = __vx_x2.j();
    assert(e is Obj);
    lemma_amount(found[k].1 as nat, e->Obj_0["balance"@]->Float_0);
    assert(total(state.answer(c, src[k])) <= supply());
    assert(e->Obj_0.dom() =~= set!["address"@, "balance"@]);
    assert(balance_entry(e, *state, src[k], c));
    assert(js(__vx_v1@) =~= js(v0).push(e));
    if k + 1 == src.len() { assert(src.take(k + 1) =~= src); }
}
//@ fn get_utxos_array
//@ ret r
requires serving(*state),
ensures utxos_lists_answer(*state, addresses@, parameters.m(), r),
//@ at start
let ghost (src, st) = (addresses@, state);
proof { lemma_names(); }
//@ at loop 0 before
let ghost (found, c) = (__vx_h1@, confirmations as int);
proof { assert(src.take(0) =~= Seq::empty()); if src.len() == 0 { assert(src.take(0) =~= src); } }
//@ loop 0
invariant
    it0.seq().len() == found.len(), forall|i: int| 0 <= i < found.len() ==> *#[trigger] it0.seq()[i] == found[i],
    found == __vx_h1@, listings(found, *state, c, src), serving(*state), "address"@ != "utxos"@, st == state,
    utxos_list(js(__vx_v3@), *state, src.take(it0.index() as int), c), it0.index() == it0.seq().len() ==> utxos_list(js(__vx_v3@), *state, src, c),
//@ at loop 0 start
let ghost (k, l, v0) = (it0.index() as int, utxos@, __vx_v3@);
proof { assert(*it0.seq()[k] == found[k]); lemma_values(st, c, src[k], l); }
//@ loop 1
invariant
    it1.seq().len() == l.len(), forall|i: int| 0 <= i < l.len() ==> *#[trigger] it1.seq()[i] == l[i], forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1 <= supply(),
    shows_utxos(js(__vx_v1@), l.take(it1.index() as int)), it1.index() == it1.seq().len() ==> shows_utxos(js(__vx_v1@), l),
//@ at loop 1 start
let ghost w0 = __vx_v1@;
//@ at loop 1 end
proof {
    let i = it1.index() as int;
    assert(*it1.seq()[i] == l[i]);
    assert(js(__vx_v1@) =~= js(w0).push(__vx_x2.j()));
    if i + 1 == l.len() { assert(l.take(i + 1) =~= l); }
}
//@ at loop 1 before
proof { if l.len() == 0 { assert(l.take(0) =~= l); } }
//@ at loop 0 end
proof {
    let e = __vx_x4.j();
    assert(e->Obj_0.dom() =~= set!["address"@, "utxos"@]);
    assert(is_list(e->Obj_0["utxos"@], state.answer(c, src[k])));
    assert(utxos_entry(e, *state, src[k], c));
    assert(js(__vx_v3@) =~= js(v0).push(e));
    if k + 1 == src.len() { assert(src.take(k + 1) =~= src); }
}
//@ fn get_utxos
//@ ret r
requires serving(*state),
ensures utxos_answer(*state, *address, parameters.m(), r),
//@ at start
let ghost (st, ad) = (state, *address);
//@ at let __vx_src0
let ghost l = __vx_src0@;
proof { lemma_values(st, confirmations as int, ad, l); if l.len() == 0 { assert(l.take(0) =~= l); } }
//@ loop 0
invariant
    it0.seq() == l, forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).1 <= supply(),
    shows_utxos(js(utxos@), l.take(it0.index() as int)), it0.index() == it0.seq().len() ==> shows_utxos(js(utxos@), l),
//@ at loop 0 start
let ghost w0 = utxos@;
//@ at loop 0 end
proof {
    let i = it0.index() as int;
    assert(it0.seq()[i] == l[i]);
    assert(js(utxos@) =~= js(w0).push(utxos@.last().j()));
    if i + 1 == l.len() { assert(l.take(i + 1) =~= l); }
}
//@ at loop 0 after
proof { assert(shows_list(js(utxos@), state.answer(confirmations as int, *address))); }
//@ fn respond
//@ ret r
ensures r.status() == status, r.text() == printed(value.j()),
//@ fn respond_ok
//@ ret r
ensures said(r, value.j()),
//@ fn respond_error
//@ ret r
ensures refused(r),
//@ fn create_server
//@ ret r
ensures r.router.state == state, complete(r.router),
//@ at start
proof { lemma_patterns(); }
//@ closure "get /addresses/{address}/balance" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3), __p1.m().contains_key("address"@),
ensures one_balance(*__p3, __p1.m()["address"@], __p1.m(), r),
//@ closure "get /addresses/{address}/utxos" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3), __p1.m().contains_key("address"@),
ensures one_utxos(*__p3, __p1.m()["address"@], __p1.m(), r),
//@ closure "get /addresses/balance" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3),
ensures all_balances(*__p3, listed(__p1.m()), __p1.m(), r),
//@ closure "post /addresses/balance" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3),
ensures all_balances(*__p3, posted(__p2@), __p1.m(), r),
//@ closure "get /addresses/utxos" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3),
ensures all_utxos(*__p3, listed(__p1.m()), __p1.m(), r),
//@ closure "post /addresses/utxos" r: Response<Body> | Request<Body> ; HashMap<String, String> ; Vec<u8> ; Arc<State>
requires serving(*__p3),
ensures all_utxos(*__p3, posted(__p2@), __p1.m(), r),
