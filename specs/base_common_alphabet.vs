//@ file base_common/alphabet.rs
//@ top
broadcast use crate::shim::shim_axioms;
/// all characters ASCII and pairwise distinct
pub open spec fn usable(s: Seq<u8>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] < 128
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] != s[j]
}
pub open spec fn in_chars(chars: Seq<u8>, c: u8) -> bool { exists|i: int| 0 <= i < chars.len() && #[trigger] chars[i] == c }
/// the digit a character stands for
pub open spec fn digit(chars: Seq<u8>, c: u8) -> u8 { (choose|i: int| 0 <= i < chars.len() && #[trigger] chars[i] == c) as u8 }
/// distinctness in a form that can be evaluated
pub open spec fn fresh(s: Seq<u8>, x: u8, n: int) -> bool
    decreases n,
{ n <= 0 || (s[n - 1] != x && fresh(s, x, n - 1)) }
pub open spec fn distinct(s: Seq<u8>, n: int) -> bool
    decreases n,
{ n <= 0 || (s[n - 1] < 128 && fresh(s, s[n - 1], n - 1) && distinct(s, n - 1)) }
pub proof fn lemma_fresh(s: Seq<u8>, x: u8, n: int)
    requires fresh(s, x, n), 0 <= n <= s.len(),
    ensures forall|i: int| 0 <= i < n ==> s[i] != x,
    decreases n,
{ if n > 0 { lemma_fresh(s, x, n - 1); } }
pub proof fn lemma_distinct(s: Seq<u8>, n: int)
    requires distinct(s, n), 0 <= n <= s.len(),
    ensures forall|i: int| 0 <= i < n ==> s[i] < 128, forall|i: int, j: int| 0 <= i < j < n ==> s[i] != s[j],
    decreases n,
{ if n > 0 { lemma_distinct(s, n - 1); lemma_fresh(s, s[n - 1], n - 1); } }
//@ impl Alphabet
/// the two tables are inverse to each other
pub open spec fn wf(&self) -> bool {
    &&& N <= 128
    &&& forall|i: int| 0 <= i < N ==> #[trigger] self.encode@[i] < 128 && self.decode@[self.encode@[i] as int] == Some(i as u8)
    &&& forall|c: int| 0 <= c < 128 ==> (#[trigger] self.decode@[c] matches Some(v) ==> v < N && self.encode@[v as int] == c)
}
pub open spec fn chars(&self) -> Seq<u8> { self.encode@ }
pub proof fn lemma_digit(&self, i: int)
    requires self.wf(), 0 <= i < N,
    ensures in_chars(self.chars(), self.chars()[i]), digit(self.chars(), self.chars()[i]) == i,
{
    let c = self.chars()[i];
    let j = choose|j: int| 0 <= j < self.chars().len() && #[trigger] self.chars()[j] == c;
    assert(self.decode@[self.encode@[j] as int] == Some(j as u8));
    assert(self.decode@[self.encode@[i] as int] == Some(i as u8));
}
pub proof fn lemma_has(&self, c: u8)
    requires self.wf(), in_chars(self.chars(), c),
    ensures 0 <= digit(self.chars(), c) < N, self.chars()[digit(self.chars(), c) as int] == c,
{
    let j = choose|j: int| 0 <= j < self.chars().len() && #[trigger] self.chars()[j] == c;
}
//@ fn Alphabet::encode
//@ ret r
requires value < N,
ensures r == self.chars()[value as int],
//@ fn Alphabet::decode
//@ ret r
requires self.wf(),
ensures
    r is Ok <==> in_chars(self.chars(), value),
    r matches Ok(d) ==> d == digit(self.chars(), value) && d < N && self.chars()[d as int] == value,
    r matches Err(e) ==> e == (if value >= 128 { DecodeError::NonAsciiCharacter { character: value, index } } else { DecodeError::InvalidCharacter { character: value as char, index } }),
//@ at start
proof {
    if in_chars(self.chars(), value) {
        let j = choose|j: int| 0 <= j < self.chars().len() && #[trigger] self.chars()[j] == value;
        assert(self.decode@[self.encode@[j] as int] == Some(j as u8));
        self.lemma_digit(j);
    }
}
//@ fn Alphabet::new
//@ ret r
requires N <= 128,
ensures
    r is Ok <==> usable(characters@),
    r matches Ok(a) ==> a.wf() && a.chars() == characters@,
//@ loop 0
invariant
    N <= 128,
    index <= N,
    encode@.len() == N, decode@.len() == 128,
    forall|i: int| 0 <= i < index ==> #[trigger] characters@[i] < 128 && encode@[i] == characters@[i],
    forall|i: int| 0 <= i < index ==> #[trigger] encode@[i] == characters@[i],
    forall|i: int| 0 <= i < index ==> decode@[#[trigger] encode@[i] as int] == Some(i as u8),
    forall|c: int| 0 <= c < 128 ==> (#[trigger] decode@[c] matches Some(v) ==> v < index && encode@[v as int] == c),
decreases N - index,
//@ at end
assert(encode@ =~= characters@);
//@ fn Alphabet::len
//@ ret r
ensures r == N,
