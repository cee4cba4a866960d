//@ file base_binary/mod.rs
//@ top
use crate::nums::*;
use crate::base_common::alphabet::*;
use crate::base58::{to_chars, to_digits};
/// number of 6-bit digits for n bytes
pub open spec fn ndigits(n: nat) -> nat { (8 * n + 5) as nat / 6 }
/// length of the padded text of m digits: the next multiple of four
pub open spec fn padded(m: nat) -> nat { ((m + 3) / 4 * 4) as nat }
/// `d` are the 6-bit digits of the bytes, filled up with zero bits at the end
pub open spec fn is_digits(d: Seq<u8>, s: Seq<u8>) -> bool {
    &&& d.len() == ndigits(s.len())
    &&& digits_ok(d, 64)
    &&& be_val(d, 64) == be_val(s, 256) * pw(2, (d.len() * 6 - 8 * s.len()) as nat)
}
/// the text of some digits, padded with '='
pub open spec fn text_of(d: Seq<u8>, chars: Seq<u8>) -> Seq<u8> {
    to_chars(d, chars) + Seq::new((padded(d.len()) - d.len()) as nat, |i: int| 0x3du8)
}
/// RFC 4648 text of a byte string
pub open spec fn is_text(t: Seq<u8>, s: Seq<u8>, chars: Seq<u8>) -> bool {
    exists|d: Seq<u8>| #[trigger] is_digits(d, s) && t == text_of(d, chars)
}
/// the text without padding characters
pub open spec fn strip(t: Seq<u8>) -> Seq<u8>
    decreases t.len(),
{ if t.len() == 0 { t } else if t.last() == 0x3d { strip(t.drop_last()) } else { strip(t.drop_last()).push(t.last()) } }
pub open spec fn pad_or_in(chars: Seq<u8>, c: u8) -> bool { c == 0x3d || in_chars(chars, c) }
/// only padding and characters of the alphabet
pub open spec fn over(text: Seq<u8>, chars: Seq<u8>) -> bool { forall|i: int| 0 <= i < text.len() ==> pad_or_in(chars, #[trigger] text[i]) }
/// the digits of a text
pub open spec fn digits_of(text: Seq<u8>, chars: Seq<u8>) -> Seq<u8> { to_digits(strip(text), chars) }
/// number of whole bytes in m digits, and of the bits left over
pub open spec fn whole(m: nat) -> nat { m * 6 / 8 }
pub open spec fn left(m: nat) -> nat { (m * 6 - 8 * whole(m)) as nat }
/// `s` are the whole bytes of the digits, and the bits left over are zero
pub open spec fn is_bytes(s: Seq<u8>, d: Seq<u8>) -> bool {
    s.len() == whole(d.len()) && be_val(d, 64) == be_val(s, 256) * pw(2, left(d.len()))
}
/// strings of the same length and value are the same
pub proof fn lemma_be_unique(a: Seq<u8>, b: Seq<u8>, base: nat)
    requires a.len() == b.len(), digits_ok(a, base), digits_ok(b, base), be_val(a, base) == be_val(b, base), base > 0,
    ensures a == b,
    decreases a.len(),
{
    if a.len() > 0 {
        let (x, y, p, q) = (be_val(a.drop_last(), base), be_val(b.drop_last(), base), a.last() as nat, b.last() as nat);
        assert(a[a.len() - 1] < base && b[b.len() - 1] < base);
        assert(x == y) by(nonlinear_arith) requires x * base + p == y * base + q, p < base, q < base;
        assert forall|i: int| 0 <= i < a.drop_last().len() implies (#[trigger] a.drop_last()[i]) < base by { assert(a[i] < base); }
        assert forall|i: int| 0 <= i < b.drop_last().len() implies (#[trigger] b.drop_last()[i]) < base by { assert(b[i] < base); }
        lemma_be_unique(a.drop_last(), b.drop_last(), base);
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else {
        assert(a =~= b);
    }
}
pub proof fn lemma_strip_app(t: Seq<u8>, n: nat)
    requires forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] != 0x3d,
    ensures strip(t + Seq::new(n, |i: int| 0x3du8)) == t,
    decreases n + t.len(),
{
    let u = t + Seq::new(n, |i: int| 0x3du8);
    if n > 0 {
        assert(u.drop_last() =~= t + Seq::new((n - 1) as nat, |i: int| 0x3du8));
        lemma_strip_app(t, (n - 1) as nat);
    } else if t.len() > 0 {
        assert(u =~= t);
        assert(t.drop_last() + Seq::new(0, |i: int| 0x3du8) =~= t.drop_last());
        lemma_strip_app(t.drop_last(), 0);
        assert(t =~= t.drop_last().push(t.last()));
    } else {
        assert(u =~= t);
    }
}
/// the text of a byte string decodes to it, and to nothing else
pub proof fn lemma_inverse(t: Seq<u8>, s: Seq<u8>, a: Alphabet<64>)
    requires a.wf(), is_text(t, s, a.chars()), !in_chars(a.chars(), 0x3d),
    ensures
        over(t, a.chars()), is_bytes(s, digits_of(t, a.chars())),
        forall|o: Seq<u8>| is_bytes(o, digits_of(t, a.chars())) ==> o == s,
{
    let chars = a.chars();
    let d = choose|d: Seq<u8>| #[trigger] is_digits(d, s) && t == text_of(d, chars);
    let c = to_chars(d, chars);
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] c[i] != 0x3d && in_chars(chars, c[i]) && digit(chars, c[i]) == d[i] by {
        assert(d[i] < 64);
        a.lemma_digit(d[i] as int);
    }
    lemma_strip_app(c, (padded(d.len()) - d.len()) as nat);
    assert(to_digits(c, chars) =~= d);
    assert forall|i: int| 0 <= i < t.len() implies pad_or_in(chars, #[trigger] t[i]) by { if i < c.len() { assert(t[i] == c[i]); } }
    assert forall|o: Seq<u8>| is_bytes(o, d) implies o == s by {
        let p = pw(2, left(d.len()));
        lemma_pw_pos(2, left(d.len()));
        let (x, y) = (be_val(o, 256), be_val(s, 256));
        assert(x == y) by(nonlinear_arith) requires x * p == y * p, p > 0;
        lemma_be_unique(o, s, 256);
    }
}
/// one byte string has one text
pub proof fn lemma_text_unique(t: Seq<u8>, u: Seq<u8>, s: Seq<u8>, chars: Seq<u8>)
    requires is_text(t, s, chars), is_text(u, s, chars),
    ensures t == u,
{
    let d = choose|d: Seq<u8>| #[trigger] is_digits(d, s) && t == text_of(d, chars);
    let e = choose|d: Seq<u8>| #[trigger] is_digits(d, s) && u == text_of(d, chars);
    lemma_be_unique(d, e, 64);
}
/// (x * p + a) with its low b bits taken off, p = 2^(6+b): the next digit
pub proof fn lemma_emit(x: nat, a: nat, b: nat, w: nat)
    requires a < pw(2, w + b),
    ensures
        a / pw(2, b) < pw(2, w), a % pw(2, b) < pw(2, b),
        x * pw(2, w + b) + a == (x * pw(2, w) + a / pw(2, b)) * pw(2, b) + a % pw(2, b),
{
    lemma_pw_pos(2, b);
    lemma_pw_add(2, w, b);
    let (p, q) = (pw(2, w), pw(2, b));
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a as int, q as int);
    vstd::arithmetic::div_mod::lemma_mod_bound(a as int, q as int);
    let (d, r) = (a / q, a % q);
    assert(d < p) by(nonlinear_arith) requires a == q * d + r, a < p * q, r >= 0, q > 0;
    assert(x * (p * q) + a == (x * p + d) * q + r) by(nonlinear_arith) requires a == q * d + r;
}
/// (x * 2^b + a) with w bits appended
pub proof fn lemma_absorb(x: nat, a: nat, v: nat, b: nat, w: nat)
    requires a < pw(2, b), v < pw(2, w),
    ensures
        a * pw(2, w) + v < pw(2, b + w),
        (x * pw(2, b) + a) * pw(2, w) + v == x * pw(2, b + w) + (a * pw(2, w) + v),
{
    lemma_pw_add(2, b, w);
    let (p, q) = (pw(2, b), pw(2, w));
    assert(a * q + v < p * q) by(nonlinear_arith) requires a + 1 <= p, v < q;
    assert((x * p + a) * q + v == x * (p * q) + (a * q + v)) by(nonlinear_arith);
}

pub proof fn lemma_pw2(n: nat)
    requires n <= 15,
    ensures pw(2, n) == (1usize << (n as usize)), pw(2, n) > 0, n == 0 ==> pw(2, n) == 1, n == 6 ==> pw(2, n) == 64, n == 8 ==> pw(2, n) == 256, pw(2, n) <= 32768,
{
    reveal_with_fuel(pw, 17);
    assert(1usize << 0usize == 1) by(bit_vector); assert(1usize << 1usize == 2) by(bit_vector); assert(1usize << 2usize == 4) by(bit_vector);
    assert(1usize << 3usize == 8) by(bit_vector); assert(1usize << 4usize == 16) by(bit_vector); assert(1usize << 5usize == 32) by(bit_vector);
    assert(1usize << 6usize == 64) by(bit_vector); assert(1usize << 7usize == 128) by(bit_vector); assert(1usize << 8usize == 256) by(bit_vector);
    assert(1usize << 9usize == 512) by(bit_vector); assert(1usize << 10usize == 1024) by(bit_vector); assert(1usize << 11usize == 2048) by(bit_vector);
    assert(1usize << 12usize == 4096) by(bit_vector); assert(1usize << 13usize == 8192) by(bit_vector); assert(1usize << 14usize == 16384) by(bit_vector);
    assert(1usize << 15usize == 32768) by(bit_vector);
}
macro_rules! bits_case {
    ($a:ident, $b:ident, $n:expr, $p:expr) => { verus_proof_expr! {{
        if $b == $n {
            assert($a & ((1usize << $n) - 1usize) as usize == $a % $p) by(bit_vector);
            assert($a >> $n == $a / $p) by(bit_vector);
        }
    }} };
}
/// shifting and masking are division and remainder by a power of two
pub proof fn lemma_split_bits(a: usize, b: usize)
    requires b <= 15,
    ensures a & ((1usize << b) - 1) as usize == a as nat % pw(2, b as nat), a >> b == a as nat / pw(2, b as nat),
{
    lemma_pw2(b as nat);
    reveal_with_fuel(pw, 17);
    bits_case!(a, b, 0usize, 1usize);
    bits_case!(a, b, 1usize, 2usize);
    bits_case!(a, b, 2usize, 4usize);
    bits_case!(a, b, 3usize, 8usize);
    bits_case!(a, b, 4usize, 16usize);
    bits_case!(a, b, 5usize, 32usize);
    bits_case!(a, b, 6usize, 64usize);
    bits_case!(a, b, 7usize, 128usize);
    bits_case!(a, b, 8usize, 256usize);
    bits_case!(a, b, 9usize, 512usize);
    bits_case!(a, b, 10usize, 1024usize);
    bits_case!(a, b, 11usize, 2048usize);
    bits_case!(a, b, 12usize, 4096usize);
    bits_case!(a, b, 13usize, 8192usize);
    bits_case!(a, b, 14usize, 16384usize);
    bits_case!(a, b, 15usize, 32768usize);
}
macro_rules! join_case {
    ($a:ident, $b:ident, $v:ident, $n:expr, $p:expr) => { verus_proof_expr! {{
        if $b == $n {
            assert(($a << $n) | $v == ($a * $p + $v) as usize) by(bit_vector) requires $a < 65536, $v < $p;
            assert($a << $n == ($a * $p) as usize) by(bit_vector) requires $a < 65536;
        }
    }} };
}
/// appending b bits
pub proof fn lemma_join_bits(a: usize, b: usize, v: usize)
    requires b <= 8, a < 65536, v < pw(2, b as nat),
    ensures (a << b) | v == a * pw(2, b as nat) + v, a << b == a * pw(2, b as nat),
{
    reveal_with_fuel(pw, 17);
    join_case!(a, b, v, 0usize, 1usize);
    join_case!(a, b, v, 1usize, 2usize);
    join_case!(a, b, v, 2usize, 4usize);
    join_case!(a, b, v, 3usize, 8usize);
    join_case!(a, b, v, 4usize, 16usize);
    join_case!(a, b, v, 5usize, 32usize);
    join_case!(a, b, v, 6usize, 64usize);
    join_case!(a, b, v, 7usize, 128usize);
    join_case!(a, b, v, 8usize, 256usize);
}
