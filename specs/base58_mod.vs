//@ file base58/mod.rs
//@ top
use crate::base_common::alphabet::*;
use crate::nums::*;
/// the Bitcoin alphabet "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
pub open spec fn btc58() -> Seq<u8> {
    seq![49u8, 50, 51, 52, 53, 54, 55, 56, 57, 65, 66, 67, 68, 69, 70, 71, 72, 74, 75, 76, 77, 78, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90,
         97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122]
}
/// digits to characters
pub open spec fn to_chars(d: Seq<u8>, chars: Seq<u8>) -> Seq<u8> { d.map_values(|x: u8| chars[x as int]) }
/// Base58 text of a byte string over the given characters
pub open spec fn b58_text(input: Seq<u8>, chars: Seq<u8>) -> Seq<u8> { to_chars(rebase(input, 256, 58), chars) }
pub open spec fn b58(input: Seq<u8>) -> Seq<u8> { b58_text(input, btc58()) }
/// only characters of the alphabet
pub open spec fn over(text: Seq<u8>, chars: Seq<u8>) -> bool { forall|i: int| 0 <= i < text.len() ==> in_chars(chars, #[trigger] text[i]) }
/// characters to digits
pub open spec fn to_digits(text: Seq<u8>, chars: Seq<u8>) -> Seq<u8> { text.map_values(|c: u8| digit(chars, c)) }
/// the byte string a Base58 text stands for
pub open spec fn b58_bytes(text: Seq<u8>, chars: Seq<u8>) -> Seq<u8> { rebase(to_digits(text, chars), 58, 256) }

/// the buffer starts with `cur` and is otherwise as it was
pub open spec fn holds(buf: Seq<u8>, cur: Seq<u8>, out0: Seq<u8>) -> bool {
    &&& buf.len() == out0.len() && cur.len() <= buf.len()
    &&& forall|i: int| 0 <= i < cur.len() ==> #[trigger] buf[i] == cur[i]
    &&& forall|i: int| cur.len() <= i < buf.len() ==> #[trigger] buf[i] == out0[i]
}
pub proof fn lemma_reversed(a: Seq<u8>, b: Seq<u8>, dg: Seq<u8>, out0: Seq<u8>)
    requires
        holds(a, dg, out0), b.len() == a.len(),
        b.take(dg.len() as int) =~= a.take(dg.len() as int).reverse(),
        b.skip(dg.len() as int) =~= a.skip(dg.len() as int),
    ensures
        b == dg.reverse() + out0.skip(dg.len() as int),
{
    let n = dg.len() as int;
    assert(a.take(n) =~= dg);
    assert(a.skip(n) =~= out0.skip(n));
    assert(b =~= b.take(n) + b.skip(n));
}

/// decoding inverts encoding
pub proof fn lemma_b58_inverse(input: Seq<u8>, a: Alphabet<58>)
    requires a.wf(),
    ensures over(b58_text(input, a.chars()), a.chars()), b58_bytes(b58_text(input, a.chars()), a.chars()) == input,
{
    assert(digits_ok(input, 256));
    lemma_rebase_inverse(input, 256, 58);
    let d = rebase(input, 256, 58);
    let t = b58_text(input, a.chars());
    assert forall|i: int| 0 <= i < t.len() implies in_chars(a.chars(), #[trigger] t[i]) && digit(a.chars(), t[i]) == d[i] by {
        assert(d[i] < 58);
        a.lemma_digit(d[i] as int);
    }
    assert(to_digits(t, a.chars()) =~= d);
}
/// and encoding inverts decoding: a byte string has exactly one text
pub proof fn lemma_b58_canonical(text: Seq<u8>, a: Alphabet<58>)
    requires a.wf(), over(text, a.chars()),
    ensures b58_text(b58_bytes(text, a.chars()), a.chars()) == text,
{
    let d = to_digits(text, a.chars());
    assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]) < 58 && a.chars()[d[i] as int] == text[i] by {
        assert(in_chars(a.chars(), text[i]));
        a.lemma_has(text[i]);
    }
    lemma_rebase_inverse(d, 58, 256);
    assert(to_chars(d, a.chars()) =~= text);
}
pub proof fn lemma_btc58()
    ensures usable(btc58()), btc58().len() == 58,
{
    assert(distinct(btc58(), 58)) by(compute_only);
    lemma_distinct(btc58(), 58);
}
//@ fn ALPHABET
ensures ALPHABET.wf(), ALPHABET.chars() == btc58(),
//@ at start
proof {
    lemma_btc58();
    assert forall|s: Seq<u8>| s.len() == 58 && (forall|i: int| 0 <= i < 58 ==> s[i] == btc58()[i]) implies #[trigger] usable(s) && s == btc58() by {
        assert(s =~= btc58());
    }
}
