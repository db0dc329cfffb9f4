// ---------------------------------------------------------------------------
// Bits of byte strings (most significant first) and base32 (RFC 4648 alphabet, lower case).
// ---------------------------------------------------------------------------
global size_of usize == 8;
pub open spec fn bit_at(b: u8, k: int) -> bool {
    if k == 0 { b & 128 != 0 } else if k == 1 { b & 64 != 0 } else if k == 2 { b & 32 != 0 } else if k == 3 { b & 16 != 0 }
    else if k == 4 { b & 8 != 0 } else if k == 5 { b & 4 != 0 } else if k == 6 { b & 2 != 0 } else { b & 1 != 0 }
}
pub open spec fn bits_of(b: Seq<u8>) -> Seq<bool> {
    Seq::new(b.len() * 8, |i: int| bit_at(b[i / 8], i % 8))
}
pub open spec fn b2n(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn bit_or0(s: Seq<bool>, i: int) -> bool { 0 <= i < s.len() && s[i] }
/// The value of the five bits starting at p; bits past the end count as zero.
pub open spec fn u5(s: Seq<bool>, p: int) -> int {
    16 * b2n(bit_or0(s, p)) + 8 * b2n(bit_or0(s, p + 1)) + 4 * b2n(bit_or0(s, p + 2)) + 2 * b2n(bit_or0(s, p + 3)) + b2n(bit_or0(s, p + 4))
}
/// Bit k (0 = most significant) of a five-bit value.
pub open spec fn bit5(v: int, k: int) -> bool {
    if k == 0 { (v / 16) % 2 == 1 } else if k == 1 { (v / 8) % 2 == 1 } else if k == 2 { (v / 4) % 2 == 1 } else if k == 3 { (v / 2) % 2 == 1 } else { v % 2 == 1 }
}
/// The alphabet: a-z then 2-7.
pub open spec fn alpha(v: int) -> u8 { if v < 26 { (97 + v) as u8 } else { (24 + v) as u8 } }
/// The value of a (case-insensitive) base32 character; -1 if it is not one.
pub open spec fn b32val(c: u8) -> int {
    if 97 <= c <= 122 { c - 97 } else if 65 <= c <= 90 { c - 65 } else if 50 <= c <= 55 { c - 24 } else { -1 }
}
pub open spec fn b32_groups(n: int) -> int { (n + 4) / 5 }
pub open spec fn b32_bytes(s: Seq<bool>) -> Seq<u8> {
    Seq::new(b32_groups(s.len() as int) as nat, |j: int| alpha(u5(s, 5 * j)))
}
pub open spec fn b32_chars(s: Seq<bool>) -> Seq<char> {
    Seq::new(b32_groups(s.len() as int) as nat, |j: int| alpha(u5(s, 5 * j)) as char)
}
pub open spec fn b32_ok(x: Seq<u8>) -> bool { forall|i: int| 0 <= i < x.len() ==> b32val(#[trigger] x[i]) >= 0 }
/// The bits a base32 text stands for.
pub open spec fn b32_dec(x: Seq<u8>) -> Seq<bool> {
    Seq::new(x.len() * 5, |i: int| bit5(b32val(x[i / 5]), i % 5))
}
pub open spec fn take_min<T>(s: Seq<T>, n: int) -> Seq<T> { if n < s.len() { s.take(n) } else { s } }

pub proof fn lemma_u5_range(s: Seq<bool>, p: int)
    ensures 0 <= u5(s, p) < 32, b32val(alpha(u5(s, p))) == u5(s, p)
{ }
pub proof fn lemma_u5_bits(s: Seq<bool>, p: int, k: int)
    requires 0 <= k < 5, 0 <= p
    ensures bit5(u5(s, p), k) == bit_or0(s, p + k)
{
    let (a, b, c, d, e) = (b2n(bit_or0(s, p)), b2n(bit_or0(s, p + 1)), b2n(bit_or0(s, p + 2)), b2n(bit_or0(s, p + 3)), b2n(bit_or0(s, p + 4)));
    assert(u5(s, p) / 16 == a);
    assert(u5(s, p) / 8 == 2 * a + b);
    assert(u5(s, p) / 4 == 4 * a + 2 * b + c);
    assert(u5(s, p) / 2 == 8 * a + 4 * b + 2 * c + d);
}
/// Encoding loses nothing: decoding the text and cutting to the original length gives the bits back.
pub proof fn lemma_b32_round_trip(s: Seq<bool>)
    ensures b32_ok(b32_bytes(s)), take_min(b32_dec(b32_bytes(s)), s.len() as int) == s
{
    let x = b32_bytes(s);
    assert forall|i: int| 0 <= i < x.len() implies b32val(#[trigger] x[i]) >= 0 by { lemma_u5_range(s, 5 * i); }
    let d = b32_dec(x);
    assert(d.len() >= s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] d[i] == s[i] by {
        let j = i / 5;
        assert(0 <= j < x.len());
        lemma_u5_range(s, 5 * j);
        lemma_u5_bits(s, 5 * j, i % 5);
        assert(5 * j + i % 5 == i);
    }
    assert(take_min(d, s.len() as int) =~= s);
}

pub proof fn lemma_byte_from_bits(a: u8, b: u8)
    requires forall|k: int| 0 <= k < 8 ==> bit_at(a, k) == bit_at(b, k)
    ensures a == b
{
    assert(bit_at(a, 0) == bit_at(b, 0)); assert(bit_at(a, 1) == bit_at(b, 1)); assert(bit_at(a, 2) == bit_at(b, 2)); assert(bit_at(a, 3) == bit_at(b, 3));
    assert(bit_at(a, 4) == bit_at(b, 4)); assert(bit_at(a, 5) == bit_at(b, 5)); assert(bit_at(a, 6) == bit_at(b, 6)); assert(bit_at(a, 7) == bit_at(b, 7));
    assert(a == b) by(bit_vector)
        requires (a & 128 != 0) == (b & 128 != 0), (a & 64 != 0) == (b & 64 != 0), (a & 32 != 0) == (b & 32 != 0), (a & 16 != 0) == (b & 16 != 0),
            (a & 8 != 0) == (b & 8 != 0), (a & 4 != 0) == (b & 4 != 0), (a & 2 != 0) == (b & 2 != 0), (a & 1 != 0) == (b & 1 != 0);
}
pub proof fn lemma_bits_injective(a: Seq<u8>, b: Seq<u8>)
    requires bits_of(a) == bits_of(b)
    ensures a == b
{
    assert(bits_of(a).len() == a.len() * 8);
    assert(bits_of(b).len() == b.len() * 8);
    assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
        assert forall|k: int| 0 <= k < 8 implies bit_at(a[i], k) == bit_at(b[i], k) by {
            let p = 8 * i + k;
            assert(p / 8 == i && p % 8 == k);
            assert(bits_of(a)[p] == bit_at(a[i], k));
            assert(bits_of(b)[p] == bit_at(b[i], k));
        }
        lemma_byte_from_bits(a[i], b[i]);
    }
    assert(a =~= b);
}
