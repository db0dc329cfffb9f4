// Key ranges and prefixes: lemmas relating the order of stored keys to the bits a printed prefix stands for.
pub open spec fn lexb_lt(a: Seq<bool>, b: Seq<bool>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { !a[0] }
    else { lexb_lt(a.drop_first(), b.drop_first()) }
}
/// The number a bit string stands for.
pub open spec fn bval(a: Seq<bool>) -> int
    decreases a.len()
{ if a.len() == 0 { 0 } else { 2 * bval(a.drop_last()) + b2n(a.last()) } }

pub proof fn lemma_bval_inj(a: Seq<bool>, b: Seq<bool>)
    requires a.len() == b.len()
    ensures (bval(a) == bval(b)) == (a == b)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_bval_inj(a.drop_last(), b.drop_last());
        if bval(a) == bval(b) {
            assert(a.last() == b.last());
            assert(a =~= a.drop_last().push(a.last()));
            assert(b =~= b.drop_last().push(b.last()));
        }
    } else { assert(a =~= b); }
}
pub proof fn lemma_lexb_push(a: Seq<bool>, b: Seq<bool>, x: bool, y: bool)
    requires a.len() == b.len()
    ensures lexb_lt(a.push(x), b.push(y)) == (lexb_lt(a, b) || (a == b && !x && y))
    decreases a.len()
{
    let (p, q) = (a.push(x), b.push(y));
    if a.len() == 0 {
        assert(a =~= b);
        assert(p.drop_first() =~= Seq::<bool>::empty());
        assert(q.drop_first() =~= Seq::<bool>::empty());
        reveal_with_fuel(lexb_lt, 2);
    } else {
        assert(p.drop_first() =~= a.drop_first().push(x));
        assert(q.drop_first() =~= b.drop_first().push(y));
        lemma_lexb_push(a.drop_first(), b.drop_first(), x, y);
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    }
}
pub proof fn lemma_lexb_val(a: Seq<bool>, b: Seq<bool>)
    requires a.len() == b.len()
    ensures lexb_lt(a, b) == (bval(a) < bval(b))
    decreases a.len()
{
    if a.len() > 0 {
        lemma_lexb_val(a.drop_last(), b.drop_last());
        lemma_bval_inj(a.drop_last(), b.drop_last());
        lemma_lexb_push(a.drop_last(), b.drop_last(), a.last(), b.last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    }
}
pub proof fn lemma_lexb_take(k: Seq<bool>, s: Seq<bool>)
    requires k.len() >= s.len()
    ensures lexb_lt(k, s) == lexb_lt(k.take(s.len() as int), s)
    decreases s.len()
{
    let t = k.take(s.len() as int);
    if s.len() > 0 {
        assert(t.drop_first() =~= k.drop_first().take(s.drop_first().len() as int));
        lemma_lexb_take(k.drop_first(), s.drop_first());
    }
}
/// Zero bits at the end of the bound do not matter.
pub proof fn lemma_lexb_pad(k: Seq<bool>, s: Seq<bool>, m: int)
    requires 0 <= m <= s.len() <= k.len(), forall|i: int| m <= i < s.len() ==> !s[i]
    ensures lexb_lt(k, s) == lexb_lt(k.take(m), s.take(m))
    decreases s.len() - m
{
    lemma_lexb_take(k, s);
    if m == s.len() { assert(s.take(m) =~= s); }
    else {
        let n = (s.len() - 1) as int;
        let (a, b) = (k.take(n), s.take(n));
        lemma_lexb_push(a, b, k[n], s[n]);
        assert(k.take(s.len() as int) =~= a.push(k[n]));
        assert(s =~= b.push(s[n]));
        lemma_lexb_pad(a, b, m);
        assert(a.take(m) =~= k.take(m));
        assert(b.take(m) =~= s.take(m));
    }
}
pub proof fn lemma_lexb_front(a: Seq<bool>, b: Seq<bool>, x: Seq<bool>, y: Seq<bool>)
    requires a.len() == b.len()
    ensures lexb_lt(a + x, b + y) == (if a == b { lexb_lt(x, y) } else { lexb_lt(a, b) })
    decreases a.len()
{
    if a.len() == 0 { assert(a + x =~= x); assert(b + y =~= y); assert(a =~= b); }
    else {
        assert((a + x).drop_first() =~= a.drop_first() + x);
        assert((b + y).drop_first() =~= b.drop_first() + y);
        lemma_lexb_front(a.drop_first(), b.drop_first(), x, y);
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
            assert(a == b);
        }
    }
}
pub open spec fn bits8(v: u8) -> Seq<bool> { Seq::new(8, |k: int| bit_at(v, k)) }
pub proof fn lemma_bits8_val(v: u8)
    ensures bval(bits8(v)) == v
{
    let s = bits8(v);
    reveal_with_fuel(bval, 9);
    let (a, b, c, d, e, f, g, h) = (b2n(bit_at(v, 0)), b2n(bit_at(v, 1)), b2n(bit_at(v, 2)), b2n(bit_at(v, 3)), b2n(bit_at(v, 4)), b2n(bit_at(v, 5)), b2n(bit_at(v, 6)), b2n(bit_at(v, 7)));
    assert(bval(s) == 128 * a + 64 * b + 32 * c + 16 * d + 8 * e + 4 * f + 2 * g + h);
    assert(v == (v & 128) + (v & 64) + (v & 32) + (v & 16) + (v & 8) + (v & 4) + (v & 2) + (v & 1)) by {
        assert(v == add(add(add(add(add(add(add((v & 128), (v & 64)), (v & 32)), (v & 16)), (v & 8)), (v & 4)), (v & 2)), (v & 1))) by(bit_vector);
        assert((v & 128) <= 128 && (v & 64) <= 64 && (v & 32) <= 32 && (v & 16) <= 16 && (v & 8) <= 8 && (v & 4) <= 4 && (v & 2) <= 2 && (v & 1) <= 1) by(bit_vector);
    }
    assert((v & 128 == 0 || v & 128 == 128) && (v & 64 == 0 || v & 64 == 64) && (v & 32 == 0 || v & 32 == 32) && (v & 16 == 0 || v & 16 == 16)
        && (v & 8 == 0 || v & 8 == 8) && (v & 4 == 0 || v & 4 == 4) && (v & 2 == 0 || v & 2 == 2) && (v & 1 == 0 || v & 1 == 1)) by(bit_vector);
}
/// The order of byte strings is the order of their bits.
pub proof fn lemma_lex_bits(a: Seq<u8>, b: Seq<u8>)
    ensures lex_lt(a, b) == lexb_lt(bits_of(a), bits_of(b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        let (x, y) = (bits_of(a.drop_first()), bits_of(b.drop_first()));
        assert(bits_of(a) =~= bits8(a[0]) + x);
        assert(bits_of(b) =~= bits8(b[0]) + y);
        lemma_lexb_front(bits8(a[0]), bits8(b[0]), x, y);
        lemma_lex_bits(a.drop_first(), b.drop_first());
        lemma_bits8_val(a[0]);
        lemma_bits8_val(b[0]);
        lemma_lexb_val(bits8(a[0]), bits8(b[0]));
        lemma_bval_inj(bits8(a[0]), bits8(b[0]));
    }
}
/// Comparing a stored key with a bound made of the tag and some bits.
pub proof fn lemma_key_bound(k: Key, s: Seq<u8>, d: Seq<bool>)
    requires d.len() <= bits_of(s).len(), s.len() <= 32,
        forall|i: int| 0 <= i < d.len() ==> #[trigger] bits_of(s)[i] == d[i],
        forall|i: int| d.len() <= i < s.len() * 8 ==> !#[trigger] bits_of(s)[i],
    ensures lex_lt(db_key(k), seq![1u8] + s) == (bval(bits_of(key_bytes(k)).take(d.len() as int)) < bval(d))
{
    let kb = key_bytes(k);
    let (p, q) = (db_key(k), seq![1u8] + s);
    assert(p.drop_first() =~= kb);
    assert(q.drop_first() =~= s);
    assert(lex_lt(p, q) == lex_lt(kb, s));
    lemma_lex_bits(kb, s);
    lemma_lexb_pad(bits_of(kb), bits_of(s), d.len() as int);
    assert(bits_of(s).take(d.len() as int) =~= d);
    lemma_lexb_val(bits_of(kb).take(d.len() as int), d);
}

pub open spec fn lower(c: u8) -> u8 { if 65 <= c <= 90 { (c + 32) as u8 } else { c } }
pub open spec fn lower_eq(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> lower(#[trigger] a[i]) == lower(b[i]) }
/// `x` (without the tag) is, in any letter case, a prefix of the printed form of `k`.
pub open spec fn prefix_of(x: Seq<u8>, k: Key) -> bool { text_of(x, key_bytes(k)) }
/// The same for the 32 bytes of a key.
pub open spec fn text_of(x: Seq<u8>, b: Seq<u8>) -> bool {
    x.len() <= 52 && forall|i: int| 0 <= i < x.len() ==> lower(#[trigger] x[i]) == b32_bytes(bits_of(b))[i]
}
pub proof fn lemma_u5_bits5(s: Seq<bool>, p: int, v: int)
    requires 0 <= v < 32, forall|k: int| 0 <= k < 5 ==> bit_or0(s, p + k) == #[trigger] bit5(v, k)
    ensures u5(s, p) == v
{
    assert(bit_or0(s, p + 0) == bit5(v, 0) && bit_or0(s, p + 1) == bit5(v, 1) && bit_or0(s, p + 2) == bit5(v, 2) && bit_or0(s, p + 3) == bit5(v, 3) && bit_or0(s, p + 4) == bit5(v, 4));
    assert(v == 16 * b2n(bit5(v, 0)) + 8 * b2n(bit5(v, 1)) + 4 * b2n(bit5(v, 2)) + 2 * b2n(bit5(v, 3)) + b2n(bit5(v, 4)));
}
pub proof fn lemma_alpha_val(c: u8, v: int)
    requires 0 <= v < 32, b32val(c) >= 0
    ensures (lower(c) == alpha(v)) == (b32val(c) == v)
{}
/// A short prefix matches a key exactly when its bits do.
pub proof fn lemma_prefix_bits(x: Seq<u8>, k: Key)
    requires b32_ok(x), x.len() < 52
    ensures prefix_of(x, k) == (bits_of(key_bytes(k)).take((5 * x.len()) as int) == b32_dec(x))
{
    let s = bits_of(key_bytes(k));
    let d = b32_dec(x);
    let n = (5 * x.len()) as int;
    if prefix_of(x, k) {
        reveal_with_fuel(b32_bytes, 1);
        assert forall|i: int| 0 <= i < n implies #[trigger] s.take(n)[i] == d[i] by {
            let j = i / 5;
            assert(lower(x[j]) == b32_bytes(s)[j]);
            lemma_u5_range(s, 5 * j);
            assert(b32val(x[j]) >= 0);
            lemma_alpha_val(x[j], u5(s, 5 * j));
            lemma_u5_bits(s, 5 * j, i % 5);
        }
        assert(s.take(n) =~= d);
    }
    if s.take(n) == d {
        assert forall|j: int| 0 <= j < x.len() implies lower(#[trigger] x[j]) == b32_bytes(s)[j] by {
            let v = b32val(x[j]);
            assert(v >= 0);
            assert forall|q: int| 0 <= q < 5 implies bit_or0(s, 5 * j + q) == #[trigger] bit5(v, q) by {
                let i = 5 * j + q;
                assert(s.take(n)[i] == d[i]);
                assert(i / 5 == j && i % 5 == q);
            }
            lemma_u5_bits5(s, 5 * j, v);
            lemma_alpha_val(x[j], v);
        }
    }
}

pub proof fn lemma_alpha_low(v: int)
    requires 0 <= v < 32
    ensures lower(alpha(v)) == alpha(v), alpha(v) < 128, (alpha(v) as char) as u8 == alpha(v)
{}
/// The UTF-8 form of a printed key.
pub broadcast proof fn lemma_utf8_b32(s: Seq<bool>)
    ensures #[trigger] utf8(b32_chars(s)) == b32_bytes(s)
{
    let c = b32_chars(s);
    assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i] as u32) < 128 && c[i] as u8 == b32_bytes(s)[i] by {
        lemma_u5_range(s, 5 * i);
        lemma_alpha_low(u5(s, 5 * i));
    }
    vstd::utf8::is_ascii_chars_nat_bound(c);
    assert(vstd::utf8::is_ascii_chars(c));
    lemma_ascii_utf8(c);
    assert(utf8(c) =~= b32_bytes(s));
}
/// Text that reads, in any letter case, as the printed form of 32 bytes decodes to their bits.
pub broadcast proof fn lemma_text_dec(x: Seq<u8>, b: Seq<u8>)
    requires x.len() == 52, b.len() == 32
    ensures #[trigger] text_of(x, b) ==> take_min(b32_dec(x), 256) == bits_of(b)
{
    if text_of(x, b) {
        let s = bits_of(b);
        let y = b32_bytes(s);
        assert forall|i: int| 0 <= i < 52 implies b32val(#[trigger] x[i]) == b32val(y[i]) by { assert(lower(x[i]) == y[i]); }
        assert(b32_dec(x) =~= b32_dec(y));
        lemma_b32_round_trip(s);
    }
}
/// Comparing with the printed form of 32 bytes, ignoring letter case.
pub broadcast proof fn lemma_lower_text(x: Seq<u8>, b: Seq<u8>)
    requires b.len() == 32
    ensures #[trigger] lower_eq(b32_bytes(bits_of(b)), x) == (x.len() == 52 && text_of(x, b))
{
    let s = bits_of(b);
    let y = b32_bytes(s);
    assert forall|i: int| 0 <= i < 52 implies lower(#[trigger] y[i]) == y[i] by {
        lemma_u5_range(s, 5 * i);
        lemma_alpha_low(u5(s, 5 * i));
    }
    if lower_eq(y, x) { assert forall|i: int| 0 <= i < x.len() implies lower(#[trigger] x[i]) == y[i] by { assert(lower(y[i]) == lower(x[i])); } }
}
pub broadcast proof fn lemma_bits_inj(a: Seq<u8>, b: Seq<u8>)
    ensures #![trigger bits_of(a), bits_of(b)] bits_of(a) == bits_of(b) ==> a == b
{
    if bits_of(a) == bits_of(b) { lemma_bits_injective(a, b); }
}
pub broadcast proof fn lemma_insert_front(s: Seq<u8>, x: u8)
    ensures #[trigger] s.insert(0, x) == seq![x] + s
{
    assert(s.insert(0, x) =~= seq![x] + s);
}
/// What an abbreviation means, in terms of the numbers the bits stand for.
pub broadcast proof fn lemma_prefix_val(x: Seq<u8>, k: Key)
    requires b32_ok(x), x.len() < 52
    ensures #[trigger] prefix_of(x, k) == (bval(bits_of(key_bytes(k)).take((5 * x.len()) as int)) == bval(b32_dec(x)))
{
    lemma_prefix_bits(x, k);
    lemma_bval_inj(bits_of(key_bytes(k)).take((5 * x.len()) as int), b32_dec(x));
}
pub broadcast proof fn lemma_bound_val(k: Key, s: Seq<u8>, d: Seq<bool>)
    requires #[trigger] packs(s, d), s.len() <= 32
    ensures #[trigger] lex_lt(db_key(k), seq![1u8] + s) == (bval(bits_of(key_bytes(k)).take(d.len() as int)) < bval(d))
{
    lemma_key_bound(k, s, d);
}
pub broadcast proof fn lemma_bval_ones(a: Seq<bool>, b: Seq<bool>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i]
    ensures #![trigger bval(a), bval(b)] bval(a) <= bval(b)
    decreases a.len()
{
    if a.len() > 0 { assert(b[b.len() - 1]); lemma_bval_ones(a.drop_last(), b.drop_last()); }
}
pub broadcast group group_keyish { lemma_utf8_b32, lemma_text_dec, lemma_lower_text, lemma_bits_inj, lemma_insert_front, lemma_prefix_val, lemma_bound_val, lemma_bval_ones }
