// File identities: specification vocabulary.
/// The eight bytes of a word, least significant first.
pub open spec fn le8(x: u64) -> Seq<u8> { seq![(x >> 0u64) as u8, (x >> 8u64) as u8, (x >> 16u64) as u8, (x >> 24u64) as u8, (x >> 32u64) as u8, (x >> 40u64) as u8, (x >> 48u64) as u8, (x >> 56u64) as u8] }
/// The storage form of a file identity.
pub open spec fn ck_bytes(k: CacheKey) -> Seq<u8> { le8(k.inode) + le8(k.mtime as u64) + le8(k.size) }
pub proof fn lemma_le8_injective(a: u64, b: u64)
    requires le8(a) == le8(b)
    ensures a == b
{
    assert((a >> 0u64) as u8 == (b >> 0u64) as u8) by { assert(le8(a)[0] == le8(b)[0]); }
    assert((a >> 8u64) as u8 == (b >> 8u64) as u8) by { assert(le8(a)[1] == le8(b)[1]); }
    assert((a >> 16u64) as u8 == (b >> 16u64) as u8) by { assert(le8(a)[2] == le8(b)[2]); }
    assert((a >> 24u64) as u8 == (b >> 24u64) as u8) by { assert(le8(a)[3] == le8(b)[3]); }
    assert((a >> 32u64) as u8 == (b >> 32u64) as u8) by { assert(le8(a)[4] == le8(b)[4]); }
    assert((a >> 40u64) as u8 == (b >> 40u64) as u8) by { assert(le8(a)[5] == le8(b)[5]); }
    assert((a >> 48u64) as u8 == (b >> 48u64) as u8) by { assert(le8(a)[6] == le8(b)[6]); }
    assert((a >> 56u64) as u8 == (b >> 56u64) as u8) by { assert(le8(a)[7] == le8(b)[7]); }
    assert(a == b) by(bit_vector)
        requires (a >> 0u64) as u8 == (b >> 0u64) as u8, (a >> 8u64) as u8 == (b >> 8u64) as u8, (a >> 16u64) as u8 == (b >> 16u64) as u8, (a >> 24u64) as u8 == (b >> 24u64) as u8,
            (a >> 32u64) as u8 == (b >> 32u64) as u8, (a >> 40u64) as u8 == (b >> 40u64) as u8, (a >> 48u64) as u8 == (b >> 48u64) as u8, (a >> 56u64) as u8 == (b >> 56u64) as u8;
}
/// Distinct identities have distinct storage forms.
pub proof fn lemma_ck_injective(a: CacheKey, b: CacheKey)
    requires ck_bytes(a) == ck_bytes(b)
    ensures a == b
{
    assert(le8(a.inode) =~= ck_bytes(a).subrange(0, 8)); assert(le8(b.inode) =~= ck_bytes(b).subrange(0, 8));
    assert(le8(a.mtime as u64) =~= ck_bytes(a).subrange(8, 16)); assert(le8(b.mtime as u64) =~= ck_bytes(b).subrange(8, 16));
    assert(le8(a.size) =~= ck_bytes(a).subrange(16, 24)); assert(le8(b.size) =~= ck_bytes(b).subrange(16, 24));
    lemma_le8_injective(a.inode, b.inode); lemma_le8_injective(a.mtime as u64, b.mtime as u64); lemma_le8_injective(a.size, b.size);
    let x = a.mtime; let y = b.mtime;
    assert(x == y) by(bit_vector) requires x as u64 == y as u64;
}
/// An insertion that leaves an existing entry alone.
pub open spec fn put_new(m: Map<Seq<u8>, Seq<u8>>, k: Seq<u8>, v: Seq<u8>) -> Map<Seq<u8>, Seq<u8>> { if m.contains_key(k) { m } else { m.insert(k, v) } }
pub trait VxLe: Sized {
    spec fn le(self) -> Seq<u8>;
    /// to_le_bytes.
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) ensures r@ == self.le(), vx_same(r@);
}
impl VxLe for u64 {
    open spec fn le(self) -> Seq<u8> { le8(self) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
impl VxLe for i64 {
    open spec fn le(self) -> Seq<u8> { le8(self as u64) }
    #[verifier::external_body]
    fn vx_to_le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
