// ---------------------------------------------------------------------------
// Assumed: bitvec (BitVec<Msb0, u8>), viewed as the sequence of its bits.
// ---------------------------------------------------------------------------
pub struct Msb0;
#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
#[verifier::reject_recursive_types(T)]
pub struct BitVec<O, T> { o: core::marker::PhantomData<(O, T)> }
/// Bits past the end, in the last byte, are zero.
pub uninterp spec fn bv_clean(b: BitVec<Msb0, u8>) -> bool;
/// The bytes `r` hold the bits `s`, and zeros after them.
pub open spec fn packs(r: Seq<u8>, s: Seq<bool>) -> bool {
    r.len() == (s.len() + 7) / 8 && forall|i: int| 0 <= i < r.len() * 8 ==> #[trigger] bits_of(r)[i] == (i < s.len() && s[i])
}
impl View for BitVec<Msb0, u8> { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl BitVec<Msb0, u8> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<bool>::empty(), bv_clean(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<u8>) -> (r: Self) ensures r@ == bits_of(v@), bv_clean(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_lit(v: &[u8]) -> (r: Self) ensures r@ == v@.map_values(|x: u8| x != 0), bv_clean(r) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<&bool>)
        ensures r matches Some(b) ==> i < self@.len() && *b == self@[i as int], r is None ==> i >= self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, b: bool) ensures final(self)@ == old(self)@.push(b), bv_clean(*old(self)) ==> bv_clean(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, i: usize) -> (r: bool)
        requires i < old(self)@.len()
        ensures r == old(self)@[i as int], final(self)@ == old(self)@.remove(i as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize)
        ensures final(self)@ == take_min(old(self)@, n as int), n >= old(self)@.len() && bv_clean(*old(self)) ==> bv_clean(*final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn all(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self@.len() ==> #[trigger] self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<u8>)
        ensures r@.len() == (self@.len() + 7) / 8,
            forall|i: int| 0 <= i < self@.len() ==> #[trigger] bits_of(r@)[i] == self@[i],
            self@.len() % 8 == 0 ==> bits_of(r@) == self@,
            bv_clean(self) ==> packs(r@, self@)
    { unimplemented!() }
}
impl Clone for BitVec<Msb0, u8> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r@ == self@, bv_clean(*self) ==> bv_clean(r) { unimplemented!() }
}
