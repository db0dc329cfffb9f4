// ---------------------------------------------------------------------------
// Assumed: std::collections::HashMap and HashSet.  Their keys are known by what Eq and Hash compare.
// ---------------------------------------------------------------------------
pub trait VxKey { type KV; spec fn kv(&self) -> Self::KV; }
impl VxKey for Path { type KV = Comps; open spec fn kv(&self) -> Comps { self@ } }
impl<'a, T: VxKey> VxKey for &'a T { type KV = T::KV; open spec fn kv(&self) -> T::KV { (**self).kv() } }
impl VxKey for (Path, bool) { type KV = (Comps, bool); open spec fn kv(&self) -> (Comps, bool) { (self.0@, self.1) } }
pub open spec fn kvs<K: VxKey>(s: Seq<K>) -> Seq<K::KV> { s.map_values(|k: K| k.kv()) }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K: VxKey, V> { x: Vec<(K, V)> }
impl<K: VxKey, V> View for HashMap<K, V> { type V = Map<K::KV, V>; uninterp spec fn view(&self) -> Map<K::KV, V>; }
impl<K: VxKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    /// Extend with another map: its entries win.
    #[verifier::external_body]
    pub fn vx_extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Map::<K::KV, V>::empty()) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: VxKey> { x: Vec<K> }
impl<K: VxKey> View for HashSet<K> { type V = Set<K::KV>; uninterp spec fn view(&self) -> Set<K::KV>; }
impl<K: VxKey> HashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.kv()), r == !old(self)@.contains(k.kv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures self@.finite(), r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains<'a>(&self, k: &'a K) -> (r: bool) ensures r == self@.contains(k.kv()) { unimplemented!() }
}
impl<K: VxKey> VxFromSeq<K> for HashSet<K> {
    open spec fn from_seq(s: Seq<K>, r: Self) -> bool { r@ == kvs(s).to_set() }
    #[verifier::external_body]
    fn vx_from(v: VxIt<K>) -> (r: Self) { unimplemented!() }
}
pub trait VxCollect<T>: Sized {
    #[verifier::prophetic] spec fn litems(&self) -> Seq<T>;
    /// Iterator::collect.
    fn vx_collect<C: VxFromSeq<T>>(self) -> (r: C) ensures C::from_seq(self.litems(), r);
}
impl<'a, T> VxCollect<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn litems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_collect<C: VxFromSeq<&'a T>>(self) -> (r: C) { C::vx_from(VxIt { v: self.collect() }) }
}
impl<'a, T> VxAll<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn aitems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_all<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool) { let mut s = self; s.all(f) }
}
pub trait VxZip<'a, A>: Sized {
    #[verifier::prophetic] spec fn zitems(&self) -> Seq<&'a A>;
    /// Iterator::zip of two slice iterators, collected.
    fn vx_zip<'b, B>(self, o: core::slice::Iter<'b, B>) -> (r: Vec<(&'a A, &'b B)>)
        ensures
            r@.len() == (if self.zitems().len() <= o.remaining().len() { self.zitems().len() } else { o.remaining().len() }),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == self.zitems()[i] && r@[i].1 == o.remaining()[i];
}
impl<'a, A> VxZip<'a, A> for core::slice::Iter<'a, A> {
    #[verifier::prophetic] open spec fn zitems(&self) -> Seq<&'a A> { self.remaining() }
    #[verifier::external_body]
    fn vx_zip<'b, B>(self, o: core::slice::Iter<'b, B>) -> (r: Vec<(&'a A, &'b B)>) { self.zip(o).collect() }
}
impl<T> VxCollect<T> for Vec<T> {
    #[verifier::prophetic] open spec fn litems(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_collect<C: VxFromSeq<T>>(self) -> (r: C) { C::vx_from(VxIt { v: self }) }
}
/// The same elements, in another order.
#[verifier::opaque]
pub open spec fn reordered<T>(a: Seq<T>, b: Seq<T>) -> bool {
    exists|p: Seq<int>, q: Seq<int>| #[trigger] reorders(a, b, p, q)
}
pub open spec fn reorders<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>, q: Seq<int>) -> bool {
    &&& a.len() == b.len() && p.len() == a.len() && q.len() == a.len()
    &&& forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < a.len() && q[p[i]] == i && b[i] == a[p[i]]
    &&& forall|i: int| 0 <= i < q.len() ==> 0 <= #[trigger] q[i] < a.len() && p[q[i]] == i
}
