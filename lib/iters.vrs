// ---------------------------------------------------------------------------
// Assumed: iterator adapters (map, filter, collect ...) over a finite sequence.
// The extraction renames the adapter calls (x.map -> x.vx_map); the closures
// they are given are side-effect free, so running them eagerly is the same.
// ---------------------------------------------------------------------------
pub struct VxIt<T> { pub v: Vec<T> }
impl<T> View for VxIt<T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { self.v@ } }
pub open spec fn all_ok<T, E>(s: Seq<Result<T, E>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Ok }
pub trait VxFromSeq<T>: Sized {
    spec fn from_seq(s: Seq<T>, r: Self) -> bool;
    fn vx_from(v: VxIt<T>) -> (r: Self) ensures Self::from_seq(v@, r);
}
/// A term to name a collected sequence by.
pub open spec fn vx_collected<T>(s: Seq<T>) -> bool { true }
impl<T> VxFromSeq<T> for Vec<T> {
    open spec fn from_seq(s: Seq<T>, r: Self) -> bool { r@ == s && vx_collected(r@) }
    #[verifier::external_body]
    fn vx_from(v: VxIt<T>) -> (r: Vec<T>) { v.v }
}
impl<T, E> VxFromSeq<Result<T, E>> for Result<Vec<T>, E> {
    open spec fn from_seq(s: Seq<Result<T, E>>, r: Self) -> bool {
        match r {
            Ok(x) => x@.len() == s.len() && (forall|i: int| #![trigger s[i]] #![trigger x@[i]] 0 <= i < x@.len() ==> s[i] == Ok::<T, E>(x@[i])) && vx_collected(x@),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Err::<T, E>(e),
        }
    }
    #[verifier::external_body]
    fn vx_from(v: VxIt<Result<T, E>>) -> (r: Result<Vec<T>, E>) { v.v.into_iter().collect() }
}
impl<T> VxIt<T> {
    pub fn vx_collect<C: VxFromSeq<T>>(self) -> (r: C) ensures C::from_seq(self@, r) { C::vx_from(self) }
    #[verifier::external_body]
    pub fn vx_map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxIt<B>)
        requires forall|i: int| 0 <= i < self@.len() ==> call_requires(f, (#[trigger] self@[i],))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> call_ensures(f, (self@[i],), #[trigger] r@[i])
    { VxIt { v: self.v.into_iter().map(f).collect() } }
}
pub trait VxAdapt<T>: Sized {
    #[verifier::prophetic] spec fn items(&self) -> Seq<T>;
    fn vx_map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxIt<B>)
        requires forall|i: int| 0 <= i < self.items().len() ==> call_requires(f, (#[trigger] self.items()[i],))
        ensures r@.len() == self.items().len(), forall|i: int| 0 <= i < self.items().len() ==> call_ensures(f, (self.items()[i],), #[trigger] r@[i]);
}
impl<T> VxAdapt<T> for std::vec::IntoIter<T> {
    #[verifier::prophetic] open spec fn items(&self) -> Seq<T> { self.remaining() }
    #[verifier::external_body]
    fn vx_map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxIt<B>) { VxIt { v: self.map(f).collect() } }
}
impl<'a, T> VxAdapt<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn items(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_map<B, F: Fn(&'a T) -> B>(self, f: F) -> (r: VxIt<B>) { VxIt { v: self.map(f).collect() } }
}
pub trait VxCopied<T>: Sized {
    #[verifier::prophetic] spec fn citems(&self) -> Seq<T>;
    /// Iterator::copied, collected.
    fn vx_copied(self) -> (r: Vec<T>) ensures r@ == self.citems();
}
impl<'a, T: Copy> VxCopied<T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn citems(&self) -> Seq<T> { self.remaining().map_values(|x: &T| *x) }
    #[verifier::external_body]
    fn vx_copied(self) -> (r: Vec<T>) { self.copied().collect() }
}
/// A term to name the tested sequence by.
pub open spec fn vx_alled<T>(s: Seq<T>) -> bool { true }
pub trait VxAll<T>: Sized {
    #[verifier::prophetic] spec fn aitems(&self) -> Seq<T>;
    /// Iterator::all.
    fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.aitems().len() ==> call_requires(f, (#[trigger] self.aitems()[i],))
        ensures vx_alled(self.aitems()), r ==> forall|i: int| 0 <= i < self.aitems().len() ==> call_ensures(f, (#[trigger] self.aitems()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.aitems().len() && call_ensures(f, (#[trigger] self.aitems()[i],), false);
}
pub open spec fn range_seq(a: int, b: int) -> Seq<usize> { Seq::new(if b > a { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
impl VxAll<usize> for core::ops::Range<usize> {
    #[verifier::prophetic] open spec fn aitems(&self) -> Seq<usize> { range_seq(self.start as int, self.end as int) }
    #[verifier::external_body]
    fn vx_all<F: Fn(usize) -> bool>(self, f: F) -> (r: bool) { let mut s = self; s.all(f) }
}
/// `r` is `s` without the elements for which `f` says no, in the same order.
pub open spec fn filtered<T, F: Fn(&T) -> bool>(s: Seq<T>, f: F, r: Seq<T>) -> bool {
    forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == p(s[i])) ==> r == #[trigger] s.filter(p)
}
/// A term to name both sequences by.
pub open spec fn vx_taken_from<T>(s: Seq<T>, r: Seq<T>) -> bool { true }
pub trait VxFilter<T>: Sized {
    #[verifier::prophetic] spec fn fitems(&self) -> Seq<T>;
    /// Iterator::filter, collected.
    fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>)
        requires forall|i: int| 0 <= i < self.fitems().len() ==> call_requires(f, (&(#[trigger] self.fitems()[i]),))
        ensures filtered(self.fitems(), f, r@), vx_taken_from(self.fitems(), r@);
}
impl<T> VxFilter<T> for std::vec::IntoIter<T> {
    #[verifier::prophetic] open spec fn fitems(&self) -> Seq<T> { self.remaining() }
    #[verifier::external_body]
    fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Vec<T>) { self.filter(f).collect() }
}
impl<'a, T> VxFilter<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn fitems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_filter<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Vec<&'a T>) { self.filter(f).collect() }
}
pub trait VxCount { spec fn cn(&self) -> nat;
    /// Iterator::count.
    fn vx_count(self) -> (r: usize) ensures r == self.cn(); }
impl<T> VxCount for Vec<T> { open spec fn cn(&self) -> nat { self@.len() }
    #[verifier::external_body] fn vx_count(self) -> (r: usize) { self.len() } }
pub trait VxAny<T>: Sized {
    #[verifier::prophetic] spec fn nitems(&self) -> Seq<T>;
    /// Iterator::any.
    fn vx_any<F: Fn(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < old(self).nitems().len() ==> call_requires(f, (#[trigger] old(self).nitems()[i],))
        ensures vx_alled(old(self).nitems()), r ==> exists|i: int| 0 <= i < old(self).nitems().len() && call_ensures(f, (#[trigger] old(self).nitems()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).nitems().len() ==> call_ensures(f, (#[trigger] old(self).nitems()[i],), false);
}
impl<'a, T> VxAny<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn nitems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body]
    fn vx_any<F: Fn(&'a T) -> bool>(&mut self, f: F) -> (r: bool) { self.any(f) }
}
