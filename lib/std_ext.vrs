// ---------------------------------------------------------------------------
// Assumed contracts for std functions vstd does not cover.
// ---------------------------------------------------------------------------
pub trait VxVec<T> {
    spec fn vx(&self) -> Seq<T>;
    /// Vec::drain(a..b) used as a statement (the removed elements are dropped).
    fn vx_drain(&mut self, r: core::ops::Range<usize>)
        requires r.start <= r.end <= old(self).vx().len()
        ensures final(self).vx() == old(self).vx().subrange(0, r.start as int) + old(self).vx().subrange(r.end as int, old(self).vx().len() as int);
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vx(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_drain(&mut self, r: core::ops::Range<usize>) { self.drain(r); }
}
pub open spec fn seq_cloned<T: Clone>(a: Seq<T>, b: Seq<T>) -> bool {
    a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> cloned::<T>(a[i], #[trigger] b[i])
}
pub mod ax_cloned { use super::*;
pub broadcast proof fn lemma_seq_cloned_bytes(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] seq_cloned(a, b) ==> a == b
{ if seq_cloned(a, b) { assert(a =~= b); } }
}
pub assume_specification<T: Clone>[ <[T] as std::borrow::ToOwned>::to_owned ](s: &[T]) -> (r: Vec<T>)
    ensures seq_cloned(s@, r@);
pub assume_specification<T: Clone>[ <[T]>::to_vec ](s: &[T]) -> (r: Vec<T>)
    ensures seq_cloned(s@, r@);
pub assume_specification<T, const N: usize>[ <[T; N] as std::convert::AsRef<[T]>>::as_ref ](a: &[T; N]) -> (r: &[T])
    ensures r@ == a@;

pub uninterp spec fn cow_deref<'a, 'b, B: ?Sized + std::borrow::ToOwned>(c: &'b std::borrow::Cow<'a, B>) -> &'b B;
pub assume_specification<'a, 'b, B: ?Sized + std::borrow::ToOwned>[ <std::borrow::Cow<'a, B> as core::ops::Deref>::deref ](c: &'b std::borrow::Cow<'a, B>) -> (r: &'b B)
    ensures r == cow_deref(c);
pub open spec fn cow_bytes<'a>(c: std::borrow::Cow<'a, [u8]>) -> Seq<u8> { cow_deref(&c)@ }
pub mod ax_cow { use super::*;
pub broadcast axiom fn axiom_cow_owned<'a>(v: Vec<u8>)
    ensures #[trigger] cow_deref(&std::borrow::Cow::<'a, [u8]>::Owned(v))@ == v@;
}
pub trait VxExtend<S> {
    /// Vec::extend.
    fn vx_extend(&mut self, s: S);
}
impl<'a> VxExtend<&'a [u8]> for Vec<u8> {
    #[verifier::external_body]
    fn vx_extend(&mut self, s: &'a [u8]) ensures final(self)@ == old(self)@ + s@ { self.extend(s) }
}
impl<'a> VxExtend<core::slice::Iter<'a, u8>> for Vec<u8> {
    #[verifier::external_body]
    fn vx_extend(&mut self, s: core::slice::Iter<'a, u8>)
        ensures final(self)@ == old(self)@ + u8s(s.remaining())
    { self.extend(s) }
}
pub open spec fn u8s(s: Seq<&u8>) -> Seq<u8> { s.map_values(|x: &u8| *x) }
pub mod ax_u8s { use super::*;
pub broadcast proof fn lemma_u8s_eq(s: Seq<&u8>, b: Seq<u8>)
    requires s.len() == b.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == b[i]
    ensures #![trigger u8s(s), vx_same(b)] u8s(s) == b
{ assert(u8s(s) =~= b); }
pub broadcast proof fn lemma_empty_plus(b: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + b) == b
{ assert(Seq::<u8>::empty() + b =~= b); }
}
/// A term to name a byte string by.
pub open spec fn vx_same(b: Seq<u8>) -> bool { true }
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExTryFromSliceError(std::array::TryFromSliceError);
pub trait VxTryArr {
    /// <[u8; N] as TryFrom<&[u8]>>::try_from, as called through TryInto.
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[u8; N], std::array::TryFromSliceError>);
}
impl VxTryArr for [u8] {
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(&self) -> (r: Result<[u8; N], std::array::TryFromSliceError>)
        ensures match r { Ok(a) => a@ == self@, Err(_) => self@.len() != N }
    { core::convert::TryInto::try_into(self) }
}
/// A term to instantiate index quantifiers with.
pub open spec fn vx_at(i: int) -> bool { true }
pub assume_specification<'a, T, P: FnMut(&'a T) -> bool>[ <core::slice::Iter<'a, T> as core::iter::Iterator>::position ](it: &mut core::slice::Iter<'a, T>, p: P) -> (r: Option<usize>)
    where core::slice::Iter<'a, T>: Sized
    requires forall|i: int| 0 <= i < old(it).remaining().len() ==> call_requires(p, (#[trigger] old(it).remaining()[i],))
    ensures match r {
        Some(k) => k < old(it).remaining().len() && call_ensures(p, (old(it).remaining()[k as int],), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(p, (#[trigger] old(it).remaining()[i],), false),
        None => forall|i: int| #![trigger vx_at(i)] #![trigger old(it).remaining()[i]] vx_at(i) && 0 <= i < old(it).remaining().len()
            ==> call_ensures(p, (old(it).remaining()[i],), false),
    };
pub assume_specification[ char::is_ascii_lowercase ](c: &char) -> (r: bool) ensures r == (97 <= (*c as u32) <= 122);
pub assume_specification[ char::is_ascii_digit ](c: &char) -> (r: bool) ensures r == (48 <= (*c as u32) <= 57);
pub trait VxAsDeref<B: ?Sized> {
    /// Option::as_deref.
    fn vx_as_deref(&self) -> Option<&B>;
}
impl VxAsDeref<str> for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>)
        ensures match r { Some(x) => self is Some && x@ == self->Some_0@, None => self is None } { self.as_deref() }
}
impl VxAsDeref<[u8]> for Option<Vec<u8>> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&[u8]>)
        ensures match r { Some(x) => self is Some && x@ == self->Some_0@, None => self is None } { self.as_deref() }
}
/// Default::default, where its value matters.
pub trait VxDefault: Sized {
    spec fn is_default(x: Self) -> bool;
    fn vx_dflt() -> (r: Self) ensures Self::is_default(r);
}
impl<T, const N: usize> VxDefault for [Vec<T>; N] {
    open spec fn is_default(x: Self) -> bool { forall|i: int| 0 <= i < N ==> (#[trigger] x@[i])@.len() == 0 }
    #[verifier::external_body]
    fn vx_dflt() -> (r: Self) { core::array::from_fn(|_| Vec::new()) }
}
pub fn vx_default<T: VxDefault>() -> (r: T) ensures T::is_default(r) { T::vx_dflt() }
pub trait VxUnwrap<T>: Sized {
    spec fn is_val(self, x: T) -> bool;
    /// unwrap, where stopping the program is allowed (contract option unwrap=abort).
    fn vx_unwrap(self) -> (r: T) ensures self.is_val(r);
    fn vx_expect(self, msg: &str) -> (r: T) ensures self.is_val(r);
}
impl<T, E> VxUnwrap<T> for Result<T, E> {
    open spec fn is_val(self, x: T) -> bool { self == Ok::<T, E>(x) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { match self { Ok(x) => x, Err(_) => panic!() } }
    #[verifier::external_body]
    fn vx_expect(self, msg: &str) -> (r: T) { match self { Ok(x) => x, Err(_) => panic!() } }
}
impl<T> VxUnwrap<T> for Option<T> {
    open spec fn is_val(self, x: T) -> bool { self == Some(x) }
    #[verifier::external_body]
    fn vx_unwrap(self) -> (r: T) { self.unwrap() }
    #[verifier::external_body]
    fn vx_expect(self, msg: &str) -> (r: T) { self.expect(msg) }
}
pub trait VxRemove<T> { spec fn vxr(&self) -> Seq<T>;
    /// Vec::remove (stops the program when the index is out of range).
    fn vx_remove(&mut self, i: usize) -> (r: T)
        requires i < old(self).vxr().len()
        ensures r == old(self).vxr()[i as int], final(self).vxr() == old(self).vxr().remove(i as int); }
impl<T> VxRemove<T> for Vec<T> {
    open spec fn vxr(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_remove(&mut self, i: usize) -> (r: T) { self.remove(i) }
}
pub mod ax_take { use super::*;
pub broadcast proof fn lemma_take_all<T>(s: Seq<T>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn lemma_take_none<T>(s: Seq<T>)
    ensures #[trigger] s.take(0) == Seq::<T>::empty()
{ assert(s.take(0) =~= Seq::<T>::empty()); }
}

pub trait VxExtendSlice<T> { spec fn vxe(&self) -> Seq<T>;
    /// Vec::extend_from_slice, for types that are copied.
    fn vx_extend_slice(&mut self, s: &[T]) where T: Copy ensures final(self).vxe() == old(self).vxe() + s@; }
impl<T> VxExtendSlice<T> for Vec<T> {
    open spec fn vxe(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_extend_slice(&mut self, s: &[T]) where T: Copy { self.extend_from_slice(s) }
}
pub open spec fn lower_byte(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
pub assume_specification[ u8::to_ascii_lowercase ](b: &u8) -> (r: u8) ensures r == lower_byte(*b);
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](x: Result<T, E>, d: T) -> (r: T) ensures r == (match x { Ok(v) => v, Err(_) => d });
