// ---------------------------------------------------------------------------
// Assumed: str operations by byte position.
// ---------------------------------------------------------------------------
/// Byte position i of a text is before its character j.
pub open spec fn at_byte(s: Seq<char>, i: int, j: int) -> bool { 0 <= j <= s.len() && utf8(s.take(j)).len() == i }
pub open spec fn is_at(s: Seq<char>, i: int) -> bool { exists|j: int| at_byte(s, i, j) }
pub open spec fn rest_from(s: Seq<char>, i: int, r: Seq<char>) -> bool { forall|j: int| #[trigger] at_byte(s, i, j) ==> r == s.skip(j) }
pub open spec fn part_of(s: Seq<char>, i: int, e: int, r: Seq<char>) -> bool {
    forall|j: int, k: int| #[trigger] at_byte(s, i, j) && #[trigger] at_byte(s, e, k) && j <= k ==> r == s.subrange(j, k)
}
pub trait VxStrIdx {
    spec fn ok(&self, s: Seq<char>) -> bool;
    spec fn sub(&self, s: Seq<char>, r: Seq<char>) -> bool;
    /// &s[range], which stops the program when the range is out of bounds or splits a character.
    fn vx_idx<'a>(self, s: &'a str) -> (r: &'a str) where Self: Sized
        requires self.ok(s@) ensures self.sub(s@, r@);
    /// s.get(range)
    fn vx_sget<'a>(self, s: &'a str) -> (r: Option<&'a str>) where Self: Sized
        ensures r is Some == self.ok(s@), r matches Some(x) ==> self.sub(s@, x@);
}
impl VxStrIdx for core::ops::RangeFrom<usize> {
    open spec fn ok(&self, s: Seq<char>) -> bool { is_at(s, self.start as int) }
    open spec fn sub(&self, s: Seq<char>, r: Seq<char>) -> bool { rest_from(s, self.start as int, r) }
    #[verifier::external_body]
    fn vx_idx<'a>(self, s: &'a str) -> (r: &'a str) { &s[self] }
    #[verifier::external_body]
    fn vx_sget<'a>(self, s: &'a str) -> (r: Option<&'a str>) { s.get(self) }
}
impl VxStrIdx for core::ops::Range<usize> {
    open spec fn ok(&self, s: Seq<char>) -> bool { is_at(s, self.start as int) && is_at(s, self.end as int) && self.start <= self.end }
    open spec fn sub(&self, s: Seq<char>, r: Seq<char>) -> bool { part_of(s, self.start as int, self.end as int, r) }
    #[verifier::external_body]
    fn vx_idx<'a>(self, s: &'a str) -> (r: &'a str) { &s[self] }
    #[verifier::external_body]
    fn vx_sget<'a>(self, s: &'a str) -> (r: Option<&'a str>) { s.get(self) }
}
pub fn vx_str_index<'a, R: VxStrIdx>(s: &'a str, r: R) -> (x: &'a str) requires r.ok(s@) ensures r.sub(s@, x@) { r.vx_idx(s) }
pub open spec fn first_at(s: Seq<char>, c: char, j: int) -> bool { 0 <= j < s.len() && s[j] == c && forall|i: int| 0 <= i < j ==> s[i] != c }
pub trait VxStrFind {
    fn vx_contains(&self, c: char) -> bool;
    fn vx_find(&self, c: char) -> Option<usize>;
    fn vx_ieq(&self, o: &str) -> bool;
}
impl VxStrFind for str {
    #[verifier::external_body]
    fn vx_contains(&self, c: char) -> (r: bool) ensures r == self@.contains(c) { self.contains(c) }
    #[verifier::external_body]
    fn vx_find(&self, c: char) -> (r: Option<usize>)
        ensures match r { Some(i) => i < isize::MAX && exists|j: int| first_at(self@, c, j) && #[trigger] at_byte(self@, i as int, j), None => !self@.contains(c) }
    { self.find(c) }
    /// eq_ignore_ascii_case
    #[verifier::external_body]
    fn vx_ieq(&self, o: &str) -> (r: bool) ensures r == lower_eq(utf8(self@), utf8(o@)) { self.eq_ignore_ascii_case(o) }
}
pub trait VxGet<I> { type Out: ?Sized; spec fn gspec(&self, i: I, r: Option<&Self::Out>) -> bool;
    fn vx_get(&self, i: I) -> (r: Option<&Self::Out>) ensures self.gspec(i, r); }
impl<T> VxGet<usize> for [T] {
    type Out = T;
    open spec fn gspec(&self, i: usize, r: Option<&T>) -> bool { match r { Some(x) => i < self@.len() && *x == self@[i as int], None => i >= self@.len() } }
    #[verifier::external_body]
    fn vx_get(&self, i: usize) -> (r: Option<&T>) { self.get(i) }
}
impl<R: VxStrIdx> VxGet<R> for str {
    type Out = str;
    open spec fn gspec(&self, i: R, r: Option<&str>) -> bool { r is Some == i.ok(self@) && (r matches Some(x) ==> i.sub(self@, x@)) }
    #[verifier::external_body]
    fn vx_get(&self, i: R) -> (r: Option<&str>) { unimplemented!() }
}
pub assume_specification[ <str as std::convert::AsRef<[u8]>>::as_ref ](s: &str) -> (r: &[u8])
    ensures r@ == utf8(s@);
pub broadcast proof fn lemma_ascii_utf8(s: Seq<char>)
    requires vstd::utf8::is_ascii_chars(s)
    ensures #[trigger] utf8(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] utf8(s)[i] == s[i] as u8 && (s[i] as u32) < 128
{
    vstd::utf8::is_ascii_chars_nat_bound(s);
    vstd::utf8::is_ascii_chars_encode_utf8(s);
}
