// ---------------------------------------------------------------------------
// Assumed: what is printed (colours left out).
// ---------------------------------------------------------------------------
/// What a text adds to an output.
pub open spec fn w(o: Seq<u8>, s: Seq<char>) -> Seq<u8> { o + utf8(s) }
pub open spec fn nl(o: Seq<u8>) -> Seq<u8> { o.push(10) }
pub mod ax_term { use super::*;
/// Two texts, one after the other.
pub broadcast proof fn lemma_w_parts(o: Seq<u8>, a: Seq<char>, b: Seq<char>)
    ensures #[trigger] w(o, a + b) == w(w(o, a), b)
{ vstd::utf8::encode_utf8_concat(a, b); assert(w(o, a + b) =~= w(w(o, a), b)); }
}
/// The standard output.
#[verifier::external_body]
pub struct Term { x: u8 }
impl Write for Term {
    uninterp spec fn out(&self) -> Seq<u8>;
    open spec fn wid(&self) -> int { 1 }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>) { unimplemented!() }
}
impl Term {
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) ensures final(self).out() == w(old(self).out(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self).out() == w(old(self).out(), x.shown()) { unimplemented!() }
    #[verifier::external_body]
    pub fn nl(&mut self) ensures final(self).out() == nl(old(self).out()) { unimplemented!() }
}
/// A text being put together (format!).
pub struct VxText { pub s: String }
impl VxText {
    pub fn start() -> (r: VxText) ensures r.s@ == Seq::<char>::empty() { VxText { s: String::new() } }
    #[verifier::external_body]
    pub fn put(&mut self, s: &str) ensures final(self).s@ == old(self).s@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn show<T: VxShow + ?Sized>(&mut self, x: &T) ensures final(self).s@ == old(self).s@ + x.shown() { unimplemented!() }
    pub fn text(self) -> (r: String) ensures r@ == self.s@ { self.s }
}
/// Display.
pub trait VxShow { spec fn shown(&self) -> Seq<char>; }
impl<'a, T: VxShow + ?Sized> VxShow for &'a T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
impl VxShow for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl VxShow for String { open spec fn shown(&self) -> Seq<char> { self@ } }
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VxShow for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for u64 { open spec fn shown(&self) -> Seq<char> { dec(*self as int) } }
impl VxShow for Key { open spec fn shown(&self) -> Seq<char> { user_key(*self) } }
impl<T> VxShow for TypedKey<T> { open spec fn shown(&self) -> Seq<char> { user_key(self.inner) } }
/// Path::display.
#[verifier::external_body]
pub struct PathText { x: String }
impl PathText { pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
impl VxShow for PathText { open spec fn shown(&self) -> Seq<char> { self.t() } }
pub uninterp spec fn path_text(raw: Seq<u8>) -> Seq<char>;
impl Path { #[verifier::external_body] pub fn display(&self) -> (r: PathText) ensures r.t() == path_text(self.raw()) { unimplemented!() } }
/// Coloured text (the crate colored): the same text, when colours are left out.
pub trait VxColored {
    spec fn ct(&self) -> Seq<char>;
    fn yellow(&self) -> (r: String) ensures r@ == self.ct();
    fn green(&self) -> (r: String) ensures r@ == self.ct();
    fn red(&self) -> (r: String) ensures r@ == self.ct();
    fn blue(&self) -> (r: String) ensures r@ == self.ct();
    fn bold(&self) -> (r: String) ensures r@ == self.ct();
    fn bright_black(&self) -> (r: String) ensures r@ == self.ct();
}
impl VxColored for str {
    open spec fn ct(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn yellow(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn green(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn red(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn blue(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn bold(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn bright_black(&self) -> (r: String) { unimplemented!() }
}
impl VxColored for String {
    open spec fn ct(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn yellow(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn green(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn red(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn blue(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn bold(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn bright_black(&self) -> (r: String) { unimplemented!() }
}
/// s[a..b]: on a text of one-byte characters, the characters from a to b; on a slice, the items.
pub trait VxRange { type O: ?Sized;
    spec fn range_ok(&self, a: int, b: int) -> bool;
    spec fn range_len(&self) -> int;
    spec fn range_is(&self, r: &Self::O, a: int, b: int) -> bool;
}
pub open spec fn one_byte(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
impl VxRange for str { type O = str;
    open spec fn range_ok(&self, a: int, b: int) -> bool { a <= b <= self@.len() && one_byte(self@) }
    open spec fn range_len(&self) -> int { self@.len() as int }
    open spec fn range_is(&self, r: &str, a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
}
impl VxRange for String { type O = str;
    open spec fn range_ok(&self, a: int, b: int) -> bool { a <= b <= self@.len() && one_byte(self@) }
    open spec fn range_len(&self) -> int { self@.len() as int }
    open spec fn range_is(&self, r: &str, a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
}
impl<T> VxRange for Vec<T> { type O = [T];
    open spec fn range_ok(&self, a: int, b: int) -> bool { a <= b <= self@.len() }
    open spec fn range_len(&self) -> int { self@.len() as int }
    open spec fn range_is(&self, r: &[T], a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
}
impl<T> VxRange for [T] { type O = [T];
    open spec fn range_ok(&self, a: int, b: int) -> bool { a <= b <= self@.len() }
    open spec fn range_len(&self) -> int { self@.len() as int }
    open spec fn range_is(&self, r: &[T], a: int, b: int) -> bool { r@ == self@.subrange(a, b) }
}
impl<'a, S: VxRange + ?Sized> VxRange for &'a S { type O = S::O;
    open spec fn range_ok(&self, a: int, b: int) -> bool { (**self).range_ok(a, b) }
    open spec fn range_len(&self) -> int { (**self).range_len() }
    open spec fn range_is(&self, r: &S::O, a: int, b: int) -> bool { (**self).range_is(r, a, b) }
}
#[verifier::external_body]
pub fn vx_range<'s, S: VxRange + ?Sized>(s: &'s S, a: usize, b: usize) -> (r: &'s S::O)
    requires s.range_ok(a as int, b as int) ensures s.range_is(r, a as int, b as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_range_from<'s, S: VxRange + ?Sized>(s: &'s S, a: usize) -> (r: &'s S::O)
    requires s.range_ok(a as int, s.range_len()) ensures s.range_is(r, a as int, s.range_len())
{ unimplemented!() }
impl Key { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == user_key(*self) { unimplemented!() } }
impl<T> TypedKey<T> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == user_key(self.inner) { unimplemented!() } }
