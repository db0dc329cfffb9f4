// ---------------------------------------------------------------------------
// Assumed: std::path, OsStr.  A path is known by its components (equality, prefixes and joining are by component) and by its text.
// ---------------------------------------------------------------------------
pub type Comps = Seq<Seq<u8>>;
/// Path and PathBuf (one type here: a PathBuf dereferences to a Path).
#[verifier::external_body]
pub struct Path { x: Vec<u8> }
pub type PathBuf = Path;
pub uninterp spec fn comps_of(raw: Seq<u8>) -> Comps;
/// The last component, when it is a normal one.
pub uninterp spec fn file_name_of(raw: Seq<u8>) -> Option<Seq<u8>>;
impl Path {
    /// Its text.
    pub uninterp spec fn raw(&self) -> Seq<u8>;
}
impl View for Path { type V = Comps; open spec fn view(&self) -> Comps { comps_of(self.raw()) } }
pub open spec fn is_prefix(a: Comps, b: Comps) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
/// A single normal component: what a directory entry can be named.
pub open spec fn name_ok(n: Seq<u8>) -> bool {
    n.len() > 0 && n != seq![46u8] && n != seq![46u8, 46u8] && !n.contains(47)
}
pub open spec fn names_ok(c: Comps) -> bool { forall|i: int| 0 <= i < c.len() ==> name_ok(#[trigger] c[i]) }
pub mod ax_path { use super::*;
/// ASSUMED: a path is its own last component exactly when it is a single normal component.
pub broadcast axiom fn axiom_file_name(raw: Seq<u8>)
    ensures #![trigger file_name_of(raw)] #![trigger comps_of(raw)]
        (file_name_of(raw) == Some(raw)) == name_ok(raw), name_ok(raw) ==> comps_of(raw) == seq![raw],
        (raw.len() == 0) == (comps_of(raw).len() == 0);
}
pub uninterp spec fn odd_join(a: Comps, b: Comps) -> Comps;
pub open spec fn pjoin(a: Comps, b: Comps) -> Comps { if names_ok(b) { a + b } else { odd_join(a, b) } }
pub open spec fn pparent(c: Comps) -> Option<Comps> {
    if c.len() == 0 || c == seq![seq![47u8]] { None } else { Some(c.drop_last()) }
}
/// What can be used where AsRef<Path> is asked for.
pub trait VxPath { spec fn pv(&self) -> Comps; }
impl VxPath for Path { open spec fn pv(&self) -> Comps { self@ } }
impl<'a, T: VxPath + ?Sized> VxPath for &'a T { open spec fn pv(&self) -> Comps { (**self).pv() } }
/// The components of a text.
pub open spec fn str_comps(s: Seq<char>) -> Comps { comps_of(vstd::utf8::encode_utf8(s)) }
impl VxPath for str { open spec fn pv(&self) -> Comps { str_comps(self@) } }
pub struct OsString { pub b: Vec<u8> }
impl View for OsString { type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> { self.b@ } }
impl VxPath for OsString { open spec fn pv(&self) -> Comps { comps_of(self@) } }
impl VxInto<Path> for OsString {
    open spec fn conv(self, r: Path) -> bool { r.raw() == self@ }
    #[verifier::external_body] fn vx_into(self) -> (r: Path) { unimplemented!() }
}
#[verifier::external_body]
pub struct OsStr { b: Vec<u8> }
impl View for OsStr { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
impl VxPath for OsStr { open spec fn pv(&self) -> Comps { comps_of(self@) } }
impl OsStr { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OsStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &OsStr) -> bool { self@ == o@ }
}
impl PartialEq for OsStr { #[verifier::external_body] fn eq(&self, o: &OsStr) -> (r: bool) ensures r == (self@ == o@) { unimplemented!() } }
#[verifier::external_body]
pub struct StripPrefixError { x: u8 }
impl Path {
    #[verifier::external_body]
    pub fn new() -> (r: Path) ensures r.raw().len() == 0, r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: VxPath>(&self, p: P) -> (r: Path) ensures r@ == pjoin(self@, p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Path) ensures r.raw() == self.raw() { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<P: VxPath>(&self, p: P) -> (r: bool) ensures r == is_prefix(p.pv(), self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: VxPath>(&self, p: P) -> (r: Result<&Path, StripPrefixError>)
        ensures match r { Ok(q) => is_prefix(p.pv(), self@) && q@ == self@.skip(p.pv().len() as int), Err(_) => !is_prefix(p.pv(), self@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match r { Some(q) => pparent(self@) == Some(q@), None => pparent(self@) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures r@ == self.raw() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures match r { Some(n) => file_name_of(self.raw()) == Some(n@), None => file_name_of(self.raw()) is None } { unimplemented!() }
}
impl Clone for Path { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.raw() == self.raw() { unimplemented!() } }
