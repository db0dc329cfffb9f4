// ---------------------------------------------------------------------------
// Assumed: what main and the commands use besides the library.
// ---------------------------------------------------------------------------
pub mod anyhow { #[verifier::external_body] pub struct Error { x: u8 } }
/// Whether the error says that the directory is not clean.
pub trait VxError { spec fn unclean() -> bool; }
pub uninterp spec fn not_clean(e: anyhow::Error) -> bool;
pub mod ax_anyhow { use super::*;
pub broadcast axiom fn axiom_anyhow<E: VxError>(e: E, r: anyhow::Error)
    ensures (#[trigger] vstd::std_specs::control_flow::spec_from::<anyhow::Error, E>(e, r)) ==> not_clean(r) == E::unclean();
}
impl<E: VxError> From<E> for anyhow::Error { #[verifier::external_body] fn from(e: E) -> (r: anyhow::Error) { unimplemented!() } }
impl<E: VxError> VxInto<anyhow::Error> for E { open spec fn conv(self, r: anyhow::Error) -> bool { not_clean(r) == E::unclean() } #[verifier::external_body] fn vx_into(self) -> (r: anyhow::Error) { unimplemented!() } }
#[verifier::external_body] pub struct IoError0 { x: u8 }
#[verifier::external_body] pub struct NewSqliteError { x: u8 }
#[verifier::external_body] pub struct NewSqliteCacheError { x: u8 }
impl VxError for NotCleanError { open spec fn unclean() -> bool { true } }
impl VxError for IoError0 { open spec fn unclean() -> bool { false } } impl VxError for NewSqliteError { open spec fn unclean() -> bool { false } } impl VxError for NewSqliteCacheError { open spec fn unclean() -> bool { false } }
impl VxError for DatabaseNotFoundError { open spec fn unclean() -> bool { false } } impl VxError for NoHeadError { open spec fn unclean() -> bool { false } } impl VxError for PutFsItemError { open spec fn unclean() -> bool { false } } impl VxError for GetFsItemError { open spec fn unclean() -> bool { false } } impl VxError for CanonicalizeError { open spec fn unclean() -> bool { false } }
impl VxError for GetHeadError { open spec fn unclean() -> bool { false } } impl VxError for GetReflogError { open spec fn unclean() -> bool { false } } impl VxError for WalkReflogError { open spec fn unclean() -> bool { false } } impl VxError for ReflogPushError { open spec fn unclean() -> bool { false } } impl VxError for RawPutStateError { open spec fn unclean() -> bool { false } }
impl VxError for WalkFsItemsError { open spec fn unclean() -> bool { false } } impl VxError for WalkRealFsItemsError { open spec fn unclean() -> bool { false } } impl VxError for GetObjError { open spec fn unclean() -> bool { false } } impl VxError for CommitTreeError { open spec fn unclean() -> bool { false } } impl VxError for CompareError { open spec fn unclean() -> bool { false } }
impl VxError for BeginTransError { open spec fn unclean() -> bool { false } } impl VxError for CommitTransError { open spec fn unclean() -> bool { false } } impl VxError for RollbackTransError { open spec fn unclean() -> bool { false } } impl VxError for rusqlite::Error { open spec fn unclean() -> bool { false } } impl VxError for serde_cbor::error::Error { open spec fn unclean() -> bool { false } }
/// A filter closure that lets everything through.
#[verifier::external_body] pub fn vx_any_filter() -> (r: EntFilter) ensures forall|p: Comps| #[trigger] r.says(p) { unimplemented!() }
#[verifier::external_body] pub fn create_dir_all<P: VxPath>(p: P) -> (r: Result<(), IoError0>) { unimplemented!() }
/// The current directory, and what is there when the program looks.
pub uninterp spec fn work_dir() -> Comps;
pub uninterp spec fn there(p: Comps) -> bool;
#[verifier::external_body] pub fn current_dir() -> (r: Result<PathBuf, IoError0>) ensures r matches Ok(d) ==> d@ == work_dir() { unimplemented!() }
impl Path {
    #[verifier::external_body] pub fn exists(&self) -> (r: bool) ensures r == there(self@) { unimplemented!() }
    #[verifier::external_body] pub fn as_path(&self) -> (r: &Path) ensures r.raw() == self.raw() { unimplemented!() }
}
/// `&*x`.
pub trait VxDeref { type T; fn vx_deref(&self) -> (r: &Self::T); }
impl VxDeref for Path { type T = Path; fn vx_deref(&self) -> (r: &Path) ensures r == self { self } }
impl<'a, T0> VxDeref for &'a T0 { type T = T0; fn vx_deref(&self) -> (r: &T0) ensures r == *self { *self } }
/// The database at a path, and what it holds when it is opened.
pub uninterp spec fn file_at(p: Comps) -> int;
pub uninterp spec fn held(file: int) -> StoreV;
impl SqliteDS {
    /// Part of the contract proved in the unit sqlite.
    #[verifier::external_body] pub fn new<S: VxPath>(path: S) -> (r: Result<SqliteDS, NewSqliteError>) ensures r matches Ok(ds) ==> ds.ctx().saved is None && ds.ctx().file == file_at(path.pv()) && ds.view() == held(file_at(path.pv())) { unimplemented!() }
}
impl SqliteCache {
    #[verifier::external_body] pub fn new<S>(path: S) -> (r: Result<SqliteCache, NewSqliteCacheError>) { unimplemented!() }
}
impl Path { #[verifier::external_body] pub fn push<P: VxPath>(&mut self, p: P) ensures final(self)@ == pjoin(old(self)@, p.pv()) { unimplemented!() } }
impl<'a> VxInto<Path> for &'a Path { open spec fn conv(self, r: Path) -> bool { r.raw() == self.raw() } #[verifier::external_body] fn vx_into(self) -> (r: Path) { unimplemented!() } }
impl<V> VxItems<(PathBuf, V)> for HashMap<PathBuf, V> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<(PathBuf, V)>) -> bool { true }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<(PathBuf, V)>) { unimplemented!() }
}
pub trait VxEnum<T>: Sized {
    #[verifier::prophetic] spec fn eitems(&self) -> Seq<T>;
    /// Iterator::enumerate.
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) ensures r@.len() == self.eitems().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.eitems()[i];
}
impl<'a, T> VxEnum<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn eitems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body] fn vx_enumerate(self) -> (r: Vec<(usize, &'a T)>) { unimplemented!() }
}
pub trait VxOptMap<T>: Sized {
    spec fn opt(self) -> Option<T>;
    /// Option::map.
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.opt() matches Some(x) ==> call_requires(f, (x,))
        ensures match self.opt() { Some(x) => r is Some && call_ensures(f, (x,), r->Some_0), None => r is None };
}
impl<T> VxOptMap<T> for Option<T> {
    open spec fn opt(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { self.map(f) }
}
