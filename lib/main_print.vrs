// ---------------------------------------------------------------------------
// Assumed: what main does besides the repository, and printing (decided in the unit show).
// ---------------------------------------------------------------------------
#[verifier::external_body] pub struct ShowError { x: u8 }
#[verifier::external_body] pub struct CheckoutError0 { x: u8 }
impl VxError for ShowError { open spec fn unclean() -> bool { false } } impl VxError for CheckoutError0 { open spec fn unclean() -> bool { false } }
/// ASSUMED (printing): these only read the store.
#[verifier::external_body] pub fn print_diff_result(r: DiffResult) { unimplemented!() }
#[verifier::external_body] pub fn print_stat_diff_result<DS: DataStore>(ds: &DS, r: DiffResult) { unimplemented!() }
#[verifier::external_body] pub fn checkout_fs_item<DS: DataStore>(ds: &DS, key: TypedKey<FSItem>, path: &Path, filter: &EntFilter) -> (r: Result<(), CheckoutError0>)
    ensures checkout_ran(ds.view(), key.inner, path@, filter, r is Ok) { unimplemented!() }
/// A checkout of this tree into this folder was run (what one does: unit checkout).
pub uninterp spec fn checkout_ran(v: StoreV, k: Key, p: Comps, f: &EntFilter, ok: bool) -> bool;
/// The tree of the latest commit of HEAD's ref was checked out into the working folder, with the filter of the command line.
pub open spec fn checked_out(a: State) -> bool {
    exists|name: Seq<char>, t: Key, f: EntFilter| #![trigger utf8(name), checkout_ran(sv(a), t, a.ds_state->Some_0.repo_path@, &f, true)]
        head_is(sv(a), name) && latest_tree(sv(a), name, t) && filters(&f, texts(a.common.exclude@), dbp(a))
        && checkout_ran(sv(a), t, a.ds_state->Some_0.repo_path@, &f, true)
}
pub open spec fn latest_tree(v: StoreV, name: Seq<char>, t: Key) -> bool {
    ref_latest(v.reflog, name, None) matches Some(b) && exists|k: Key| #[trigger] db_key(k) == b && commit_at(v, k) is Some && t == commit_at(v, k)->Some_0.tree
}
pub enum Kind { Stat, Patch }
/// ASSUMED (printing): showing an object compares stored trees, which adds no ref and no state.
#[verifier::external_body] pub fn display_obj<DS: DataStore>(ds: &mut DS, key: Key, kind: Kind) -> (r: Result<(), ShowError>) ensures final(ds).ctx() == old(ds).ctx(), grows(old(ds).view(), final(ds).view()) { unimplemented!() }
#[verifier::external_body] pub fn log_obj<DS: DataStore>(ds: &mut DS, key: Key, kind: Kind) -> (r: Result<(), ShowError>) ensures final(ds).ctx() == old(ds).ctx(), grows(old(ds).view(), final(ds).view()) { unimplemented!() }
impl Object { #[verifier::external_body] pub fn debug_pretty_print(&self) -> (r: Result<(), serde_cbor::error::Error>) { unimplemented!() } }
/// The command line.
pub uninterp spec fn asked() -> Opt;
impl Opt { #[verifier::external_body] pub fn from_args() -> (r: Opt) ensures r == asked() { unimplemented!() } }
#[verifier::external_body] pub fn setup_logging(level: u64) { unimplemented!() }
#[verifier::external_body] pub fn setup_sqlite_callback() -> (r: Result<(), rusqlite::Error>) { unimplemented!() }
pub mod dirs { use super::*; #[verifier::external_body] pub fn cache_dir() -> (r: Option<PathBuf>) { unimplemented!() } }
impl Key { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
impl<T> TypedKey<T> { #[verifier::external_body] pub fn to_string(&self) -> (r: String) { unimplemented!() } }
