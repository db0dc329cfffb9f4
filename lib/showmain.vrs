/// The object a command is about: the one given, or HEAD's latest commit.
pub open spec fn asked_for(s: State, q: Option<Keyish>, k: Key) -> bool {
    match q { Some(q) => resolved(s, q, k), None => head_latest(sv(s), k) }
}
pub open spec fn head_latest(v: StoreV, k: Key) -> bool { exists|name: Seq<char>| #![trigger utf8(name)] head_is(v, name) && ref_latest(v.reflog, name, None) == Some(db_key(k)) }
pub open spec fn tree_asked_for(s: State, q: Option<Keyish>, t: Key) -> bool {
    match q { Some(q) => resolved(s, q, t), None => exists|k: Key| #![trigger db_key(k)] head_latest(sv(s), k) && (commit_at(sv(s), k) matches Some(c) && c.tree == t) }
}
pub open spec fn from_path(f: DiffTarget) -> Comps { match f { DiffTarget::FileSystem(p, _, _) => p@, DiffTarget::Database(_) => Seq::empty() } }
pub open spec fn compare_dir(s: State, args: CompareArgs) -> Comps { match args.path { Some(p) => p@, None => s.ds_state->Some_0.repo_path@ } }
pub open spec fn head_line(o: Seq<u8>, name: Seq<char>, k: Key) -> Seq<u8> {
    nl(w(w(w(w(w(o, ("HEAD: ")@), name), (" [")@), user_key(k).subrange(0, 8)), ("]")@))
}
/// HEAD, its latest commit, and how the directory differs from it.
pub open spec fn status_of(s: State, k: Key, name: Seq<char>, o: Seq<u8>, n: Seq<u8>) -> bool {
    commit_at(sv(s), k) matches Some(c) && exists|from: DiffTarget, t: TypedKey<FSItem>, d: DiffResult| t.inner == c.tree && here(s, from)
        && #[trigger] right_report(sv(s), from, Some(t), d) && report_shown(d, head_line(o, name, k), n)
}
pub open spec fn status_shown(s: State, name: Seq<char>, o: Seq<u8>, n: Seq<u8>) -> bool {
    match ref_latest(sv(s).reflog, name, None) {
        None => n == nl(w(w(w(w(w(o, ("HEAD: ")@), name), (" (no commits on ")@), name), (")")@)),
        Some(b) => exists|k: Key| #[trigger] db_key(k) == b && status_of(s, k, name, o, n),
    }
}
pub mod ax_ascii { use super::*;
pub broadcast proof fn lemma_user_key_ascii(k: Key, i: int)
    ensures 0 <= i < user_key(k).len() ==> (#[trigger] user_key(k)[i] as u32) < 128
{
    let s = bits_of(key_bytes(k));
    if 1 <= i < user_key(k).len() { lemma_u5_range(s, 5 * (i - 1)); assert(user_key(k)[i] == b32_chars(s)[i - 1]); }
}
pub broadcast proof fn lemma_user_key_len(k: Key)
    ensures #[trigger] user_key(k).len() == 53
{ }
}
/// The cache a comparison is given.
pub trait VxCacheArg { spec fn some(&self) -> bool; }
impl<'a> VxCacheArg for Option<&'a mut SqliteCache> { open spec fn some(&self) -> bool { self is Some } }
impl<'a> VxCacheArg for &'a mut SqliteCache { open spec fn some(&self) -> bool { true } }
pub trait VxOptCopied<T>: Sized { spec fn oitem(self) -> Option<T>; fn vx_copied(self) -> (r: Option<T>) ensures r == self.oitem(); }
impl<'a, T: Copy> VxOptCopied<T> for Option<&'a T> {
    open spec fn oitem(self) -> Option<T> { match self { Some(x) => Some(*x), None => None } }
    fn vx_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
pub open spec fn all_resolved(s: State, qs: Seq<Keyish>, ks: Seq<Key>) -> bool {
    qs.len() == ks.len() && forall|i: int| 0 <= i < qs.len() ==> resolved(s, qs[i], #[trigger] ks[i])
}
