// ---------------------------------------------------------------------------
// What commands print about the repository.
// ---------------------------------------------------------------------------
/// One more line: something and then this text.
pub open spec fn line_with(o: Seq<u8>, n: Seq<u8>, s: Seq<char>) -> bool { exists|pre: Seq<char>| n == nl(#[trigger] w(w(o, pre), s)) }
/// The first n entries of a ref's history, numbered down to 1.
pub open spec fn log_lines(o: Seq<u8>, ks: Seq<TypedKey<Commit>>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { o } else { nl(w(w(w(log_lines(o, ks, n - 1), dec(ks.len() - (n - 1))), (": ")@), user_key(ks[n - 1].inner))) }
}
pub open spec fn history_shown(v: StoreV, name: Seq<char>, remote: Option<Seq<char>>, o: Seq<u8>, n: Seq<u8>) -> bool {
    exists|h: Seq<char>, ks: Seq<TypedKey<Commit>>| ks.map_values(|k: TypedKey<Commit>| db_key(k.inner)) =~= ref_history(v.reflog, name, remote) && n == #[trigger] log_lines(nl(w(o, h)), ks, ks.len() as int)
}
// --- differences ---------------------------------------------------------------
pub trait Lined { spec fn lraw(&self) -> Seq<u8>; spec fn slash(&self) -> bool; }
impl Lined for AddedDiffResult { open spec fn lraw(&self) -> Seq<u8> { self.path.raw() } open spec fn slash(&self) -> bool { self.new_key is None } }
impl Lined for DeletedDiffResult { open spec fn lraw(&self) -> Seq<u8> { self.path.raw() } open spec fn slash(&self) -> bool { self.original_key is None } }
impl Lined for ModifiedDiffResult { open spec fn lraw(&self) -> Seq<u8> { self.path.raw() } open spec fn slash(&self) -> bool { false } }
pub open spec fn path_line<T: Lined>(o: Seq<u8>, x: T) -> Seq<u8> {
    let p = w(w(o, ("  ")@), path_text(x.lraw())); nl(if x.slash() { w(p, ("/")@) } else { p })
}
/// The first n paths, one a line.
pub open spec fn paths_out<T: Lined>(o: Seq<u8>, s: Seq<T>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { o } else { path_line(paths_out(o, s, n - 1), s[n - 1]) } }
pub open spec fn section<T: Lined>(o: Seq<u8>, h: Seq<char>, s: Seq<T>) -> Seq<u8> { if s.len() == 0 { o } else { paths_out(nl(w(o, h)), s, s.len() as int) } }
pub open spec fn report_out(o: Seq<u8>, d: DiffResult) -> Seq<u8> {
    section(section(section(o, ("added:")@, d.added@), ("deleted:")@, d.deleted@), ("modified:")@, d.modified@)
}
/// The shortened report, each list under its heading.
pub open spec fn report_shown(r: DiffResult, o: Seq<u8>, n: Seq<u8>) -> bool { exists|d: DiffResult| shortened(r, d) && n == #[trigger] report_out(o, d) }
pub open spec fn stat_line(o: Seq<u8>, x: FileStatResult) -> Seq<u8> {
    nl(w(w(w(w(w(o, path_text(x.fname.raw())), ("  +")@), dec(x.added as int)), (" -")@), dec(x.removed as int)))
}
pub open spec fn stat_out(o: Seq<u8>, s: Seq<FileStatResult>, n: int) -> Seq<u8>
    decreases n
{ if n <= 0 { o } else { stat_line(stat_out(o, s, n - 1), s[n - 1]) } }
pub open spec fn stats_printed(items: Seq<FileStatResult>, o: Seq<u8>, n: Seq<u8>) -> bool {
    exists|s: Seq<FileStatResult>| reordered(items, s) && n == #[trigger] stat_out(o, s, s.len() as int)
}
/// The line counts of a report, one file a line.
pub open spec fn stat_shown(v: StoreV, r: DiffResult, o: Seq<u8>, n: Seq<u8>) -> bool {
    exists|items: Seq<FileStatResult>| stat_ok(v, r, items) && #[trigger] stats_printed(items, o, n)
}
pub open spec fn patch_shown(v: StoreV, r: DiffResult, o: Seq<u8>, n: Seq<u8>) -> bool { exists|t: Seq<char>| patch_of(v, r, t) && n == nl(#[trigger] w(o, t)) }
pub open spec fn diff_shown(v: StoreV, kind: Kind, r: DiffResult, o: Seq<u8>, n: Seq<u8>) -> bool {
    match kind { Kind::Stat => stat_shown(v, r, o, n), Kind::Patch => patch_shown(v, r, o, n) }
}
// --- objects -------------------------------------------------------------------
pub open spec fn parent_tree(v: StoreV, c: CommitV, p: Option<TypedKey<FSItem>>) -> bool {
    if c.parents.len() == 0 { p is None } else { p matches Some(x) && (commit_at(v, c.parents[0]) matches Some(pc) && x.inner == pc.tree) }
}
pub open spec fn commit_head(o: Seq<u8>, k: Key, c: CommitV) -> Seq<u8> { nl(nl(w(nl(nl(w(w(o, ("commit: ")@), user_key(k)))), c.attrs.message))) }
/// A commit: its key, its message, and what it changes against its first parent.
pub open spec fn commit_shown(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>) -> bool {
    commit_at(v, k) matches Some(c) && exists|t: TypedKey<FSItem>, p: Option<TypedKey<FSItem>>, d: DiffResult| t.inner == c.tree && parent_tree(v, c, p)
        && #[trigger] right_report(v, DiffTarget::Database(t), p, d) && diff_shown(v, kind, d, commit_head(o, k, c), n)
}
pub open spec fn bytes_shown(v: StoreV, k: Key, o: Seq<u8>, n: Seq<u8>) -> bool { exists|b: Seq<u8>| #[trigger] means(v, k, b) && n == o + b }
pub open spec fn shows_d(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>, d: nat) -> bool
    decreases d
{
    match lookup(v, k) { None => false, Some(ob) => match ob.objtype {
        ObjType::FileBlobTree => bytes_shown(v, k, o, n),
        ObjType::FileBlob => bytes_shown(v, k, o, n),
        ObjType::FSItemFile => d > 0 && ob.keys.len() == 1 && shows_d(v, ob.keys[0], kind, o, n, (d - 1) as nat),
        ObjType::Commit => commit_shown(v, k, kind, o, n),
        ObjType::FSItemDir => n == nl(w(w(o, ("tree: ")@), user_key(k))),
        ObjType::Unknown => false,
    } }
}
pub open spec fn shows(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>) -> bool { exists|d: nat| #[trigger] shows_d(v, k, kind, o, n, d) }
pub mod ax_shows { use super::*;
pub broadcast proof fn lemma_shows(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>)
    ensures
        lookup(v, k) matches Some(ob) ==> (match ob.objtype {
            ObjType::FSItemFile => ob.keys.len() == 1 && shows(v, ob.keys[0], kind, o, n) ==> #[trigger] shows(v, k, kind, o, n),
            ObjType::Unknown => true,
            _ => shows_d(v, k, kind, o, n, 0) ==> shows(v, k, kind, o, n),
        })
{
    if let Some(ob) = lookup(v, k) {
        if ob.objtype == ObjType::FSItemFile && ob.keys.len() == 1 && shows(v, ob.keys[0], kind, o, n) {
            let d = choose|d: nat| #[trigger] shows_d(v, ob.keys[0], kind, o, n, d);
            assert(shows_d(v, k, kind, o, n, d + 1));
        }
    }
}
}
/// Showing a stored file prints exactly its bytes.
pub proof fn lemma_file_shown(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>)
    requires shows(v, k, kind, o, n), lookup(v, k) matches Some(f) && f.objtype == ObjType::FSItemFile
        && (lookup(v, f.keys[0]) matches Some(b) && (b.objtype == ObjType::FileBlob || b.objtype == ObjType::FileBlobTree))
    ensures bytes_shown(v, k, o, n)
{
    let d = choose|d: nat| #[trigger] shows_d(v, k, kind, o, n, d);
    let c = lookup(v, k).unwrap().keys[0];
    reveal_with_fuel(shows_d, 2);
    let b = choose|b: Seq<u8>| #[trigger] means(v, c, b) && n == o + b;
    let e = choose|e: nat| #[trigger] flat(v, c, e) == Some(b);
    assert(flat(v, k, e + 1) == Some(b));
    assert(means(v, k, b));
}
// --- the log -------------------------------------------------------------------
/// Each key is the first parent of the one before it.
pub open spec fn first_parents(v: StoreV, k: Key, ks: Seq<Key>) -> bool {
    &&& ks.len() > 0 && ks[0] == k
    &&& forall|i: int| 0 <= i < ks.len() ==> commit_at(v, #[trigger] ks[i]) is Some
    &&& forall|i: int| 1 <= i < ks.len() ==> is_first_parent(v, ks[i - 1], #[trigger] ks[i])
}
pub open spec fn is_first_parent(v: StoreV, k: Key, p: Key) -> bool { commit_at(v, k) matches Some(c) && c.parents.len() > 0 && c.parents[0] == p }
pub open spec fn logged(v: StoreV, ks: Seq<Key>, kind: Kind, o: Seq<u8>, n: Seq<u8>) -> bool
    decreases ks.len()
{
    if ks.len() == 0 { n == o } else {
        exists|a: Seq<u8>, m: Seq<u8>| logged(v, ks.drop_last(), kind, o, a) && #[trigger] shows(v, ks.last(), kind, a, m) && n == nl(nl(m))
    }
}
/// The commit, its first parent, and so on to a commit without parents, each shown in turn.
pub open spec fn log_shown(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, n: Seq<u8>) -> bool {
    exists|ks: Seq<Key>| first_parents(v, k, ks) && commit_at(v, ks.last())->Some_0.parents.len() == 0 && #[trigger] logged(v, ks, kind, o, n)
}
pub proof fn lemma_logged_one(v: StoreV, k: Key, kind: Kind, o: Seq<u8>, m: Seq<u8>)
    requires shows(v, k, kind, o, m)
    ensures logged(v, seq![k], kind, o, nl(nl(m)))
{ reveal_with_fuel(logged, 2); assert(seq![k].drop_last() =~= Seq::<Key>::empty()); assert(logged(v, seq![k].drop_last(), kind, o, o)); assert(seq![k].last() == k); }
pub proof fn lemma_logged_push(v: StoreV, ks: Seq<Key>, k: Key, kind: Kind, o: Seq<u8>, a: Seq<u8>, m: Seq<u8>)
    requires logged(v, ks, kind, o, a), shows(v, k, kind, a, m)
    ensures logged(v, ks.push(k), kind, o, nl(nl(m)))
{ assert(ks.push(k).drop_last() =~= ks); assert(ks.push(k).last() == k); }
