// ---------------------------------------------------------------------------
// Checking a stored tree out into a folder.
// ---------------------------------------------------------------------------
pub enum DEnt { Dir, File(Seq<u8>), Made(int), Other }
/// What is on the disk: by path.  Made: a file that is emptied or new, still being written.  Other: links, devices.
pub type Disk = Map<Comps, DEnt>;
pub open spec fn same_at(a: Disk, b: Disk, q: Comps) -> bool { a.contains_key(q) == b.contains_key(q) && (a.contains_key(q) ==> a[q] == b[q]) }
pub open spec fn is_filey(e: DEnt) -> bool { e is File || e is Made }
/// Checking out is limited to this folder.
pub open spec fn may_change(p: Comps) -> bool { is_prefix(str_comps("/home/jess/src/snapcd/repo"@), p) }
/// Only directories on the way to `p` are new.
pub open spec fn only_way_d(a: Disk, b: Disk, p: Comps) -> bool {
    forall|q: Comps| #![trigger b.contains_key(q)] #![trigger a.contains_key(q)] same_at(a, b, q) || (!a.contains_key(q) && b.contains_key(q) && is_prefix(q, p) && b[q] == DEnt::Dir)
}
/// Some of what is at or below `r` is gone.
pub open spec fn lessened(a: Disk, b: Disk, r: Comps) -> bool {
    forall|q: Comps| #![trigger b.contains_key(q)] #![trigger a.contains_key(q)] same_at(a, b, q) || (is_prefix(r, q) && !b.contains_key(q))
}
/// All of it.
pub open spec fn removed(a: Disk, b: Disk, r: Comps) -> bool {
    lessened(a, b, r) && forall|q: Comps| #![trigger b.contains_key(q)] is_prefix(r, q) ==> !b.contains_key(q)
}
/// A file is at `p`, new or emptied; nothing is below a file.
pub open spec fn file_set(a: Disk, b: Disk, p: Comps, e: DEnt) -> bool {
    &&& forall|q: Comps| #![trigger b.contains_key(q)] #![trigger a.contains_key(q)] q != p ==> same_at(a, b, q) && (is_prefix(p, q) ==> !b.contains_key(q))
    &&& b.contains_key(p) && b[p] == e
}
/// The entries are those of the directory at `p`; what is below it is below one of them.
#[verifier::opaque]
pub open spec fn dlists(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, w: Disk) -> bool {
    &&& forall|n: Seq<u8>| #![trigger w.contains_key(p.push(n))] listed(v, n) ==> w.contains_key(p.push(n))
    &&& forall|q: Comps| #![trigger w.contains_key(p + q)] q.len() > 0 && w.contains_key(p + q) ==> listed(v, q[0])
}
/// Assumed: std::fs, where links do not stand for folders or files of the tree.
pub mod disk {
    use super::*;
    #[verifier::external_body]
    pub struct File { x: u8 }
    impl File {
        pub uninterp spec fn s_out(&self) -> Seq<u8>;
        pub uninterp spec fn s_id(&self) -> int;
        /// Makes the file, or empties it.
        #[verifier::external_body]
        pub fn create<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<File, std::io::Error>)
            requires may_change(p.pv())
            ensures match r { Ok(f) => f.s_out().len() == 0 && file_set(*old(w), *final(w), p.pv(), DEnt::Made(f.s_id())), Err(_) => *final(w) == *old(w) }
        { unimplemented!() }
    }
    pub struct OpenOptions { pub write: bool, pub new: bool, pub create: bool, pub trunc: bool, pub read: bool, pub append: bool }
    impl OpenOptions {
        pub fn new() -> (r: Self) ensures r == (OpenOptions { write: false, new: false, create: false, trunc: false, read: false, append: false })
        { OpenOptions { write: false, new: false, create: false, trunc: false, read: false, append: false } }
        pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
        pub fn read(self, b: bool) -> (r: Self) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
        pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { append: b, ..self } }
        pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
        pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { trunc: b, ..self }) { OpenOptions { trunc: b, ..self } }
        pub fn create_new(self, b: bool) -> (r: Self) ensures r == (OpenOptions { new: b, ..self }) { OpenOptions { new: b, ..self } }
        /// Without truncate, what was in the file stays in it after what is written.
        #[verifier::external_body]
        pub fn open<P: VxPath>(self, p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<File, std::io::Error>)
            requires may_change(p.pv())
            ensures match r { Ok(f) => (self.trunc || self.new ==> f.s_out().len() == 0) && (self.new ==> !old(w).contains_key(p.pv())) && file_set(*old(w), *final(w), p.pv(), DEnt::Made(f.s_id())), Err(_) => *final(w) == *old(w) }
        { unimplemented!() }
    }
    impl Write for File {
        open spec fn out(&self) -> Seq<u8> { self.s_out() }
        open spec fn wid(&self) -> int { self.s_id() }
        #[verifier::external_body]
        fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>) { unimplemented!() }
    }
    /// The file is closed: what was written to it is its content.
    #[verifier::external_body]
    pub fn vx_close(f: File, p: &Path, Tracked(w): Tracked<&mut Disk>)
        requires old(w).contains_key(p@), old(w)[p@] == DEnt::Made(f.wid())
        ensures *final(w) == old(w).insert(p@, DEnt::File(f.out()))
    { unimplemented!() }
    #[verifier::external_body]
    pub struct FileType { x: u8 }
    impl FileType {
        pub uninterp spec fn e(&self) -> DEnt;
        /// What a link leads to counts: a link can be either.
        #[verifier::external_body]
        pub fn is_dir(&self) -> (r: bool) ensures self.e() is Dir ==> r, is_filey(self.e()) ==> !r { unimplemented!() }
        #[verifier::external_body]
        pub fn is_file(&self) -> (r: bool) ensures self.e() is Dir ==> !r, is_filey(self.e()) ==> r { unimplemented!() }
        #[verifier::external_body]
        pub fn is_symlink(&self) -> (r: bool) ensures !(self.e() is Other) ==> !r { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Metadata { x: u8 }
    impl Metadata {
        pub uninterp spec fn e(&self) -> DEnt;
        #[verifier::external_body]
        pub fn file_type(&self) -> (r: FileType) ensures r.e() == self.e() { unimplemented!() }
        #[verifier::external_body]
        pub fn is_dir(&self) -> (r: bool) ensures self.e() is Dir ==> r, is_filey(self.e()) ==> !r { unimplemented!() }
        #[verifier::external_body]
        pub fn is_file(&self) -> (r: bool) ensures self.e() is Dir ==> !r, is_filey(self.e()) ==> r { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn metadata<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<Metadata, std::io::Error>)
        ensures *final(w) == *old(w), r matches Ok(m) ==> old(w).contains_key(p.pv()) && m.e() == old(w)[p.pv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink_metadata<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<Metadata, std::io::Error>)
        ensures *final(w) == *old(w), r matches Ok(m) ==> old(w).contains_key(p.pv()) && m.e() == old(w)[p.pv()] { unimplemented!() }
    /// Every entry of the directory, once, in any order.
    #[verifier::external_body]
    pub fn read_dir<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<Vec<Result<DirEntry, std::io::Error>>, std::io::Error>)
        ensures *final(w) == *old(w), r matches Ok(v) ==> entries_of(v@, p.pv()) && (all_ok(v@) ==> dlists(v@, p.pv(), *old(w))) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<(), std::io::Error>)
        requires may_change(p.pv())
        ensures only_way_d(*old(w), *final(w), p.pv()), r is Ok ==> final(w).contains_key(p.pv()) && final(w)[p.pv()] == DEnt::Dir { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<(), std::io::Error>)
        requires may_change(p.pv())
        ensures lessened(*old(w), *final(w), p.pv()), r is Ok ==> removed(*old(w), *final(w), p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: VxPath>(p: P, Tracked(w): Tracked<&mut Disk>) -> (r: Result<(), std::io::Error>)
        requires may_change(p.pv())
        ensures match r { Ok(_) => removed(*old(w), *final(w), p.pv()), Err(_) => *final(w) == *old(w) } { unimplemented!() }
}
// --- what a checkout may change -------------------------------------------------
/// What is at `q` below the folder may go: it is in a place that the tree has nothing at, and the filter lets that through.
pub open spec fn may_go(v: StoreV, k: Key, f: &EntFilter, p: Comps, q: Comps) -> bool
    decreases q.len()
{
    match item_at(v, k) {
        None => false,
        Some(it) => q.len() > 0 && it.head.is_dir && if it.head.names.contains(q[0]) { may_go(v, it.kids[it.head.names.index_of(q[0])], f, p.push(q[0]), q.skip(1)) } else { f.says(p.push(q[0])) },
    }
}
/// It stays: the filter does not let it through, or it is a link or a device.
pub open spec fn stays(v: StoreV, k: Key, f: &EntFilter, p: Comps, w: Disk, q: Comps) -> bool
    decreases q.len()
{
    match item_at(v, k) {
        None => false,
        Some(it) => q.len() > 0 && it.head.is_dir && if it.head.names.contains(q[0]) { stays(v, it.kids[it.head.names.index_of(q[0])], f, p.push(q[0]), w, q.skip(1)) }
            else { !f.says(p.push(q[0])) || (w.contains_key(p.push(q[0])) && w[p.push(q[0])] == DEnt::Other) },
    }
}
pub open spec fn chg_at(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, q: Comps) -> bool {
    if is_prefix(p, q) {
        let r = q.skip(p.len() as int);
        &&& w0.contains_key(q) && !w1.contains_key(q) ==> may_go(v, k, f, p, r)
        &&& !w0.contains_key(q) && w1.contains_key(q) ==> (node(v, k, r) matches Some((_, d)) && if d { w1[q] == DEnt::Dir } else { is_filey(w1[q]) })
        &&& w0.contains_key(q) && w1.contains_key(q) && w0[q] != w1[q] ==> (node(v, k, r) matches Some((_, d)) && !d && is_filey(w1[q]))
    } else { same_at(w0, w1, q) || (!w0.contains_key(q) && w1.contains_key(q) && is_prefix(q, p) && w1[q] == DEnt::Dir) }
}
/// All that changed is what a checkout may change: what the tree does not have and the filter lets through can go; what the tree has can come, and its files can be written.
#[verifier::opaque]
pub open spec fn chg(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk) -> bool {
    forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w1.contains_key(q)] #![trigger w1[q]] chg_at(v, k, f, p, w0, w1, q)
}
/// What the tree has at `q` is there, with its content; what it does not have is what was there and stays.
pub open spec fn co_at(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, q: Comps) -> bool {
    match node(v, k, q) {
        Some((kk, true)) => w1.contains_key(p + q) && w1[p + q] == DEnt::Dir,
        Some((kk, false)) => w1.contains_key(p + q) && w1[p + q] is File && content_is(v, kk, w1[p + q]->File_0),
        None => w1.contains_key(p + q) ==> same_at(w0, w1, p + q) && stays(v, k, f, p, w0, q),
    }
}
/// The folder is as the tree says.
#[verifier::opaque]
pub open spec fn full(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk) -> bool {
    forall|q: Comps| #[trigger] co_at(v, k, f, p, w0, w1, q)
}
/// The first `i` children are; the others are as they were; what is not stored is gone unless it stays.
pub open spec fn up_at(v: StoreV, it: ItemV, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, i: int, q: Comps) -> bool {
    let n = q[0];
    if it.head.names.contains(n) {
        if it.head.names.index_of(n) < i { co_at(v, it.kids[it.head.names.index_of(n)], f, p.push(n), w0, w1, q.skip(1)) } else { same_at(w0, w1, p + q) }
    } else {
        w1.contains_key(p + q) ==> same_at(w0, w1, p + q) && (!f.says(p.push(n)) || (w0.contains_key(p.push(n)) && w0[p.push(n)] == DEnt::Other))
    }
}
#[verifier::opaque]
pub open spec fn upto(v: StoreV, it: ItemV, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, i: int) -> bool {
    forall|q: Comps| #![trigger w1.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 ==> up_at(v, it, f, p, w0, w1, i, q)
}
/// The names of the entries.
pub open spec fn pvs<T: VxPath>(s: Seq<T>) -> Seq<Comps> { s.map_values(|x: T| x.pv()) }
/// The first `j` of them have been removed, or are links or devices.
pub open spec fn among(ex: Seq<Comps>, j: int, n: Seq<u8>) -> bool { exists|i: int| 0 <= i < j && i < ex.len() && #[trigger] ex[i] == seq![n] }
pub open spec fn swept_at(ex: Seq<Comps>, p: Comps, w0: Disk, w: Disk, j: int, q: Comps) -> bool {
    if among(ex, j, q[0]) { w.contains_key(p + q) ==> same_at(w0, w, p + q) && w0.contains_key(p.push(q[0])) && w0[p.push(q[0])] == DEnt::Other }
    else { same_at(w0, w, p + q) }
}
#[verifier::opaque]
pub open spec fn swept(ex: Seq<Comps>, p: Comps, w0: Disk, w: Disk, j: int) -> bool {
    &&& forall|q: Comps| #![trigger w.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 ==> swept_at(ex, p, w0, w, j, q)
    &&& same_at(w0, w, p)
}
/// One-component paths.
pub open spec fn singles(s: Seq<Seq<u8>>) -> Set<Comps> { s.map_values(|n: Seq<u8>| seq![n]).to_set() }
/// The members of one set that are not in the other, each once.
#[verifier::opaque]
pub open spec fn diff_of(ex: Seq<Comps>, a: Set<Comps>, b: Set<Comps>) -> bool {
    &&& forall|c: Comps| #![trigger ex.contains(c)] #![trigger a.contains(c)] ex.contains(c) <==> a.contains(c) && !b.contains(c)
    &&& ex.no_duplicates()
}
impl HashSet<Path> {
    #[verifier::external_body]
    pub fn vx_difference<'a>(&'a self, o: &'a HashSet<Path>) -> (r: Vec<&'a Path>) ensures diff_of(pvs(r@), self@, o@) { unimplemented!() }
}
/// Iterator::cloned of a slice's.
pub trait VxClonedPaths: Sized { #[verifier::prophetic] spec fn cps(&self) -> Seq<&Path>; fn vx_cloned(self) -> (r: Vec<PathBuf>)
    ensures r@.len() == self.cps().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).raw() == self.cps()[i].raw(), vx_cloned_names(raws(r@)); }
/// A term to name what was cloned by.
pub open spec fn vx_cloned_names(s: Seq<Seq<u8>>) -> bool { true }
impl<'a> VxClonedPaths for core::slice::Iter<'a, Path> {
    #[verifier::prophetic] open spec fn cps(&self) -> Seq<&Path> { self.remaining() }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Vec<PathBuf>) { unimplemented!() }
}
/// The set is that of the entries of the folder that the filter lets through.
#[verifier::opaque]
pub open spec fn kept_set(m: Set<Comps>, p: Comps, f: &EntFilter, w: Disk) -> bool {
    &&& forall|n: Seq<u8>| #![trigger w.contains_key(p.push(n))] #![trigger f.says(p.push(n))] m.contains(seq![n]) <==> w.contains_key(p.push(n)) && f.says(p.push(n))
    &&& forall|c: Comps| #[trigger] m.contains(c) ==> c.len() == 1 && name_ok(c[0])
    &&& forall|q: Comps| #![trigger w.contains_key(p + q)] q.len() > 0 && w.contains_key(p + q) ==> w.contains_key(p.push(q[0]))
}
/// `kk` is the child named `n`.
pub open spec fn kid_of(v: StoreV, k: Key, n: Seq<u8>, kk: Key) -> bool {
    item_at(v, k) matches Some(it) && it.head.is_dir && item_ok(it) && exists|i: int| 0 <= i < it.kids.len() && #[trigger] it.head.names[i] == n && it.kids[i] == kk
}
pub proof fn lemma_go_node(v: StoreV, k: Key, f: &EntFilter, p: Comps, q: Comps)
    requires may_go(v, k, f, p, q)
    ensures node(v, k, q) is None
    decreases q.len()
{
    let it = item_at(v, k)->Some_0;
    if it.head.names.contains(q[0]) { lemma_go_node(v, it.kids[it.head.names.index_of(q[0])], f, p.push(q[0]), q.skip(1)); }
}
pub mod ax_co { use super::*;
pub broadcast proof fn lemma_raws_same(a: Seq<PathBuf>, b: Seq<PathBuf>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i].raw() == b[i].raw()
    ensures #![trigger vx_cloned_names(raws(a)), raws(b)] raws(a) == raws(b)
{ assert(raws(a) =~= raws(b)); }
pub broadcast proof fn lemma_kept_set(s: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter, w: Disk)
    requires #[trigger] dlists(s, p, w), entries_of(s, p)
    ensures kept_set(singles(#[trigger] kept_names(s, p, f)), p, f, w)
{
    reveal(kept_set); reveal(dlists);
    let m = singles(kept_names(s, p, f));
    let a = kept_names(s, p, f).map_values(|n: Seq<u8>| seq![n]);
    assert forall|q: Comps| #![trigger w.contains_key(p + q)] q.len() > 0 && w.contains_key(p + q) implies w.contains_key(p.push(q[0])) by { assert(listed(s, q[0])); assert(w.contains_key(p.push(q[0])) || true); }
    assert forall|n: Seq<u8>| #![trigger w.contains_key(p.push(n))] #![trigger f.says(p.push(n))] m.contains(seq![n]) <==> w.contains_key(p.push(n)) && f.says(p.push(n)) by {
        lemma_singles_has(kept_names(s, p, f), n); lemma_kept_in(s, p, f, n);
        assert(p + seq![n] =~= p.push(n));
        if w.contains_key(p.push(n)) { assert(w.contains_key(p + seq![n])); assert(listed(s, seq![n][0])); }
    }
    assert forall|c: Comps| #[trigger] m.contains(c) implies c.len() == 1 && name_ok(c[0]) by {
        let i = a.index_of(c); assert(a[i] == c);
        let n = kept_names(s, p, f)[i];
        assert(kept_names(s, p, f).contains(n)); lemma_kept_in(s, p, f, n);
        reveal(entries_of); let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]) is Ok && s[j]->Ok_0.nm() == n;
    }
}
pub broadcast proof fn lemma_singles_none()
    ensures #[trigger] singles(Seq::<Seq<u8>>::empty()) == Set::<Comps>::empty()
{ assert(singles(Seq::<Seq<u8>>::empty()) =~= Set::<Comps>::empty()); }
pub broadcast proof fn lemma_singles_push(s: Seq<Seq<u8>>, n: Seq<u8>)
    ensures #[trigger] singles(s.push(n)) == singles(s).insert(seq![n])
{
    let a = s.map_values(|n: Seq<u8>| seq![n]); let b = s.push(n).map_values(|n: Seq<u8>| seq![n]);
    assert(b =~= a.push(seq![n]));
    assert forall|c: Comps| singles(s.push(n)).contains(c) <==> singles(s).insert(seq![n]).contains(c) by {
        if b.contains(c) { let i = b.index_of(c); if i < a.len() { assert(a[i] == c); } }
        if a.contains(c) { let i = a.index_of(c); assert(b[i] == c); }
        if c == seq![n] { assert(b[a.len() as int] == c); }
    }
    assert(singles(s.push(n)) =~= singles(s).insert(seq![n]));
}
/// The set of the stored names.
pub broadcast proof fn lemma_singles_raws(s: Seq<PathBuf>)
    requires all_names_ok(raws(s))
    ensures #![trigger kvs(s), raws(s)] kvs(s).to_set() == singles(raws(s))
{
    broadcast use ax_path::axiom_file_name;
    assert(kvs(s) =~= raws(s).map_values(|n: Seq<u8>| seq![n])) by {
        assert forall|i: int| 0 <= i < s.len() implies kvs(s)[i] == seq![raws(s)[i]] by { assert(name_ok(raws(s)[i])); assert(file_name_of(raws(s)[i]) == file_name_of(raws(s)[i])); assert(s[i]@ == comps_of(s[i].raw())); }
    }
}
pub proof fn lemma_singles_has(s: Seq<Seq<u8>>, n: Seq<u8>)
    ensures singles(s).contains(seq![n]) == s.contains(n)
{
    let a = s.map_values(|n: Seq<u8>| seq![n]);
    if a.contains(seq![n]) { let i = a.index_of(seq![n]); assert(a[i][0] == n); assert(s[i] == n); }
    if s.contains(n) { let i = s.index_of(n); assert(a[i] == seq![n]); }
}
pub broadcast proof fn lemma_chg_refl(v: StoreV, k: Key, f: &EntFilter, p: Comps, w: Disk)
    ensures #[trigger] chg(v, k, f, p, w, w)
{ reveal(chg); }
pub broadcast proof fn lemma_chg_trans(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, w2: Disk)
    requires #[trigger] chg(v, k, f, p, w0, w1), #[trigger] chg(v, k, f, p, w1, w2)
    ensures chg(v, k, f, p, w0, w2)
{
    reveal(chg);
    assert forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w2.contains_key(q)] #![trigger w2[q]] chg_at(v, k, f, p, w0, w2, q) by {
        assert(chg_at(v, k, f, p, w0, w1, q)) by { assert(w0.contains_key(q) || true); }
        assert(chg_at(v, k, f, p, w1, w2, q)) by { assert(w1.contains_key(q) || true); }
        if is_prefix(p, q) && may_go(v, k, f, p, q.skip(p.len() as int)) { lemma_go_node(v, k, f, p, q.skip(p.len() as int)); }
    }
}
/// The folder was made.
pub broadcast proof fn lemma_chg_made(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk)
    requires #[trigger] only_way_d(w0, w1, p), item_at(v, k) is Some, item_at(v, k)->Some_0.head.is_dir
    ensures #[trigger] chg(v, k, f, p, w0, w1)
{
    reveal(chg);
    assert forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w1.contains_key(q)] #![trigger w1[q]] chg_at(v, k, f, p, w0, w1, q) by {
        assert(w0.contains_key(q) || true);
        if is_prefix(p, q) && is_prefix(q, p) { assert(p =~= q); assert(q.skip(p.len() as int).len() == 0); }
    }
}
/// Something that the tree does not have was removed, wholly or in part.
pub broadcast proof fn lemma_chg_less(v: StoreV, k: Key, f: &EntFilter, p: Comps, w: Disk, w0: Disk, w1: Disk, n: Seq<u8>)
    requires #[trigger] chg(v, k, f, p, w, w0), #[trigger] lessened(w0, w1, p.push(n)), item_at(v, k) is Some, item_at(v, k)->Some_0.head.is_dir, !item_at(v, k)->Some_0.head.names.contains(n), f.says(p.push(n))
    ensures chg(v, k, f, p, w, w1)
{
    reveal(chg);
    assert forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w1.contains_key(q)] #![trigger w1[q]] chg_at(v, k, f, p, w0, w1, q) by {
        assert(w0.contains_key(q) || true);
        if is_prefix(p.push(n), q) { lemma_prefix_push(p, n, q); }
    }
    assert(chg(v, k, f, p, w0, w1));
    lemma_chg_trans(v, k, f, p, w, w0, w1);
}
pub broadcast proof fn lemma_chg_kid(v: StoreV, k: Key, kk: Key, f: &EntFilter, p: Comps, n: Seq<u8>, w0: Disk, w1: Disk, w2: Disk)
    requires #[trigger] chg(v, k, f, p, w0, w1), #[trigger] chg(v, kk, f, p.push(n), w1, w2), kid_of(v, k, n, kk), w1.contains_key(p)
    ensures chg(v, k, f, p, w0, w2), same_at(w1, w2, p)
{
    reveal(chg);
    let it = item_at(v, k)->Some_0; let i = choose|i: int| 0 <= i < it.kids.len() && #[trigger] it.head.names[i] == n && it.kids[i] == kk; let pn = p.push(n);
    assert(it.head.names.contains(n)); assert(it.head.names.index_of(n) == i);
    assert forall|q: Comps| #![trigger w1.contains_key(q)] #![trigger w2.contains_key(q)] #![trigger w2[q]] chg_at(v, k, f, p, w1, w2, q) by {
        assert(chg_at(v, it.kids[i], f, pn, w1, w2, q)) by { assert(w1.contains_key(q) || true); }
        if is_prefix(pn, q) {
            lemma_prefix_push(p, n, q);
            assert(q.skip(pn.len() as int) == q.skip(p.len() as int).skip(1));
        } else if is_prefix(q, pn) {
            if q.len() <= p.len() { assert(p.push(n).take(q.len() as int) =~= p.take(q.len() as int)); if q.len() == p.len() { assert(p.take(p.len() as int) =~= p); } }
            else { assert(p.push(n).take(pn.len() as int) =~= pn); assert(q =~= pn); assert(pn.take(pn.len() as int) =~= pn); }
        }
    }
    assert(chg_at(v, it.kids[i], f, pn, w1, w2, p)) by { assert(w1.contains_key(p)); }
    assert(chg(v, k, f, p, w1, w2));
    lemma_chg_trans(v, k, f, p, w0, w1, w2);
}
pub broadcast proof fn lemma_chg_file(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, e: DEnt)
    requires #[trigger] file_set(w0, w1, p, e), is_filey(e), item_at(v, k) is Some, !item_at(v, k)->Some_0.head.is_dir
    ensures #[trigger] chg(v, k, f, p, w0, w1)
{
    reveal(chg);
    assert forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w1.contains_key(q)] #![trigger w1[q]] chg_at(v, k, f, p, w0, w1, q) by {
        assert(w0.contains_key(q) || true);
        if q == p { assert(q.skip(p.len() as int).len() == 0); assert(p.take(p.len() as int) =~= p); }
    }
}
pub proof fn lemma_full_file(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, b: Seq<u8>)
    requires file_set(w0, w1, p, DEnt::File(b)), file_is(v, k, b)
    ensures full(v, k, f, p, w0, w1)
{
    reveal(full);
    assert forall|q: Comps| #[trigger] co_at(v, k, f, p, w0, w1, q) by {
        if q.len() == 0 { assert(p + q =~= p); } else {
            assert(is_prefix(p, p + q)) by { assert((p + q).take(p.len() as int) =~= p); }
            assert(!w1.contains_key(p + q)) by { assert(p + q != p); assert(w1.contains_key(p + q) || true); }
        }
    }
}
pub proof fn lemma_swept_none(ex: Seq<Comps>, p: Comps, w: Disk)
    ensures swept(ex, p, w, w, 0)
{ reveal(swept); }
/// One more of the entries that are not stored.
pub proof fn lemma_swept_step(ex: Seq<Comps>, p: Comps, w0: Disk, w1: Disk, w2: Disk, j: int, n: Seq<u8>)
    requires
        swept(ex, p, w0, w1, j), 0 <= j < ex.len(), ex[j] == seq![n], ex.no_duplicates(),
        removed(w1, w2, p.push(n)) || (w2 == w1 && w1.contains_key(p.push(n)) && w1[p.push(n)] == DEnt::Other),
    ensures swept(ex, p, w0, w2, j + 1)
{
    reveal(swept);
    let pn = p.push(n);
    assert(pn =~= p + seq![n]);
    assert(!among(ex, j, n)) by { if among(ex, j, n) { let i = choose|i: int| 0 <= i < j && i < ex.len() && #[trigger] ex[i] == seq![n]; assert(ex[i] == ex[j]); } }
    assert(swept_at(ex, p, w0, w1, j, seq![n])) by { assert(w1.contains_key(p + seq![n]) || true); }
    assert forall|q: Comps| #![trigger w2.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 implies swept_at(ex, p, w0, w2, j + 1, q) by {
        assert(swept_at(ex, p, w0, w1, j, q)) by { assert(w1.contains_key(p + q) || true); }
        if q[0] == n {
            assert(among(ex, j + 1, q[0])) by { assert(ex[j] == seq![n]); }
            assert(is_prefix(pn, p + q)) by { assert((p + q).take(pn.len() as int) =~= pn); }
        } else {
            assert(among(ex, j + 1, q[0]) == among(ex, j, q[0])) by {
                if among(ex, j + 1, q[0]) { let i = choose|i: int| 0 <= i < j + 1 && i < ex.len() && #[trigger] ex[i] == seq![q[0]]; if i == j { assert(seq![n][0] == seq![q[0]][0]); } }
                if among(ex, j, q[0]) { let i = choose|i: int| 0 <= i < j && i < ex.len() && #[trigger] ex[i] == seq![q[0]]; assert(0 <= i < j + 1); }
            }
            if is_prefix(pn, p + q) { lemma_prefix_push(p, n, p + q); assert((p + q)[p.len() as int] == q[0]); }
        }
    }
    if is_prefix(pn, p) { assert(false); }
    assert(w2.contains_key(p) || true);
}
/// Everything that is not stored is gone, unless it stays.
pub proof fn lemma_upto_none(v: StoreV, it: ItemV, f: &EntFilter, p: Comps, m: Set<Comps>, ex: Seq<Comps>, w00: Disk, w0: Disk, w1: Disk)
    requires
        only_way_d(w00, w0, p), kept_set(m, p, f, w0), diff_of(ex, m, singles(it.head.names)), swept(ex, p, w0, w1, ex.len() as int),
    ensures upto(v, it, f, p, w00, w1, 0)
{
    reveal(upto); reveal(swept); reveal(kept_set); reveal(diff_of);
    assert forall|q: Comps| q.len() > 0 implies same_at(w00, w0, p + q) by { assert(w0.contains_key(p + q) || true); }
    assert forall|q: Comps| #![trigger w1.contains_key(p + q)] #![trigger w00.contains_key(p + q)] q.len() > 0 implies up_at(v, it, f, p, w00, w1, 0, q) by {
        let n = q[0];
        assert(swept_at(ex, p, w0, w1, ex.len() as int, q)) by { assert(w1.contains_key(p + q) || true); }
        assert(same_at(w00, w0, p + q));
        assert(p + seq![n] =~= p.push(n)); assert(same_at(w00, w0, p + seq![n]));
        lemma_singles_has(it.head.names, n); assert(w0.contains_key(p.push(n)) || true);
        if among(ex, ex.len() as int, n) { let i = choose|i: int| 0 <= i < ex.len() && i < ex.len() && #[trigger] ex[i] == seq![n]; assert(ex.contains(seq![n])); }
        if it.head.names.contains(n) { assert(it.head.names.index_of(n) >= 0); assert(!among(ex, ex.len() as int, n)); }
        else if w1.contains_key(p + q) {
            assert(w0.contains_key(p + q)); assert(w0.contains_key(p.push(n)));
            if f.says(p.push(n)) { assert(ex.contains(seq![n])); let i = ex.index_of(seq![n]); assert(ex[i] == seq![n]); assert(among(ex, ex.len() as int, n)); }
        }
    }
}
pub proof fn lemma_stays_same(v: StoreV, k: Key, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, q: Comps)
    requires forall|x: Comps| #[trigger] same_at(w0, w1, p + x)
    ensures stays(v, k, f, p, w0, q) == stays(v, k, f, p, w1, q)
    decreases q.len()
{
    if q.len() > 0 {
        let n = q[0];
        assert(p + seq![n] =~= p.push(n)); assert(same_at(w0, w1, p + seq![n]));
        if item_at(v, k) is Some && item_at(v, k)->Some_0.head.names.contains(n) {
            assert forall|x: Comps| #[trigger] same_at(w0, w1, p.push(n) + x) by { assert(p.push(n) + x =~= p + (seq![n] + x)); assert(same_at(w0, w1, p + (seq![n] + x))); }
            lemma_stays_same(v, item_at(v, k)->Some_0.kids[item_at(v, k)->Some_0.head.names.index_of(n)], f, p.push(n), w0, w1, q.skip(1));
        }
    }
}
/// One more child.
pub proof fn lemma_upto_step(v: StoreV, it: ItemV, f: &EntFilter, p: Comps, w0: Disk, w1: Disk, w2: Disk, i: int)
    requires
        item_ok(it), it.head.is_dir, 0 <= i < it.kids.len(), upto(v, it, f, p, w0, w1, i), w1.contains_key(p),
        full(v, it.kids[i], f, p.push(it.head.names[i]), w1, w2), chg(v, it.kids[i], f, p.push(it.head.names[i]), w1, w2),
    ensures upto(v, it, f, p, w0, w2, i + 1)
{
    reveal(upto); reveal(full); reveal(chg);
    let n = it.head.names[i]; let pn = p.push(n); let kk = it.kids[i];
    assert(it.head.names.contains(n)); assert(it.head.names.index_of(n) == i);
    assert forall|x: Comps| #[trigger] same_at(w0, w1, pn + x) by {
        let q = seq![n] + x;
        assert(pn + x =~= p + q);
        assert(up_at(v, it, f, p, w0, w1, i, q)) by { assert(w1.contains_key(p + q) || true); }
        assert(q[0] == n);
    }
    assert forall|q: Comps| #![trigger w2.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 implies up_at(v, it, f, p, w0, w2, i + 1, q) by {
        assert(up_at(v, it, f, p, w0, w1, i, q)) by { assert(w1.contains_key(p + q) || true); }
        if q[0] == n {
            let r = q.skip(1);
            assert(pn + r =~= p + q);
            assert(co_at(v, kk, f, pn, w1, w2, r));
            assert(same_at(w0, w1, pn + r));
            lemma_stays_same(v, kk, f, pn, w0, w1, r);
        } else {
            assert(chg_at(v, kk, f, pn, w1, w2, p + q)) by { assert(w1.contains_key(p + q) || true); }
            if is_prefix(pn, p + q) { lemma_prefix_push(p, n, p + q); assert((p + q)[p.len() as int] == q[0]); }
            if is_prefix(p + q, pn) { assert((p + q).len() == pn.len()); assert(pn.take(pn.len() as int) =~= pn); assert((p + q)[p.len() as int] == q[0]); }
            assert(same_at(w1, w2, p + q));
            if it.head.names.contains(q[0]) {
                assert(it.head.names.index_of(q[0]) != i);
                assert(p.push(q[0]) + q.skip(1) =~= p + q);
            }
        }
    }
}
pub proof fn lemma_full_dir(v: StoreV, k: Key, it: ItemV, f: &EntFilter, p: Comps, w0: Disk, w1: Disk)
    requires item_at(v, k) == Some(it), it.head.is_dir, item_ok(it), upto(v, it, f, p, w0, w1, it.kids.len() as int), w1.contains_key(p), w1[p] == DEnt::Dir
    ensures full(v, k, f, p, w0, w1)
{
    reveal(full); reveal(upto);
    assert forall|q: Comps| #[trigger] co_at(v, k, f, p, w0, w1, q) by {
        if q.len() == 0 { assert(p + q =~= p); } else {
            assert(up_at(v, it, f, p, w0, w1, it.kids.len() as int, q)) by { assert(w1.contains_key(p + q) || true); }
            assert(p.push(q[0]) + q.skip(1) =~= p + q);
        }
    }
}
/// One of the entries that are not stored.
pub proof fn lemma_extra(ex: Seq<Comps>, j: int, m: Set<Comps>, db: Set<Comps>, names: Seq<Seq<u8>>, p: Comps, f: &EntFilter, w: Disk)
    requires 0 <= j < ex.len(), diff_of(ex, m, db), kept_set(m, p, f, w), db == singles(names)
    ensures ex[j] == seq![ex[j][0]], !names.contains(ex[j][0]), f.says(p.push(ex[j][0])), w.contains_key(p.push(ex[j][0])), ex.no_duplicates(), pjoin(p, ex[j]) == p.push(ex[j][0])
{
    reveal(diff_of); reveal(kept_set);
    assert(ex.contains(ex[j])); assert(m.contains(ex[j]));
    assert(ex[j] =~= seq![ex[j][0]]);
    let n = ex[j][0];
    assert(w.contains_key(p.push(n)) || true);
    lemma_singles_has(names, n);
    assert(p + ex[j] =~= p.push(n));
}
pub proof fn lemma_under(p: Comps, n: Seq<u8>)
    requires may_change(p)
    ensures may_change(p.push(n))
{ let g = str_comps("/home/jess/src/snapcd/repo"@); assert(p.push(n).take(g.len() as int) =~= p.take(g.len() as int)); }
}
