// ---------------------------------------------------------------------------
// Assumed: std::fs.  What is read does not change while it is read (fs_at); what is written is tracked (World).
// ---------------------------------------------------------------------------
pub enum Ent { File(Seq<u8>), Dir(Set<Seq<u8>>), Other }
/// What the path leads to, while a command reads it.
pub uninterp spec fn fs_at(p: Comps) -> Option<Ent>;
/// The content of the file that has, at some time, this identity (inode, modification time in nanoseconds, size).
pub uninterp spec fn content_of_ident(inode: u64, mtime: i64, size: u64) -> Seq<u8>;
/// This byte string is the content of some file.
pub uninterp spec fn real_content(b: Seq<u8>) -> bool;
pub mod ax_fs { use super::*;
/// ASSUMED: the entries of a directory have names that are single normal components.
pub broadcast axiom fn axiom_names(p: Comps)
    ensures #[trigger] fs_at(p) matches Some(Ent::Dir(ns)) ==> ns.finite() && forall|n: Seq<u8>| #[trigger] ns.contains(n) ==> name_ok(n);
pub broadcast axiom fn axiom_real(p: Comps)
    ensures #[trigger] fs_at(p) matches Some(Ent::File(b)) ==> real_content(b) && b.len() <= u64::MAX;
}
#[verifier::external_body]
pub struct DirEntry { x: u8 }
impl DirEntry {
    pub uninterp spec fn dir(&self) -> Comps;
    pub uninterp spec fn nm(&self) -> Seq<u8>;
    pub open spec fn pth(&self) -> Comps { self.dir().push(self.nm()) }
    #[verifier::external_body]
    pub fn path(&self) -> (r: Path) ensures r@ == self.pth() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures r@ == self.nm() { unimplemented!() }
}
#[verifier::external_body]
pub struct Metadata { x: u8 }
impl Metadata {
    pub uninterp spec fn ent(&self) -> Ent;
    pub uninterp spec fn s_mtime(&self) -> i64;
    pub uninterp spec fn s_nsec(&self) -> i64;
    pub uninterp spec fn s_ino(&self) -> u64;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == (self.ent() is Dir) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == (self.ent() is File) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64) ensures self.ent() matches Ent::File(b) ==> r == b.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn size(&self) -> (r: u64) ensures self.ent() matches Ent::File(b) ==> r == b.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn mtime(&self) -> (r: i64) ensures r == self.s_mtime() { unimplemented!() }
    #[verifier::external_body]
    pub fn mtime_nsec(&self) -> (r: i64) ensures r == self.s_nsec() { unimplemented!() }
    #[verifier::external_body]
    pub fn ino(&self) -> (r: u64) ensures r == self.s_ino() { unimplemented!() }
}
/// The modification time in nanoseconds (modulo 2^64: some 584 years).
pub open spec fn ns_time(s: i64, n: i64) -> i64 { s.wrapping_mul(1_000_000_000i64).wrapping_add(n) }
pub enum WEnt { Dir, File(Seq<u8>), Made(int) }
/// The files and directories a command can create: by path, and what is in them.  Made: created, still being written.
pub type World = Map<Comps, WEnt>;
/// Everything that was there is there, unchanged.
pub open spec fn keeps(a: World, b: World) -> bool { forall|q: Comps| #![trigger a.contains_key(q)] #![trigger b.contains_key(q)] #![trigger b[q]] a.contains_key(q) ==> b.contains_key(q) && b[q] == a[q] }
/// Only directories on the way to `p` are new.
pub open spec fn only_way(a: World, b: World, p: Comps) -> bool {
    forall|q: Comps| #![trigger b.contains_key(q)] #![trigger b[q]] b.contains_key(q) && !a.contains_key(q) ==> is_prefix(q, p) && b[q] == WEnt::Dir
}
/// Only `p` changed.
pub open spec fn only_at(a: World, b: World, p: Comps) -> bool { a.remove(p) == b.remove(p) }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn s_left(&self) -> Seq<u8>;
    pub uninterp spec fn s_out(&self) -> Seq<u8>;
    pub uninterp spec fn s_id(&self) -> int;
    /// A plain file, to be read from its start.
    pub uninterp spec fn plain(&self) -> bool;
    #[verifier::external_body]
    pub fn open<P: VxPath>(p: P) -> (r: Result<File, std::io::Error>)
        ensures r matches Ok(f) ==> fs_at(p.pv()) is Some && (fs_at(p.pv()) matches Some(Ent::File(b)) ==> f.s_left() == b && f.plain()) { unimplemented!() }
    /// Makes the file, or empties it.
    #[verifier::external_body]
    pub fn create<P: VxPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File, std::io::Error>)
        ensures only_at(*old(w), *final(w), p.pv()), r matches Ok(f) ==> f.s_out().len() == 0 && *final(w) == old(w).insert(p.pv(), WEnt::Made(f.s_id())) { unimplemented!() }
    /// ASSUMED: a file has the same content whenever it has the same identity.
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: Result<Metadata, std::io::Error>)
        ensures r matches Ok(m) ==> (self.plain() ==> m.ent() == Ent::File(self.s_left()) && content_of_ident(m.s_ino(), ns_time(m.s_mtime(), m.s_nsec()), self.s_left().len() as u64) == self.s_left()) { unimplemented!() }
}
impl Read for File {
    open spec fn left(&self) -> Seq<u8> { self.s_left() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, std::io::Error>) { unimplemented!() }
}
impl Write for File {
    open spec fn out(&self) -> Seq<u8> { self.s_out() }
    open spec fn wid(&self) -> int { self.s_id() }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>) { unimplemented!() }
}
/// The file is closed: what was written to it is its content.
#[verifier::external_body]
pub fn vx_close(f: File, p: &Path, Tracked(w): Tracked<&mut World>)
    requires old(w).contains_key(p@), old(w)[p@] == WEnt::Made(f.wid())
    ensures *final(w) == old(w).insert(p@, WEnt::File(f.out()))
{ unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(R)]
pub struct BufReader<R> { r: R }
impl<R: Read> BufReader<R> {
    #[verifier::external_body]
    pub fn new(r: R) -> (b: Self) ensures b.left() == r.left() { unimplemented!() }
}
impl<R: Read> Read for BufReader<R> {
    uninterp spec fn left(&self) -> Seq<u8>;
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, std::io::Error>) { unimplemented!() }
}
pub struct OpenOptions { pub write: bool, pub new: bool, pub create: bool, pub trunc: bool, pub read: bool, pub append: bool }
impl OpenOptions {
    pub fn new() -> (r: Self) ensures r == (OpenOptions { write: false, new: false, create: false, trunc: false, read: false, append: false })
    { OpenOptions { write: false, new: false, create: false, trunc: false, read: false, append: false } }
    pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
    pub fn read(self, b: bool) -> (r: Self) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
    pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { append: b, ..self } }
    pub fn create(self, b: bool) -> (r: Self) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { trunc: b, ..self }) { OpenOptions { trunc: b, ..self } }
    pub fn create_new(self, b: bool) -> (r: Self) ensures r == (OpenOptions { new: b, ..self }) { OpenOptions { new: b, ..self } }
    #[verifier::external_body]
    pub fn open<P: VxPath>(self, p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<File, std::io::Error>)
        ensures
            only_at(*old(w), *final(w), p.pv()),
            self.new && r is Err ==> *final(w) == *old(w),
            self.new ==> (r matches Ok(f) ==> !old(w).contains_key(p.pv()) && f.s_out().len() == 0 && *final(w) == old(w).insert(p.pv(), WEnt::Made(f.s_id()))),
            self.create && self.trunc ==> (r matches Ok(f) ==> f.s_out().len() == 0 && *final(w) == old(w).insert(p.pv(), WEnt::Made(f.s_id()))),
    { unimplemented!() }
}
pub mod vxfs {
    use super::*;
    pub use super::{File, OpenOptions, DirEntry};
    #[verifier::external_body]
    pub fn metadata<P: VxPath>(p: P) -> (r: Result<Metadata, std::io::Error>)
        ensures r matches Ok(m) ==> fs_at(p.pv()) == Some(m.ent()) { unimplemented!() }
    /// Every entry of the directory, once, in any order.
    #[verifier::external_body]
    pub fn read_dir<P: VxPath>(p: P) -> (r: Result<Vec<Result<DirEntry, std::io::Error>>, std::io::Error>)
        ensures r matches Ok(v) ==> all_ok(v@) ==> lists(v@, p.pv()),
            r matches Ok(v) ==> entries_of(v@, p.pv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn canonicalize<P: VxPath>(p: P) -> (r: Result<Path, std::io::Error>)
        ensures r matches Ok(q) ==> q@ == canon(p.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir_all<P: VxPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures keeps(*old(w), *final(w)), only_way(*old(w), *final(w), p.pv()),
            r is Ok ==> final(w).contains_key(p.pv()) && final(w)[p.pv()] == WEnt::Dir
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create_dir<P: VxPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures match r { Ok(_) => !old(w).contains_key(p.pv()) && *final(w) == old(w).insert(p.pv(), WEnt::Dir), Err(_) => *final(w) == *old(w) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<P: VxPath>(p: P, b: &[u8], Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures only_at(*old(w), *final(w), p.pv()), r is Ok ==> *final(w) == old(w).insert(p.pv(), WEnt::File(b@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file<P: VxPath>(p: P, Tracked(w): Tracked<&mut World>) -> (r: Result<(), std::io::Error>)
        ensures match r { Ok(_) => *final(w) == old(w).remove(p.pv()), Err(_) => *final(w) == *old(w) }
    { unimplemented!() }
}
/// The directories that contain the path, without links: where it really is.
pub uninterp spec fn canon(p: Comps) -> Comps;
pub open spec fn ent_names(v: Seq<Result<DirEntry, std::io::Error>>) -> Seq<Seq<u8>> { v.map_values(|e: Result<DirEntry, std::io::Error>| e->Ok_0.nm()) }
#[verifier::opaque]
pub open spec fn entries_of(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps) -> bool {
    forall|i: int| 0 <= i < v.len() && (#[trigger] v[i]) is Ok ==> v[i]->Ok_0.dir() == p && name_ok(v[i]->Ok_0.nm())
}
/// The entries are those of the directory at `p`.
#[verifier::opaque]
pub open spec fn lists(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps) -> bool {
    ent_names(v).no_duplicates() && fs_at(p) == Some(Ent::Dir(ent_names(v).to_set()))
}
/// A filter over directory entries.
#[verifier::external_body]
pub struct EntFilter { x: u8 }
impl EntFilter {
    /// Whether the entry at this path stays.
    pub uninterp spec fn says(&self, p: Comps) -> bool;
    #[verifier::external_body]
    pub fn vx_call(&self, d: &DirEntry) -> (r: bool) ensures r == self.says(d.pth()) { unimplemented!() }
}
