// ---------------------------------------------------------------------------
// Comparisons: what is on either side, and what a report says about it.
// ---------------------------------------------------------------------------
pub mod either {
    use super::*;
    pub enum Either<L, R> { Left(L), Right(R) }
    pub use Either::*;
}
/// What an entry of a listing says about its kind.
pub trait HasKind { spec fn kind(&self) -> bool; }
impl HasKind for bool { open spec fn kind(&self) -> bool { *self } }
impl HasKind for (TypedKey<FSItem>, bool) { open spec fn kind(&self) -> bool { self.1 } }
pub type PK = (Comps, bool);
pub open spec fn iset(s: Set<PK>) -> ISet<PK> { ISet::new(|e: PK| s.contains(e)) }
/// The paths of a listing, with their kinds.
pub open spec fn paths_in<V: HasKind>(m: Map<Comps, V>) -> ISet<PK> { ISet::new(|e: PK| m.contains_key(e.0) && m[e.0].kind() == e.1) }
#[verifier::opaque]
pub open spec fn pairs<V: HasKind>(s: Seq<(&PathBuf, &V)>) -> ISet<PK> { ISet::new(|e: PK| exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == e.0 && s[i].1.kind() == e.1) }
/// Iteration over a map: every entry once.
#[verifier::opaque]
pub open spec fn items_of<V>(s: Seq<(&PathBuf, &V)>, m: Map<Comps, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0@) && m[s[i].0@] == *s[i].1
    &&& forall|q: Comps| #[trigger] m.contains_key(q) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == q
}
pub mod ax_pairs { use super::*;
pub broadcast proof fn lemma_pairs_none<V: HasKind>(s: Seq<(&PathBuf, &V)>)
    ensures #[trigger] pairs(s.take(0)) == ISet::<PK>::empty()
{ reveal(pairs); assert(pairs(s.take(0)) =~= ISet::<PK>::empty()); }
pub broadcast proof fn lemma_pairs_step<V: HasKind>(h: Set<PK>, s: Seq<(&PathBuf, &V)>, i: int, j: int, e: PK)
    requires 0 <= i < s.len(), j == i + 1, e == (s[i].0@, s[i].1.kind()), iset(h) == pairs(s.take(i))
    ensures #![trigger iset(h.insert(e)), pairs(s.take(i)), s.take(j)] iset(h.insert(e)) == pairs(s.take(j))
{
    reveal(pairs);
    let a = iset(h.insert(e)); let b = pairs(s.take(j));
    assert forall|x: PK| a.contains(x) implies b.contains(x) by {
        if x == e { assert(s.take(j)[i] == s[i]); }
        else {
            assert(iset(h).contains(x)); assert(pairs(s.take(i)).contains(x));
            let k = choose|k: int| 0 <= k < s.take(i).len() && (#[trigger] s.take(i)[k]).0@ == x.0 && s.take(i)[k].1.kind() == x.1;
            assert(s.take(j)[k] == s.take(i)[k]);
        }
    }
    assert forall|x: PK| b.contains(x) implies a.contains(x) by {
        let k = choose|k: int| 0 <= k < s.take(j).len() && (#[trigger] s.take(j)[k]).0@ == x.0 && s.take(j)[k].1.kind() == x.1;
        if k < i { assert(s.take(i)[k] == s.take(j)[k]); assert(pairs(s.take(i)).contains(x)); assert(iset(h).contains(x)); } else { assert(x == e); }
    }
    assert(a =~= b);
}
pub broadcast proof fn lemma_iset_none()
    ensures #[trigger] iset(Set::empty()) == ISet::<PK>::empty()
{ assert(iset(Set::empty()) =~= ISet::<PK>::empty()); }
pub broadcast proof fn lemma_pairs_all<V: HasKind>(s: Seq<(&PathBuf, &V)>, m: Map<Comps, V>)
    requires #[trigger] items_of(s, m)
    ensures pairs(s) == paths_in(m)
{
    reveal(pairs); reveal(items_of);
    let a = pairs(s); let b = paths_in(m);
    assert forall|x: PK| a.contains(x) <==> b.contains(x) by {
        if b.contains(x) { assert(m.contains_key(x.0)); }
    }
    assert(a =~= b);
}
}
/// What a for loop goes over.
pub trait VxItems<T>: Sized { #[verifier::prophetic] spec fn goes(self, s: Seq<T>) -> bool; fn vx_items(self) -> (r: Vec<T>) ensures self.goes(r@); }
pub fn vx_goes<T, S: VxItems<T>>(s: S) -> (r: Vec<T>) ensures s.goes(r@) { s.vx_items() }
impl<'a, V> VxItems<(&'a PathBuf, &'a V)> for &'a HashMap<PathBuf, V> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<(&'a PathBuf, &'a V)>) -> bool { items_of(s, self@) }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<(&'a PathBuf, &'a V)>) { unimplemented!() }
}
impl<'a, T> VxItems<&'a T> for &'a Vec<T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<T> VxItems<T> for Vec<T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<T>) -> bool { s == self@ }
    fn vx_items(self) -> (r: Vec<T>) { self }
}
impl<V> HashMap<PathBuf, V> {
    /// Index: the program stops when the key is not there.
    #[verifier::external_body]
    pub fn vx_index(&self, k: &PathBuf) -> (r: &V) requires self@.contains_key(k@) ensures *r == self@[k@] { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &PathBuf) -> (r: Option<&V>) ensures match r { Some(x) => self@.contains_key(k@) && *x == self@[k@], None => !self@.contains_key(k@) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &PathBuf) -> (r: bool) ensures r == self@.contains_key(k@) { unimplemented!() }
}
pub open spec fn pk(x: &(PathBuf, bool)) -> PK { (x.0@, x.1) }
/// Every member of the set, once, in any order.
#[verifier::opaque]
pub open spec fn has_src(s: Seq<&(PathBuf, bool)>, e: PK) -> bool { exists|i: int| 0 <= i < s.len() && pk(#[trigger] s[i]) == e }
#[verifier::opaque]
pub open spec fn members(s: Seq<&(PathBuf, bool)>, m: ISet<PK>) -> bool {
    &&& forall|e: PK| #![trigger m.contains(e)] #![trigger has_src(s, e)] m.contains(e) == has_src(s, e)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> pk(s[i]) != pk(s[j])
}
impl HashSet<(PathBuf, bool)> {
    #[verifier::external_body]
    pub fn vx_difference<'a>(&'a self, o: &'a HashSet<(PathBuf, bool)>) -> (r: Vec<&'a (PathBuf, bool)>) ensures members(r@, iset(self@).difference(iset(o@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_intersection<'a>(&'a self, o: &'a HashSet<(PathBuf, bool)>) -> (r: Vec<&'a (PathBuf, bool)>) ensures members(r@, iset(self@).intersect(iset(o@))) { unimplemented!() }
}
impl<T> VxAdapt<T> for Vec<T> {
    #[verifier::prophetic] open spec fn items(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_map<B, F: Fn(T) -> B>(self, f: F) -> (r: VxIt<B>) { VxIt { v: self.into_iter().map(f).collect() } }
}
pub trait VxSorts<T> { spec fn sq(&self) -> Seq<T>;
    /// sort_unstable.
    fn vx_sort_unstable(&mut self) ensures reordered(old(self).sq(), final(self).sq()); }
impl<T> VxSorts<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_unstable(&mut self) { unimplemented!() } }
impl<'a> VxInto<Option<&'a SqliteCache>> for Option<&'a SqliteCache> {
    open spec fn conv(self, r: Option<&'a SqliteCache>) -> bool { r == self }
    fn vx_into(self) -> (r: Option<&'a SqliteCache>) { self }
}
// --- the two sides -------------------------------------------------------------
pub uninterp spec fn no_filter() -> EntFilter;
/// The report is right, for the filter of the newer side when it is a directory.
pub open spec fn right_report(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, d: DiffResult) -> bool {
    match from {
        DiffTarget::FileSystem(p, ex, db) => exists|f: EntFilter| #[trigger] filters(&f, texts(ex@), db@) && compared(v, from, &f, to, d),
        DiffTarget::Database(_) => compared(v, from, &no_filter(), to, d),
    }
}
pub open spec fn new_paths(v: StoreV, from: DiffTarget, f: &EntFilter) -> ISet<PK> {
    match from {
        DiffTarget::FileSystem(p, ex, db) => ISet::new(|e: PK| rentry(f, p@, Seq::empty(), e.0) == Some(e.1)),
        DiffTarget::Database(k) => ISet::new(|e: PK| wentry(v, k.inner, Seq::empty(), e.0) is Some && wentry(v, k.inner, Seq::empty(), e.0)->Some_0.1 == e.1),
    }
}
pub open spec fn old_paths(v: StoreV, to: Option<TypedKey<FSItem>>) -> ISet<PK> {
    match to {
        Some(k) => ISet::new(|e: PK| wentry(v, k.inner, Seq::empty(), e.0) is Some && wentry(v, k.inner, Seq::empty(), e.0)->Some_0.1 == e.1),
        None => ISet::empty(),
    }
}
/// The key of what is at `q` on the newer side: of a real file, that of its content.
pub open spec fn new_key(v: StoreV, from: DiffTarget, q: Comps) -> Key {
    match from {
        DiffTarget::FileSystem(p, ex, db) => filekey(fs_at(p@ + q)->Some_0->File_0),
        DiffTarget::Database(k) => wentry(v, k.inner, Seq::empty(), q)->Some_0.0,
    }
}
pub open spec fn old_key(v: StoreV, to: Option<TypedKey<FSItem>>, q: Comps) -> Key { wentry(v, to->Some_0.inner, Seq::empty(), q)->Some_0.0 }
// --- reports -------------------------------------------------------------------
pub trait Listed { spec fn le(&self) -> PK; }
impl Listed for AddedDiffResult { open spec fn le(&self) -> PK { (self.path@, self.is_dir) } }
impl Listed for DeletedDiffResult { open spec fn le(&self) -> PK { (self.path@, self.is_dir) } }
impl Listed for ModifiedDiffResult { open spec fn le(&self) -> PK { (self.path@, false) } }
/// The list has one line for each member of the set, and no other.
#[verifier::opaque]
pub open spec fn has_line<T: Listed>(s: Seq<T>, e: PK) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).le() == e }
#[verifier::opaque]
pub open spec fn says_exactly<T: Listed>(s: Seq<T>, m: ISet<PK>) -> bool {
    &&& forall|e: PK| #![trigger m.contains(e)] #![trigger has_line(s, e)] m.contains(e) == has_line(s, e)
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> s[i].le() != s[j].le()
}
pub open spec fn added_ok(v: StoreV, from: DiffTarget, x: AddedDiffResult) -> bool {
    match x.new_key { Some(k) => k.inner == new_key(v, from, x.path@), None => x.is_dir && from is FileSystem }
}
pub open spec fn deleted_ok(v: StoreV, to: Option<TypedKey<FSItem>>, x: DeletedDiffResult) -> bool {
    x.original_key matches Some(k) && k.inner == old_key(v, to, x.path@)
}
pub open spec fn modified_ok(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, x: ModifiedDiffResult) -> bool {
    x.new_key.inner == new_key(v, from, x.path@) && x.original_key.inner == old_key(v, to, x.path@)
}
#[verifier::opaque]
pub open spec fn all_added_ok(v: StoreV, from: DiffTarget, s: Seq<AddedDiffResult>) -> bool { forall|i: int| 0 <= i < s.len() ==> added_ok(v, from, #[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn all_deleted_ok(v: StoreV, to: Option<TypedKey<FSItem>>, s: Seq<DeletedDiffResult>) -> bool { forall|i: int| 0 <= i < s.len() ==> deleted_ok(v, to, #[trigger] s[i]) }
#[verifier::opaque]
pub open spec fn all_modified_ok(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, s: Seq<ModifiedDiffResult>) -> bool { forall|i: int| 0 <= i < s.len() ==> modified_ok(v, from, to, #[trigger] s[i]) }
pub open spec fn changed(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, both: ISet<PK>) -> ISet<PK> {
    both.filter(|e: PK| !e.1 && new_key(v, from, e.0) != old_key(v, to, e.0))
}
/// The report says what is different: each path with its kind.
pub open spec fn compared(v: StoreV, from: DiffTarget, f: &EntFilter, to: Option<TypedKey<FSItem>>, r: DiffResult) -> bool {
    &&& says_exactly(r.added@, new_paths(v, from, f).difference(old_paths(v, to)))
    &&& says_exactly(r.deleted@, old_paths(v, to).difference(new_paths(v, from, f)))
    &&& says_exactly(r.modified@, changed(v, from, to, new_paths(v, from, f).intersect(old_paths(v, to))))
    &&& all_added_ok(v, from, r.added@) && all_deleted_ok(v, to, r.deleted@) && all_modified_ok(v, from, to, r.modified@)
}
/// Line by line, the list is about these entries.
#[verifier::opaque]
pub open spec fn follows<T: Listed>(o: Seq<T>, s: Seq<&(PathBuf, bool)>) -> bool {
    o.len() == s.len() && forall|i: int| #![trigger o[i]] #![trigger s[i]] 0 <= i < o.len() ==> o[i].le() == pk(s[i])
}
/// The list is about those of the entries that changed.
#[verifier::opaque]
pub open spec fn picks<T: Listed>(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, o: Seq<T>, s: Seq<&(PathBuf, bool)>) -> bool {
    &&& forall|e: PK| #![trigger has_line(o, e)] #![trigger has_src(s, e)] has_line(o, e) == (has_src(s, e) && differs(v, from, to, e))
    &&& forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < j < o.len() ==> o[i].le() != o[j].le()
}
pub proof fn lemma_line_push<T: Listed>(o: Seq<T>, x: T, e: PK)
    ensures has_line(o.push(x), e) == (has_line(o, e) || x.le() == e)
{
    reveal(has_line);
    let p = o.push(x);
    if has_line(o, e) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).le() == e; assert(p[i] == o[i]); }
    if x.le() == e { assert(p[o.len() as int] == x); }
    if has_line(p, e) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).le() == e; if i < o.len() { assert(o[i] == p[i]); } }
}
pub proof fn lemma_src_step(s: Seq<&(PathBuf, bool)>, i: int, e: PK)
    requires 0 <= i < s.len()
    ensures has_src(s.take(i + 1), e) == (has_src(s.take(i), e) || pk(s[i]) == e)
{
    reveal(has_src);
    let a = s.take(i); let b = s.take(i + 1);
    if has_src(a, e) { let k = choose|k: int| 0 <= k < a.len() && pk(#[trigger] a[k]) == e; assert(b[k] == a[k]); }
    if pk(s[i]) == e { assert(b[i] == s[i]); }
    if has_src(b, e) { let k = choose|k: int| 0 <= k < b.len() && pk(#[trigger] b[k]) == e; if k < i { assert(a[k] == b[k]); } }
}
pub open spec fn differs(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, e: PK) -> bool { !e.1 && new_key(v, from, e.0) != old_key(v, to, e.0) }
pub mod ax_cmp { use super::*;
pub broadcast proof fn lemma_follows_none<T: Listed>(o: Seq<T>, s: Seq<&(PathBuf, bool)>)
    requires o.len() == 0
    ensures #[trigger] follows(o, s.take(0))
{ reveal(follows); }
pub broadcast proof fn lemma_follows_push<T: Listed>(o: Seq<T>, x: T, s: Seq<&(PathBuf, bool)>, i: int, j: int)
    requires 0 <= i < s.len(), j == i + 1, #[trigger] follows(o, s.take(i)), x.le() == pk(s[i])
    ensures #[trigger] follows(o.push(x), s.take(j))
{
    reveal(follows);
    let b = o.push(x); let t = s.take(j);
    assert forall|k: int| 0 <= k < b.len() implies #[trigger] b[k].le() == pk(t[k]) by { if k < i { assert(b[k] == o[k]); assert(t[k] == s.take(i)[k]); } }
}
pub broadcast proof fn lemma_follows_map<T: Listed>(o: Seq<T>, s: Seq<&(PathBuf, bool)>, m: ISet<PK>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).le() == pk(s[i])
    ensures #![trigger vx_collected(o), members(s, m)] follows(o, s)
{ reveal(follows); }
pub broadcast proof fn lemma_follows_all<T: Listed>(o: Seq<T>, s: Seq<&(PathBuf, bool)>, m: ISet<PK>)
    requires #[trigger] follows(o, s), #[trigger] members(s, m)
    ensures says_exactly(o, m)
{
    reveal(follows); reveal(members); reveal(says_exactly);
    assert forall|e: PK| m.contains(e) == has_line(o, e) by {
        assert(m.contains(e) == has_src(s, e));
        reveal(has_src); reveal(has_line);
        if has_src(s, e) { let i = choose|i: int| 0 <= i < s.len() && pk(#[trigger] s[i]) == e; assert(o[i].le() == e); }
        if has_line(o, e) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).le() == e; assert(pk(s[i]) == e); }
    }
    assert forall|i: int, j: int| #![trigger o[i], o[j]] 0 <= i < j < o.len() implies o[i].le() != o[j].le() by { assert(pk(s[i]) != pk(s[j])); }
}
pub broadcast proof fn lemma_members_at(s: Seq<&(PathBuf, bool)>, m: ISet<PK>, i: int)
    requires members(s, m), 0 <= i < s.len()
    ensures #![trigger members(s, m), s[i]] m.contains(pk(s[i]))
{ reveal(members); assert(has_src(s, pk(s[i]))) by { reveal(has_src); } }
pub broadcast proof fn lemma_picks_none<T: Listed>(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, o: Seq<T>, s: Seq<&(PathBuf, bool)>)
    requires o.len() == 0
    ensures #[trigger] picks(v, from, to, o, s.take(0))
{ reveal(picks); reveal(has_line); reveal(has_src); }
pub broadcast proof fn lemma_picks_skip<T: Listed>(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, o: Seq<T>, s: Seq<&(PathBuf, bool)>, i: int, j: int)
    requires 0 <= i < s.len(), j == i + 1, #[trigger] picks(v, from, to, o, s.take(i)), !differs(v, from, to, pk(s[i]))
    ensures #[trigger] picks(v, from, to, o, s.take(j))
{
    reveal(picks);
    assert forall|e: PK| has_line(o, e) == (has_src(s.take(j), e) && differs(v, from, to, e)) by { lemma_src_step(s, i, e); assert(has_line(o, e) == (has_src(s.take(i), e) && differs(v, from, to, e))); }
}
pub broadcast proof fn lemma_picks_push<T: Listed>(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, o: Seq<T>, x: T, s: Seq<&(PathBuf, bool)>, m: ISet<PK>, i: int, j: int)
    requires #[trigger] members(s, m), 0 <= i < s.len(), j == i + 1, #[trigger] picks(v, from, to, o, s.take(i)), differs(v, from, to, pk(s[i])), x.le() == pk(s[i])
    ensures #[trigger] picks(v, from, to, o.push(x), s.take(j))
{
    reveal(picks);
    let p = o.push(x);
    assert forall|e: PK| has_line(p, e) == (has_src(s.take(j), e) && differs(v, from, to, e)) by { lemma_src_step(s, i, e); lemma_line_push(o, x, e); assert(has_line(o, e) == (has_src(s.take(i), e) && differs(v, from, to, e))); }
    assert forall|k: int, l: int| #![trigger p[k], p[l]] 0 <= k < l < p.len() implies p[k].le() != p[l].le() by {
        assert(p[k] == o[k]);
        if l < o.len() { assert(p[l] == o[l]); } else {
            let e = o[k].le();
            assert(has_line(o, e)) by { reveal(has_line); }
            assert(has_src(s.take(i), e));
            if e == pk(s[i]) {
                reveal(has_src); reveal(members);
                let a = s.take(i);
                let t = choose|t: int| 0 <= t < a.len() && pk(#[trigger] a[t]) == e;
                assert(a[t] == s[t]);
                assert(pk(s[t]) != pk(s[i]));
            }
        }
    }
}
pub broadcast proof fn lemma_picks_all<T: Listed>(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, o: Seq<T>, s: Seq<&(PathBuf, bool)>, m: ISet<PK>)
    requires #[trigger] picks(v, from, to, o, s), #[trigger] members(s, m)
    ensures says_exactly(o, changed(v, from, to, m))
{
    reveal(picks); reveal(members); reveal(says_exactly);
    let c = changed(v, from, to, m);
    assert forall|e: PK| c.contains(e) == has_line(o, e) by { assert(m.contains(e) == has_src(s, e)); }
}
pub broadcast proof fn lemma_reordered_says<T: Listed>(a: Seq<T>, b: Seq<T>, m: ISet<PK>)
    requires #[trigger] says_exactly(a, m), #[trigger] reordered(a, b)
    ensures says_exactly(b, m)
{
    reveal(says_exactly); reveal(reordered);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] reorders(a, b, p, q);
    assert forall|e: PK| m.contains(e) == has_line(b, e) by {
        assert(m.contains(e) == has_line(a, e)); reveal(has_line);
        if has_line(a, e) { let k = choose|k: int| 0 <= k < a.len() && (#[trigger] a[k]).le() == e; assert(p[q[k]] == k); assert(b[q[k]] == a[k]); }
        if has_line(b, e) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).le() == e; assert(b[k] == a[p[k]]); }
    }
    assert forall|i: int, j: int| #![trigger b[i], b[j]] 0 <= i < j < b.len() implies b[i].le() != b[j].le() by {
        assert(q[p[i]] == i && q[p[j]] == j);
        if p[i] < p[j] { assert(a[p[i]].le() != a[p[j]].le()); } else { assert(p[j] < p[i]); assert(a[p[j]].le() != a[p[i]].le()); }
    }
}
pub broadcast proof fn lemma_reordered_added(v: StoreV, from: DiffTarget, a: Seq<AddedDiffResult>, b: Seq<AddedDiffResult>)
    requires #[trigger] all_added_ok(v, from, a), #[trigger] reordered(a, b)
    ensures all_added_ok(v, from, b)
{
    reveal(all_added_ok); reveal(reordered);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] reorders(a, b, p, q);
    assert forall|i: int| 0 <= i < b.len() implies added_ok(v, from, #[trigger] b[i]) by { assert(b[i] == a[p[i]]); }
}
pub broadcast proof fn lemma_reordered_deleted(v: StoreV, to: Option<TypedKey<FSItem>>, a: Seq<DeletedDiffResult>, b: Seq<DeletedDiffResult>)
    requires #[trigger] all_deleted_ok(v, to, a), #[trigger] reordered(a, b)
    ensures all_deleted_ok(v, to, b)
{
    reveal(all_deleted_ok); reveal(reordered);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] reorders(a, b, p, q);
    assert forall|i: int| 0 <= i < b.len() implies deleted_ok(v, to, #[trigger] b[i]) by { assert(b[i] == a[p[i]]); }
}
pub broadcast proof fn lemma_reordered_modified(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, a: Seq<ModifiedDiffResult>, b: Seq<ModifiedDiffResult>)
    requires #[trigger] all_modified_ok(v, from, to, a), #[trigger] reordered(a, b)
    ensures all_modified_ok(v, from, to, b)
{
    reveal(all_modified_ok); reveal(reordered);
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] reorders(a, b, p, q);
    assert forall|i: int| 0 <= i < b.len() implies modified_ok(v, from, to, #[trigger] b[i]) by { assert(b[i] == a[p[i]]); }
}
pub broadcast proof fn lemma_added_none(v: StoreV, from: DiffTarget, s: Seq<AddedDiffResult>)
    requires s.len() == 0
    ensures #[trigger] all_added_ok(v, from, s)
{ reveal(all_added_ok); }
pub broadcast proof fn lemma_added_push(v: StoreV, from: DiffTarget, s: Seq<AddedDiffResult>, x: AddedDiffResult)
    requires all_added_ok(v, from, s), added_ok(v, from, x)
    ensures #[trigger] all_added_ok(v, from, s.push(x))
{ reveal(all_added_ok); assert forall|i: int| 0 <= i < s.push(x).len() implies added_ok(v, from, #[trigger] s.push(x)[i]) by { if i < s.len() { assert(s.push(x)[i] == s[i]); } } }
pub broadcast proof fn lemma_modified_none(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, s: Seq<ModifiedDiffResult>)
    requires s.len() == 0
    ensures #[trigger] all_modified_ok(v, from, to, s)
{ reveal(all_modified_ok); }
pub broadcast proof fn lemma_modified_push(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, s: Seq<ModifiedDiffResult>, x: ModifiedDiffResult)
    requires all_modified_ok(v, from, to, s), modified_ok(v, from, to, x)
    ensures #[trigger] all_modified_ok(v, from, to, s.push(x))
{ reveal(all_modified_ok); assert forall|i: int| 0 <= i < s.push(x).len() implies modified_ok(v, from, to, #[trigger] s.push(x)[i]) by { if i < s.len() { assert(s.push(x)[i] == s[i]); } } }
pub broadcast proof fn lemma_deleted_map(v: StoreV, to: Option<TypedKey<FSItem>>, s: Seq<DeletedDiffResult>)
    requires forall|i: int| 0 <= i < s.len() ==> deleted_ok(v, to, #[trigger] s[i])
    ensures #![trigger vx_collected(s), old_paths(v, to)] all_deleted_ok(v, to, s)
{ reveal(all_deleted_ok); }
/// The listings are of these sides.
pub broadcast proof fn lemma_new_real(v: StoreV, from: DiffTarget, f: &EntFilter, m: Map<Comps, bool>, p: Comps)
    requires from matches DiffTarget::FileSystem(x, ex, db) && x@ == p, rwalked(f, p, Seq::empty(), m)
    ensures #![trigger rwalked(f, p, Seq::empty(), m), new_paths(v, from, f)] paths_in(m) == new_paths(v, from, f)
{
    reveal(rwalked);
    assert forall|e: PK| paths_in(m).contains(e) <==> new_paths(v, from, f).contains(e) by { assert(has_kind(m, e.0, rentry(f, p, Seq::empty(), e.0))); }
    assert(paths_in(m) =~= new_paths(v, from, f));
}
pub broadcast proof fn lemma_new_stored(v: StoreV, from: DiffTarget, f: &EntFilter, m: Map<Comps, (TypedKey<FSItem>, bool)>, k: Key)
    requires from matches DiffTarget::Database(t) && t.inner == k
    ensures #![trigger walked(v, k, Seq::empty(), m), new_paths(v, from, f)] walked(v, k, Seq::empty(), m) ==> paths_in(m) == new_paths(v, from, f)
{
    reveal(walked);
    if walked(v, k, Seq::empty(), m) {
        assert forall|e: PK| paths_in(m).contains(e) <==> new_paths(v, from, f).contains(e) by { assert(has_entry(m, e.0, wentry(v, k, Seq::empty(), e.0))); }
        assert(paths_in(m) =~= new_paths(v, from, f));
    }
}
pub broadcast proof fn lemma_old_stored(v: StoreV, to: Option<TypedKey<FSItem>>, m: Map<Comps, (TypedKey<FSItem>, bool)>, k: Key)
    requires to matches Some(t) && t.inner == k
    ensures #![trigger walked(v, k, Seq::empty(), m), old_paths(v, to)] walked(v, k, Seq::empty(), m) ==> paths_in(m) == old_paths(v, to)
{
    reveal(walked);
    if walked(v, k, Seq::empty(), m) {
        assert forall|e: PK| paths_in(m).contains(e) <==> old_paths(v, to).contains(e) by { assert(has_entry(m, e.0, wentry(v, k, Seq::empty(), e.0))); }
        assert(paths_in(m) =~= old_paths(v, to));
    }
}
pub broadcast proof fn lemma_no_paths<V: HasKind>(m: Map<Comps, V>)
    requires m == Map::<Comps, V>::empty()
    ensures #[trigger] paths_in(m) == ISet::<PK>::empty()
{ assert(paths_in(m) =~= ISet::<PK>::empty()); }
/// A stored entry's key.
pub broadcast proof fn lemma_walked_key(v: StoreV, k: Key, m: Map<Comps, (TypedKey<FSItem>, bool)>, q: Comps)
    requires walked(v, k, Seq::empty(), m), m.contains_key(q)
    ensures #![trigger walked(v, k, Seq::empty(), m), m[q]] wentry(v, k, Seq::empty(), q) is Some && m[q].0.inner == wentry(v, k, Seq::empty(), q)->Some_0.0
{ reveal(walked); assert(has_entry(m, q, wentry(v, k, Seq::empty(), q))); }
/// A real entry's path has only names in it.
pub broadcast proof fn lemma_real_names(f: &EntFilter, p: Comps, m: Map<Comps, bool>, q: Comps)
    requires rwalked(f, p, Seq::empty(), m), m.contains_key(q)
    ensures #![trigger rwalked(f, p, Seq::empty(), m), pjoin(p, q)] names_ok(q)
{
    reveal(rwalked); assert(has_kind(m, q, rentry(f, p, Seq::empty(), q)));
    assert(p + Seq::<Seq<u8>>::empty() =~= p); assert(q.skip(0) =~= q);
    lemma_real_at_names(f, p, q);
}
}
pub proof fn lemma_real_at_names(f: &EntFilter, p: Comps, q: Comps)
    requires real_at(f, p, q) is Some
    ensures names_ok(q)
    decreases q.len()
{
    broadcast use ax_fs::axiom_names;
    if q.len() > 0 {
        lemma_real_at_names(f, p.push(q[0]), q.skip(1));
        assert forall|i: int| 0 <= i < q.len() implies name_ok(#[trigger] q[i]) by { if i > 0 { assert(q[i] == q.skip(1)[i - 1]); } }
    }
}
/// Equal keys, equal contents: what a comparison of two stored files says of them.
pub proof fn lemma_same_key(v: StoreV, k: Key, x: Seq<u8>, y: Seq<u8>)
    requires file_is(v, k, x), file_is(v, k, y)
    ensures x == y
{ lemma_means_unique(v, item_at(v, k)->Some_0.kids[0], x, y); }
/// A term to name a set by.
pub open spec fn vx_named<A>(s: A) -> bool { true }
