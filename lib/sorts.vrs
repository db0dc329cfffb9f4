// ---------------------------------------------------------------------------
// Assumed: sort_by_key.  Names are ordered byte by byte.
// ---------------------------------------------------------------------------
pub trait VxOrdKey { spec fn okey(&self) -> Seq<u8>; }
impl VxOrdKey for OsString { open spec fn okey(&self) -> Seq<u8> { self@ } }
#[verifier::opaque]
pub open spec fn sorted_on<T>(s: Seq<T>, p: spec_fn(T) -> Seq<u8>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !blt(p(#[trigger] s[j]), p(#[trigger] s[i])) }
pub trait VxSortKey<T> { spec fn ssq(&self) -> Seq<T>;
    fn vx_sort_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).ssq().len() ==> call_requires(f, (&#[trigger] old(self).ssq()[i],))
        ensures reordered(old(self).ssq(), final(self).ssq()),
            forall|p: spec_fn(T) -> Seq<u8>| (forall|x: T, k: K| #[trigger] call_ensures(f, (&x,), k) ==> k.okey() == p(x)) ==> #[trigger] sorted_on(final(self).ssq(), p);
}
impl<T> VxSortKey<T> for Vec<T> { open spec fn ssq(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_sort_by_key<K: VxOrdKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() } }
// ---------------------------------------------------------------------------
// The entries of a directory, sorted by name.
// ---------------------------------------------------------------------------
pub open spec fn by_name() -> spec_fn(DirEntry) -> Seq<u8> { |e: DirEntry| e.nm() }
pub open spec fn oks(v: Seq<DirEntry>) -> Seq<Result<DirEntry, std::io::Error>> { v.map_values(|e: DirEntry| Ok::<DirEntry, std::io::Error>(e)) }
pub mod ax_sorts { use super::*;
pub broadcast proof fn lemma_collected(s: Seq<Result<DirEntry, std::io::Error>>, v: Seq<DirEntry>, p: Comps)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == Ok::<DirEntry, std::io::Error>(v[i])
    ensures #![trigger entries_of(s, p), vx_collected(v)] oks(v) == s && all_ok(s)
{ assert(oks(v) =~= s); }
pub broadcast proof fn lemma_oks(v: Seq<DirEntry>)
    ensures #[trigger] all_ok(oks(v))
{ }
pub broadcast proof fn lemma_sorted_entries(a: Seq<DirEntry>, b: Seq<DirEntry>, p: Comps)
    requires #[trigger] reordered(a, b), #[trigger] entries_of(oks(a), p)
    ensures entries_of(oks(b), p), lists(oks(a), p) ==> lists(oks(b), p)
{
    reveal(reordered); reveal(entries_of); reveal(lists);
    let (x, y) = choose|x: Seq<int>, y: Seq<int>| #[trigger] reorders(a, b, x, y);
    assert forall|i: int| 0 <= i < oks(b).len() && (#[trigger] oks(b)[i]) is Ok implies oks(b)[i]->Ok_0.dir() == p && name_ok(oks(b)[i]->Ok_0.nm()) by {
        assert(oks(a)[x[i]] is Ok);
    }
    if lists(oks(a), p) {
        let m = ent_names(oks(a)); let n = ent_names(oks(b));
        assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { assert(m[x[i]] == n[i]); assert(m[x[j]] == n[j]); assert(y[x[i]] == i && y[x[j]] == j); }
        assert forall|e: Seq<u8>| m.contains(e) <==> n.contains(e) by {
            if m.contains(e) { let i = m.index_of(e); assert(n[y[i]] == e); }
            if n.contains(e) { let i = n.index_of(e); assert(m[x[i]] == e); }
        }
        assert(m.to_set() =~= n.to_set());
    }
}
pub broadcast proof fn lemma_entry_here(v: Seq<DirEntry>, p: Comps, i: int)
    requires #[trigger] entries_of(oks(v), p), 0 <= i < v.len()
    ensures (#[trigger] v[i]).dir() == p, name_ok(v[i].nm())
{ reveal(entries_of); assert(oks(v)[i] is Ok); }
pub broadcast proof fn lemma_oks_at(v: Seq<DirEntry>, i: int)
    requires 0 <= i < v.len()
    ensures #[trigger] oks(v)[i] == Ok::<DirEntry, std::io::Error>(v[i])
{ }
pub broadcast proof fn lemma_kept_sorted(v: Seq<DirEntry>, p: Comps, f: &EntFilter)
    requires #[trigger] sorted_on(v, by_name()), lists(oks(v), p)
    ensures sorted_names(#[trigger] kept_names(oks(v), p, f))
{
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies blt((#[trigger] v[i]).nm(), (#[trigger] v[j]).nm()) by {
        reveal(sorted_on); reveal(lists);
        assert(!blt(by_name()(v[j]), by_name()(v[i])));
        let m = ent_names(oks(v)); assert(m[i] == v[i].nm() && m[j] == v[j].nm());
        lemma_blt(v[i].nm(), v[j].nm(), v[i].nm());
    }
    lemma_kept_increasing(v, p, f);
}
}
pub proof fn lemma_kept_increasing(v: Seq<DirEntry>, p: Comps, f: &EntFilter)
    requires forall|i: int, j: int| 0 <= i < j < v.len() ==> blt((#[trigger] v[i]).nm(), (#[trigger] v[j]).nm())
    ensures sorted_names(kept_names(oks(v), p, f))
    decreases v.len()
{
    reveal(sorted_names);
    if v.len() > 0 {
        let w = v.drop_last();
        assert(oks(v).drop_last() =~= oks(w));
        assert(oks(v).last() == Ok::<DirEntry, std::io::Error>(v.last()));
        assert forall|i: int, j: int| 0 <= i < j < w.len() implies blt((#[trigger] w[i]).nm(), (#[trigger] w[j]).nm()) by { assert(w[i] == v[i] && w[j] == v[j]); }
        lemma_kept_increasing(w, p, f);
        let a = kept_names(oks(w), p, f);
        let m = v.last().nm();
        if f.says(p.push(m)) {
            assert forall|i: int, j: int| 0 <= i < j < a.push(m).len() implies blt(#[trigger] a.push(m)[i], #[trigger] a.push(m)[j]) by {
                if j == a.len() {
                    assert(a.contains(a[i]));
                    lemma_kept_in(oks(w), p, f, a[i]);
                    let k = choose|k: int| 0 <= k < oks(w).len() && (#[trigger] oks(w)[k]) is Ok && oks(w)[k]->Ok_0.nm() == a[i];
                    assert(v[k].nm() == a[i]); assert(blt(v[k].nm(), v[v.len() - 1].nm()));
                }
            }
        }
    }
}
