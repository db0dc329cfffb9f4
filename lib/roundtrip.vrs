// ---------------------------------------------------------------------------
// C10: fetching a snapshot gives the same tree.
// ---------------------------------------------------------------------------
/// What the world has at `q` is what the directory had.
pub open spec fn same_at(f: &EntFilter, src: Comps, q: Comps, w0: World, w1: World, at: Comps) -> bool {
    match real_at(f, src, q) {
        Some(true) => w1.contains_key(at) && w1[at] == WEnt::Dir,
        Some(false) => fs_at(src + q) is Some && fs_at(src + q)->Some_0 is File && w1.contains_key(at) && w1[at] == WEnt::File(fs_at(src + q)->Some_0->File_0),
        None => w1.contains_key(at) == w0.contains_key(at),
    }
}
/// The tree of a snapshot is the tree of the directory.
pub proof fn lemma_same_nodes(v: StoreV, k: Key, p: Comps, f: &EntFilter, d: nat, q: Comps)
    requires shotd(v, k, p, f, d)
    ensures
        match (real_at(f, p, q), node(v, k, q)) {
            (Some(x), Some(y)) => x == y.1 && (!x ==> fs_at(p + q) is Some && fs_at(p + q)->Some_0 is File && file_is(v, y.0, fs_at(p + q)->Some_0->File_0)),
            (None, None) => true,
            _ => false,
        }
    decreases q.len()
{
    if q.len() == 0 { assert(p + q =~= p); }
    else if fs_at(p)->Some_0 is Dir {
        let it = item_at(v, k)->Some_0;
        let ns = fs_at(p)->Some_0->Dir_0;
        let n = q[0];
        assert(it.head.names.contains(n) <==> ns.contains(n) && f.says(p.push(n)));
        if it.head.names.contains(n) {
            let i = it.head.names.index_of(n);
            assert(it.head.names[i] == n);
            assert(shotd(v, it.kids[i], p.push(n), f, (d - 1) as nat));
            lemma_same_nodes(v, it.kids[i], p.push(n), f, (d - 1) as nat, q.skip(1));
            assert(p.push(n) + q.skip(1) =~= p + q);
        }
    }
}
/// C10: snapshot `k` was made of `src` (contract of put_fs_item), the store only grew since, and was fetched to `dst`
/// (contract of get_fs_item).  Then every path below `dst` has exactly what the same path below `src` had.
pub proof fn lemma_roundtrip(v: StoreV, v2: StoreV, k: Key, src: Comps, f: &EntFilter, dst: Comps, w0: World, w1: World)
    requires shot(v, k, src, f), grows(v, v2), placed(v2, k, dst, w0, w1)
    ensures forall|q: Comps| #![trigger real_at(f, src, q)] same_at(f, src, q, w0, w1, dst + q)
{
    reveal(placed);
    let d = choose|d: nat| #[trigger] shotd(v, k, src, f, d);
    lemma_shot_mono(v, v2, k, src, f, d, d);
    assert forall|q: Comps| #![trigger real_at(f, src, q)] same_at(f, src, q, w0, w1, dst + q) by {
        lemma_same_nodes(v2, k, src, f, d, q);
        assert(put_at(v2, node(v2, k, q), w0, w1, dst + q));
        if real_at(f, src, q) == Some(false) { 
            let kk = node(v2, k, q)->Some_0.0;
            lemma_means_unique(v2, item_at(v2, kk)->Some_0.kids[0], w1[dst + q]->File_0, fs_at(src + q)->Some_0->File_0);
        }
    }
}
