// ---------------------------------------------------------------------------
// What lies below a stored directory, and where fetching puts it.
// ---------------------------------------------------------------------------
/// The content of the file that `k` names.
pub open spec fn content_is(v: StoreV, k: Key, b: Seq<u8>) -> bool { file_is(v, k, b) }
/// What `n` asks for is at the place `q`, where nothing was before when it is a file; and what `n` does not ask for is not added.
pub open spec fn put_at(v: StoreV, n: Option<(Key, bool)>, w0: World, w1: World, q: Comps) -> bool {
    match n {
        Some((k, true)) => w1.contains_key(q) && w1[q] == WEnt::Dir,
        Some((k, false)) => !w0.contains_key(q) && w1.contains_key(q) && w1[q] is File && content_is(v, k, w1[q]->File_0),
        None => w1.contains_key(q) == w0.contains_key(q),
    }
}
/// What `k` names is at `p`, and nothing else came to be there.
#[verifier::opaque]
pub open spec fn placed(v: StoreV, k: Key, p: Comps, w0: World, w1: World) -> bool {
    forall|q: Comps| #![trigger put_at(v, node(v, k, q), w0, w1, p + q)] put_at(v, node(v, k, q), w0, w1, p + q)
}
/// What the first `i` children ask for is at their places.
#[verifier::opaque]
pub open spec fn placed_upto(v: StoreV, it: ItemV, p: Comps, w0: World, w1: World, i: int) -> bool {
    forall|q: Comps| #![trigger w1.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 ==> put_at(v, node_upto(v, it, i, q), w0, w1, p + q)
}
/// Only what is on the way to `p` or below it is new.
#[verifier::opaque]
pub open spec fn only_near(w0: World, w1: World, p: Comps) -> bool {
    forall|q: Comps| #![trigger w1.contains_key(q)] w1.contains_key(q) && !w0.contains_key(q) ==> is_prefix(p, q) || (is_prefix(q, p) && w1[q] == WEnt::Dir)
}
pub mod ax_place { use super::*;
pub broadcast proof fn lemma_keeps_refl(a: World) ensures #[trigger] keeps(a, a) {}
pub broadcast proof fn lemma_upto_none(v: StoreV, it: ItemV, p: Comps, w0: World, w1: World)
    requires only_way(w0, w1, p), keeps(w0, w1)
    ensures #[trigger] placed_upto(v, it, p, w0, w1, 0)
{
    reveal(placed_upto);
    assert forall|q: Comps| q.len() > 0 implies w1.contains_key(p + q) == w0.contains_key(p + q) by {
        if w1.contains_key(p + q) && !w0.contains_key(p + q) { assert(is_prefix(p + q, p)); }
    }
    assert forall|q: Comps| #![trigger w1.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 implies put_at(v, node_upto(v, it, 0, q), w0, w1, p + q) by {
        if it.head.names.contains(q[0]) { assert(it.head.names.index_of(q[0]) >= 0); }
    }
}
pub broadcast proof fn lemma_near_way(w0: World, w1: World, p: Comps)
    requires #[trigger] only_way(w0, w1, p)
    ensures only_near(w0, w1, p)
{ reveal(only_near); }
/// Fetching one more child.
pub broadcast proof fn lemma_upto_step(v: StoreV, it: ItemV, p: Comps, w0: World, w1: World, w2: World, i: int, j: int)
    requires
        item_ok(it), it.head.is_dir, 0 <= i < it.kids.len(), j == i + 1,
        #[trigger] placed_upto(v, it, p, w0, w1, i), keeps(w0, w1), keeps(w1, w2), w1.contains_key(p), w1[p] == WEnt::Dir,
        placed(v, it.kids[i], p.push(it.head.names[i]), w1, w2), only_near(w1, w2, p.push(it.head.names[i])),
    ensures #[trigger] placed_upto(v, it, p, w0, w2, j)
{
    reveal(placed_upto); reveal(placed); reveal(only_near);
    let n = it.head.names[i]; let pn = p.push(n);
    assert(it.head.names.contains(n));
    assert(it.head.names.index_of(n) == i);
    assert forall|q: Comps| #![trigger w2.contains_key(p + q)] #![trigger w0.contains_key(p + q)] q.len() > 0 implies put_at(v, node_upto(v, it, j, q), w0, w2, p + q) by {
        assert(put_at(v, node_upto(v, it, i, q), w0, w1, p + q)) by { assert(w1.contains_key(p + q) || true); }
        if q[0] == n {
            let r = q.skip(1);
            assert(pn + r =~= p + q);
            assert(put_at(v, node(v, it.kids[i], r), w1, w2, pn + r));
            assert(node_upto(v, it, i, q) is None);
            assert(node_upto(v, it, j, q) == node(v, it.kids[i], r));
        } else {
            if w2.contains_key(p + q) && !w1.contains_key(p + q) {
                if is_prefix(pn, p + q) { lemma_prefix_push(p, n, p + q); assert((p + q)[p.len() as int] == q[0]); }
                if is_prefix(p + q, pn) {
                    assert((p + q).len() == pn.len());
                    assert(pn.take(pn.len() as int) =~= pn);
                    assert((p + q)[p.len() as int] == q[0]);
                }
            }
            if it.head.names.contains(q[0]) { assert(it.head.names.index_of(q[0]) != i); }
            assert(node_upto(v, it, j, q) == node_upto(v, it, i, q));
        }
    }
}
pub broadcast proof fn lemma_near_step(w0: World, w1: World, w2: World, p: Comps, n: Seq<u8>)
    requires #[trigger] only_near(w0, w1, p), #[trigger] only_near(w1, w2, p.push(n)), keeps(w1, w2), w1.contains_key(p)
    ensures only_near(w0, w2, p)
{
    reveal(only_near);
    assert forall|q: Comps| #![trigger w2.contains_key(q)] w2.contains_key(q) && !w0.contains_key(q) implies is_prefix(p, q) || (is_prefix(q, p) && w2[q] == WEnt::Dir) by {
        if !w1.contains_key(q) {
            if is_prefix(p.push(n), q) { lemma_prefix_push(p, n, q); }
            else {
                assert(is_prefix(q, p.push(n)));
                if q.len() <= p.len() { assert(p.push(n).take(q.len() as int) =~= p.take(q.len() as int)); }
                else { assert(q =~= p.push(n)); assert(q.take(p.len() as int) =~= p); }
            }
        }
    }
}
/// All children are fetched.
pub broadcast proof fn lemma_placed_dir(v: StoreV, k: Key, it: ItemV, p: Comps, w0: World, w1: World, i: int)
    requires item_at(v, k) == Some(it), it.head.is_dir, #[trigger] placed_upto(v, it, p, w0, w1, i), i == it.kids.len(), w1.contains_key(p), w1[p] == WEnt::Dir
    ensures #[trigger] placed(v, k, p, w0, w1)
{
    reveal(placed); reveal(placed_upto);
    assert forall|q: Comps| #![trigger put_at(v, node(v, k, q), w0, w1, p + q)] put_at(v, node(v, k, q), w0, w1, p + q) by {
        if q.len() == 0 { assert(p + q =~= p); } else {
            assert(put_at(v, node_upto(v, it, i, q), w0, w1, p + q)) by { assert(w1.contains_key(p + q) || true); }
            if it.head.names.contains(q[0]) { assert(it.head.names.index_of(q[0]) < i); }
        }
    }
}
pub broadcast proof fn lemma_placed_file(v: StoreV, k: Key, p: Comps, w0: World, w1: World)
    requires
        !w0.contains_key(p), w1.contains_key(p), w1[p] is File, file_is(v, k, w1[p]->File_0),
        only_near_file(w0, w1, p),
    ensures #[trigger] placed(v, k, p, w0, w1)
{
    reveal(placed);
    assert forall|q: Comps| #![trigger put_at(v, node(v, k, q), w0, w1, p + q)] put_at(v, node(v, k, q), w0, w1, p + q) by {
        if q.len() == 0 { assert(p + q =~= p); } else { assert(w1.contains_key(p + q) || true); }
    }
}
}
/// Nothing came to be below `p`.
pub open spec fn only_near_file(w0: World, w1: World, p: Comps) -> bool {
    forall|q: Comps| #![trigger w1.contains_key(p + q)] q.len() > 0 ==> w1.contains_key(p + q) == w0.contains_key(p + q)
}
/// A file was made at `p`.
pub proof fn lemma_file_made(w0: World, w1: World, w2: World, p: Comps)
    requires
        w1 == w0 || (pparent(p) is Some && only_way(w0, w1, pparent(p)->Some_0)), keeps(w0, w1), !w1.contains_key(p),
        w2.contains_key(p), w2.remove(p) == w1,
    ensures keeps(w0, w2), only_near(w0, w2, p), only_near_file(w0, w2, p), !w0.contains_key(p)
{
    reveal(only_near);
    assert forall|q: Comps| #![trigger w2.contains_key(q)] w2.contains_key(q) && !w0.contains_key(q) && q != p implies is_prefix(q, p) && w2[q] == WEnt::Dir by {
        assert(w2.remove(p).contains_key(q));
        assert(w1.contains_key(q));
        let pp = pparent(p)->Some_0;
        assert(is_prefix(q, pp));
        assert(p.take(q.len() as int) =~= pp.take(q.len() as int));
    }
    assert(p.take(p.len() as int) =~= p);
    assert(keeps(w0, w2)) by {
        assert forall|q: Comps| #![trigger w0.contains_key(q)] #![trigger w2.contains_key(q)] #![trigger w2[q]] w0.contains_key(q) implies w2.contains_key(q) && w2[q] == w0[q] by { assert(w1.contains_key(q)); assert(w2.remove(p).contains_key(q) && w2.remove(p)[q] == w1[q]); }
    }
    assert forall|q: Comps| #![trigger w2.contains_key(p + q)] q.len() > 0 implies w2.contains_key(p + q) == w0.contains_key(p + q) by {
        assert(p + q != p);
        if w2.contains_key(p + q) && !w0.contains_key(p + q) { assert(is_prefix(p + q, p)); }
        if w0.contains_key(p + q) { assert(w1.contains_key(p + q)); assert(w2.remove(p).contains_key(p + q)); }
    }
}
