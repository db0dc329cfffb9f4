// ---------------------------------------------------------------------------
// Listings: one entry for each item below the root, under its own path.
// ---------------------------------------------------------------------------
pub open spec fn no_root(q: Comps, n: Option<(Key, bool)>) -> Option<(Key, bool)> {
    match n { Some((k, dir)) => if dir && q.len() == 0 { None } else { n }, None => None }
}
/// What the listing of `k` at `p` has under `q` (a directory without a path is not listed).
pub open spec fn wentry(v: StoreV, k: Key, p: Comps, q: Comps) -> Option<(Key, bool)> {
    if is_prefix(p, q) { no_root(q, node(v, k, q.skip(p.len() as int))) } else { None }
}
pub open spec fn has_entry(m: Map<Comps, (TypedKey<FSItem>, bool)>, q: Comps, n: Option<(Key, bool)>) -> bool {
    match n { Some(x) => m.contains_key(q) && m[q].0.inner == x.0 && m[q].1 == x.1, None => !m.contains_key(q) }
}
#[verifier::opaque]
pub open spec fn walked(v: StoreV, k: Key, p: Comps, m: Map<Comps, (TypedKey<FSItem>, bool)>) -> bool {
    forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] #![trigger wentry(v, k, p, q)] has_entry(m, q, wentry(v, k, p, q))
}
pub open spec fn wentry_upto(v: StoreV, it: ItemV, k: Key, p: Comps, i: int, q: Comps) -> Option<(Key, bool)> {
    if q == p { if p.len() > 0 { Some((k, true)) } else { None } }
    else if is_prefix(p, q) { node_upto(v, it, i, q.skip(p.len() as int)) } else { None }
}
#[verifier::opaque]
pub open spec fn walked_upto(v: StoreV, it: ItemV, k: Key, p: Comps, i: int, m: Map<Comps, (TypedKey<FSItem>, bool)>) -> bool {
    forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_entry(m, q, wentry_upto(v, it, k, p, i, q))
}
pub mod ax_walk { use super::*;
pub broadcast proof fn lemma_walked_none(v: StoreV, it: ItemV, k: Key, p: Comps, m: Map<Comps, (TypedKey<FSItem>, bool)>)
    requires forall|q: Comps| #![trigger m.contains_key(q)] m.contains_key(q) == (q == p && p.len() > 0) && (m.contains_key(q) ==> m[q].0.inner == k && m[q].1)
    ensures #[trigger] walked_upto(v, it, k, p, 0, m)
{
    reveal(walked_upto);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_entry(m, q, wentry_upto(v, it, k, p, 0, q)) by {
        assert(m.contains_key(q) == (q == p && p.len() > 0));
        if it.head.names.contains(q.skip(p.len() as int)[0]) { assert(it.head.names.index_of(q.skip(p.len() as int)[0]) >= 0); }
    }
}
pub broadcast proof fn lemma_walked_step(v: StoreV, it: ItemV, k: Key, p: Comps, i: int, j: int, a: Map<Comps, (TypedKey<FSItem>, bool)>, b: Map<Comps, (TypedKey<FSItem>, bool)>)
    requires
        item_ok(it), it.head.is_dir, 0 <= i < it.kids.len(), j == i + 1,
        #[trigger] walked_upto(v, it, k, p, i, a), walked(v, it.kids[i], p.push(it.head.names[i]), b),
    ensures #[trigger] walked_upto(v, it, k, p, j, a.union_prefer_right(b))
{
    reveal(walked_upto); reveal(walked);
    let n = it.head.names[i]; let pn = p.push(n); let m = a.union_prefer_right(b);
    assert(it.head.names.contains(n));
    assert(it.head.names.index_of(n) == i);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_entry(m, q, wentry_upto(v, it, k, p, j, q)) by {
        assert(has_entry(a, q, wentry_upto(v, it, k, p, i, q))) by { assert(a.contains_key(q) || true); }
        assert(has_entry(b, q, wentry(v, it.kids[i], pn, q))) by { assert(b.contains_key(q) || true); }
        let r = q.skip(p.len() as int);
        if q != p && is_prefix(p, q) {
            assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } }
            if r[0] == n {
                assert(q.take(pn.len() as int) =~= pn) by { assert(q.take(p.len() as int) =~= p); }
                assert(is_prefix(pn, q));
                assert(q.skip(pn.len() as int) =~= r.skip(1));
                assert(node_upto(v, it, i, r) is None);
            } else {
                if is_prefix(pn, q) { lemma_prefix_push(p, n, q); }
                if it.head.names.contains(r[0]) { assert(it.head.names.index_of(r[0]) != i); }
            }
        } else {
            if is_prefix(pn, q) { lemma_prefix_push(p, n, q); }
        }
    }
}
pub broadcast proof fn lemma_walked_dir(v: StoreV, it: ItemV, k: Key, p: Comps, i: int, m: Map<Comps, (TypedKey<FSItem>, bool)>)
    requires item_at(v, k) == Some(it), it.head.is_dir, item_ok(it), #[trigger] walked_upto(v, it, k, p, i, m), i == it.kids.len()
    ensures #[trigger] walked(v, k, p, m)
{
    reveal(walked_upto); reveal(walked);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_entry(m, q, wentry(v, k, p, q)) by {
        assert(has_entry(m, q, wentry_upto(v, it, k, p, i, q))) by { assert(m.contains_key(q) || true); }
        let r = q.skip(p.len() as int);
        if q == p { assert(p.take(p.len() as int) =~= p); }
        else if is_prefix(p, q) {
            assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } }
            if it.head.names.contains(r[0]) { assert(it.head.names.index_of(r[0]) < i); }
        }
    }
}
pub broadcast proof fn lemma_walked_file(v: StoreV, k: Key, p: Comps, m: Map<Comps, (TypedKey<FSItem>, bool)>)
    requires
        item_at(v, k) is Some, !item_at(v, k)->Some_0.head.is_dir,
        forall|q: Comps| #![trigger m.contains_key(q)] m.contains_key(q) == (q == p) && (m.contains_key(q) ==> m[q].0.inner == k && !m[q].1),
    ensures #[trigger] walked(v, k, p, m)
{
    reveal(walked);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_entry(m, q, wentry(v, k, p, q)) by {
        assert(m.contains_key(q) == (q == p));
        assert(p.take(p.len() as int) =~= p);
        if q != p && is_prefix(p, q) { assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } } }
    }
}
}
// --- real directories ----------------------------------------------------------
pub open spec fn rno_root(q: Comps, n: Option<bool>) -> Option<bool> { if q.len() == 0 && n == Some(true) { None } else { n } }
/// What the listing of what is at `p` below `b` has under `q`.
pub open spec fn rentry(f: &EntFilter, b: Comps, p: Comps, q: Comps) -> Option<bool> {
    if is_prefix(p, q) { rno_root(q, real_at(f, b + p, q.skip(p.len() as int))) } else { None }
}
pub open spec fn has_kind(m: Map<Comps, bool>, q: Comps, n: Option<bool>) -> bool {
    match n { Some(x) => m.contains_key(q) && m[q] == x, None => !m.contains_key(q) }
}
#[verifier::opaque]
pub open spec fn rwalked(f: &EntFilter, b: Comps, p: Comps, m: Map<Comps, bool>) -> bool {
    forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] #![trigger rentry(f, b, p, q)] has_kind(m, q, rentry(f, b, p, q))
}
pub open spec fn rentry_upto(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, q: Comps) -> Option<bool> {
    if q == p { if p.len() > 0 { Some(true) } else { None } }
    else if is_prefix(p, q) && listed(l, q[p.len() as int]) && f.says((b + p).push(q[p.len() as int])) { real_at(f, (b + p).push(q[p.len() as int]), q.skip(p.len() as int + 1)) }
    else { None }
}
#[verifier::opaque]
pub open spec fn rwalked_upto(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, m: Map<Comps, bool>) -> bool {
    forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry_upto(f, b, p, l, q))
}
pub proof fn lemma_listed_step(l: Seq<Result<DirEntry, std::io::Error>>, i: int, n: Seq<u8>)
    requires 0 <= i < l.len()
    ensures listed(l.take(i + 1), n) == (listed(l.take(i), n) || (l[i] is Ok && l[i]->Ok_0.nm() == n))
{
    let a = l.take(i); let b = l.take(i + 1);
    if listed(a, n) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]) is Ok && a[j]->Ok_0.nm() == n; assert(b[j] == a[j]); }
    if listed(b, n) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]) is Ok && b[j]->Ok_0.nm() == n; if j < i { assert(a[j] == b[j]); } }
    if l[i] is Ok && l[i]->Ok_0.nm() == n { assert(b[i] is Ok); }
}
pub mod ax_rwalk { use super::*;
pub broadcast proof fn lemma_names_push(c: Comps, n: Seq<u8>)
    requires names_ok(c), name_ok(n)
    ensures #[trigger] names_ok(c.push(n))
{}
pub broadcast proof fn lemma_rwalked_none(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, m: Map<Comps, bool>)
    requires forall|q: Comps| #![trigger m.contains_key(q)] m.contains_key(q) == (q == p && p.len() > 0) && (m.contains_key(q) ==> m[q])
    ensures #[trigger] rwalked_upto(f, b, p, l.take(0), m)
{
    reveal(rwalked_upto);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry_upto(f, b, p, l.take(0), q)) by { assert(m.contains_key(q) == (q == p && p.len() > 0)); }
}
/// An entry that is left out.
pub broadcast proof fn lemma_rwalked_skip(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, i: int, j: int, m: Map<Comps, bool>)
    requires 0 <= i < l.len(), j == i + 1, l[i] is Ok, !f.says((b + p).push(l[i]->Ok_0.nm())), #[trigger] rwalked_upto(f, b, p, l.take(i), m)
    ensures #[trigger] rwalked_upto(f, b, p, l.take(j), m)
{
    reveal(rwalked_upto);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry_upto(f, b, p, l.take(j), q)) by {
        assert(has_kind(m, q, rentry_upto(f, b, p, l.take(i), q))) by { assert(m.contains_key(q) || true); }
        lemma_listed_step(l, i, q[p.len() as int]);
    }
}
pub broadcast proof fn lemma_rwalked_step(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, i: int, j: int, x: Map<Comps, bool>, y: Map<Comps, bool>)
    requires
        0 <= i < l.len(), j == i + 1, l[i] is Ok, f.says((b + p).push(l[i]->Ok_0.nm())),
        #[trigger] rwalked_upto(f, b, p, l.take(i), x), rwalked(f, b, p.push(l[i]->Ok_0.nm()), y),
    ensures #[trigger] rwalked_upto(f, b, p, l.take(j), x.union_prefer_right(y))
{
    reveal(rwalked_upto); reveal(rwalked);
    let n = l[i]->Ok_0.nm(); let pn = p.push(n); let m = x.union_prefer_right(y);
    assert(b + pn =~= (b + p).push(n));
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry_upto(f, b, p, l.take(j), q)) by {
        assert(has_kind(x, q, rentry_upto(f, b, p, l.take(i), q))) by { assert(x.contains_key(q) || true); }
        assert(has_kind(y, q, rentry(f, b, pn, q))) by { assert(y.contains_key(q) || true); }
        let c = q[p.len() as int];
        lemma_listed_step(l, i, c);
        if q != p && is_prefix(p, q) {
            assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } }
            if c == n {
                assert(q.take(pn.len() as int) =~= pn) by { assert(q.take(p.len() as int) =~= p); }
                assert(is_prefix(pn, q));
            } else {
                if is_prefix(pn, q) { lemma_prefix_push(p, n, q); }
            }
        } else {
            if is_prefix(pn, q) { lemma_prefix_push(p, n, q); }
        }
    }
}
pub broadcast proof fn lemma_rwalked_dir(f: &EntFilter, b: Comps, p: Comps, l: Seq<Result<DirEntry, std::io::Error>>, m: Map<Comps, bool>)
    requires all_ok(l), lists(l, b + p), #[trigger] rwalked_upto(f, b, p, l, m)
    ensures #[trigger] rwalked(f, b, p, m)
{
    reveal(rwalked_upto); reveal(rwalked); reveal(lists);
    let ns = fs_at(b + p)->Some_0->Dir_0;
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry(f, b, p, q)) by {
        assert(has_kind(m, q, rentry_upto(f, b, p, l, q))) by { assert(m.contains_key(q) || true); }
        let r = q.skip(p.len() as int);
        if q == p { assert(p.take(p.len() as int) =~= p); }
        else if is_prefix(p, q) {
            assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } }
            let n = q[p.len() as int];
            assert(r[0] == n && r.skip(1) =~= q.skip(p.len() as int + 1));
            if ns.contains(n) { let j = ent_names(l).index_of(n); assert(l[j] is Ok); }
            if listed(l, n) { let j = choose|j: int| 0 <= j < l.len() && (#[trigger] l[j]) is Ok && l[j]->Ok_0.nm() == n; assert(ent_names(l)[j] == n); }
        }
    }
}
pub broadcast proof fn lemma_rwalked_file(f: &EntFilter, b: Comps, p: Comps, m: Map<Comps, bool>)
    requires
        fs_at(b + p) is Some, fs_at(b + p)->Some_0 is File,
        forall|q: Comps| #![trigger m.contains_key(q)] m.contains_key(q) == (q == p) && (m.contains_key(q) ==> !m[q]),
    ensures #[trigger] rwalked(f, b, p, m)
{
    reveal(rwalked);
    assert forall|q: Comps| #![trigger m.contains_key(q)] #![trigger m[q]] has_kind(m, q, rentry(f, b, p, q)) by {
        assert(m.contains_key(q) == (q == p));
        assert(p.take(p.len() as int) =~= p);
        if q != p && is_prefix(p, q) { assert(q.len() > p.len()) by { if q.len() == p.len() { assert(q.take(p.len() as int) =~= q); } } }
    }
}
}
