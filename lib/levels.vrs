broadcast use {ax_grows::lemma_grows_refl, ax_grows::lemma_grows_trans, ax_grows::lemma_grows_clash};
// The bytes held by the five key buffers of put_data (highest level first).
pub open spec fn lv(v: StoreV, kb: Seq<Seq<Key>>, n: int, d: nat) -> Option<Seq<u8>>
    decreases kb.len() - n
{
    if n < 0 || n >= kb.len() { Some(Seq::<u8>::empty()) } else {
        match (lv(v, kb, n + 1, d), flat_all(v, kb[n], d)) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
/// Levels n and up of `kb` hold exactly the bytes `b`.
pub open spec fn holds(v: StoreV, kb: Seq<Seq<Key>>, n: int, b: Seq<u8>) -> bool {
    exists|d: nat| #[trigger] lv(v, kb, n, d) == Some(b)
}
pub open spec fn kbv(a: [Vec<Key>; 5]) -> Seq<Seq<Key>> { Seq::new(5, |i: int| a@[i]@) }

pub proof fn lemma_lv_mono(v: StoreV, w: StoreV, kb: Seq<Seq<Key>>, n: int, d: nat, e: nat)
    requires grows(v, w), d <= e, lv(v, kb, n, d) is Some
    ensures lv(w, kb, n, e) == lv(v, kb, n, d)
    decreases kb.len() - n
{
    if 0 <= n < kb.len() {
        lemma_lv_mono(v, w, kb, n + 1, d, e);
        lemma_flat_all_mono(v, w, kb[n], d, e);
    }
}
/// Only levels n and up matter.
pub proof fn lemma_lv_same(v: StoreV, kb: Seq<Seq<Key>>, kc: Seq<Seq<Key>>, n: int, d: nat)
    requires kb.len() == kc.len(), forall|i: int| n <= i < kb.len() ==> kb[i] == kc[i]
    ensures lv(v, kb, n, d) == lv(v, kc, n, d)
    decreases kb.len() - n
{
    if 0 <= n < kb.len() { lemma_lv_same(v, kb, kc, n + 1, d); }
}
pub proof fn lemma_lv_empty(v: StoreV, kb: Seq<Seq<Key>>, n: int, d: nat)
    requires forall|i: int| n <= i < kb.len() ==> kb[i].len() == 0
    ensures lv(v, kb, n, d) == Some(Seq::<u8>::empty())
    decreases kb.len() - n
{
    if 0 <= n < kb.len() { lemma_lv_empty(v, kb, n + 1, d); assert(Seq::<u8>::empty() + Seq::<u8>::empty() =~= Seq::<u8>::empty()); }
}
pub proof fn lemma_holds_empty(v: StoreV, kb: Seq<Seq<Key>>, n: int)
    requires forall|i: int| n <= i < kb.len() ==> kb[i].len() == 0
    ensures holds(v, kb, n, Seq::<u8>::empty())
{ lemma_lv_empty(v, kb, n, 0); }
pub proof fn lemma_holds_unique(v: StoreV, kb: Seq<Seq<Key>>, n: int, b: Seq<u8>, c: Seq<u8>)
    requires holds(v, kb, n, b), holds(v, kb, n, c)
    ensures b == c
{
    let d = choose|d: nat| #[trigger] lv(v, kb, n, d) == Some(b);
    let e = choose|d: nat| #[trigger] lv(v, kb, n, d) == Some(c);
    if d <= e { lemma_lv_mono(v, v, kb, n, d, e); } else { lemma_lv_mono(v, v, kb, n, e, d); }
}
pub proof fn lemma_holds_grows(v: StoreV, w: StoreV, kb: Seq<Seq<Key>>, n: int, b: Seq<u8>)
    requires grows(v, w), holds(v, kb, n, b)
    ensures holds(w, kb, n, b)
{
    let d = choose|d: nat| #[trigger] lv(v, kb, n, d) == Some(b);
    lemma_lv_mono(v, w, kb, n, d, d);
}
pub proof fn lemma_grows_write(v: StoreV, k: Seq<u8>, b: Seq<u8>)
    ensures grows(v, write_obj(v, k, b))
{ reveal(grows); }
/// The object just written is there, unless a clash was recorded.
pub proof fn lemma_written(v: StoreV, k: Key, o: ObjV)
    requires !write_obj(v, db_key(k), enc_obj(o)).clash
    ensures lookup(write_obj(v, db_key(k), enc_obj(o)), k) == Some(o), !v.clash
{
    broadcast use ax_cbor::axiom_cbor_obj;
}
pub open spec fn blob(b: Seq<u8>) -> ObjV { ObjV { data: b, keys: Seq::empty(), objtype: ObjType::FileBlob } }
pub open spec fn tree(ks: Seq<Key>) -> ObjV { ObjV { data: Seq::empty(), keys: ks, objtype: ObjType::FileBlobTree } }

/// A chunk stored and pushed at level 0.
pub proof fn lemma_blob_step(v: StoreV, kb: Seq<Seq<Key>>, k: Key, chunk: Seq<u8>, b: Seq<u8>)
    requires kb.len() == 5, holds(v, kb, 0, b), !write_obj(v, db_key(k), enc_obj(blob(chunk))).clash
    ensures holds(write_obj(v, db_key(k), enc_obj(blob(chunk))), kb.update(0, kb[0].push(k)), 0, b + chunk)
{
    let w = write_obj(v, db_key(k), enc_obj(blob(chunk)));
    let kc = kb.update(0, kb[0].push(k));
    lemma_written(v, k, blob(chunk));
    lemma_grows_write(v, db_key(k), enc_obj(blob(chunk)));
    let d0 = choose|d: nat| #[trigger] lv(v, kb, 0, d) == Some(b);
    let d = d0 + 1;
    lemma_lv_mono(v, w, kb, 0, d0, d);
    lemma_lv_same(w, kb, kc, 1, d);
    lemma_flat_all_push(w, kb[0], k, d);
    assert(flat(w, k, d) == Some(chunk));
    let a = lv(w, kb, 1, d).unwrap();
    let c = flat_all(w, kb[0], d).unwrap();
    assert((a + c) + chunk =~= a + (c + chunk));
    assert(lv(w, kc, 0, d) == Some(b + chunk));
}
/// Level o stored as a tree object whose key is pushed at level o + 1.
pub proof fn lemma_tree_step(v: StoreV, kb: Seq<Seq<Key>>, o: int, k: Key, b: Seq<u8>)
    requires kb.len() == 5, 0 <= o < 4, holds(v, kb, o, b), !write_obj(v, db_key(k), enc_obj(tree(kb[o]))).clash
    ensures holds(write_obj(v, db_key(k), enc_obj(tree(kb[o]))), kb.update(o + 1, kb[o + 1].push(k)), o + 1, b)
{
    let w = write_obj(v, db_key(k), enc_obj(tree(kb[o])));
    let kc = kb.update(o + 1, kb[o + 1].push(k));
    lemma_written(v, k, tree(kb[o]));
    lemma_grows_write(v, db_key(k), enc_obj(tree(kb[o])));
    let d0 = choose|d: nat| #[trigger] lv(v, kb, o, d) == Some(b);
    let d = d0 + 1;
    lemma_lv_mono(v, w, kb, o, d0, d);
    lemma_lv_mono(v, w, kb, o, d0, d0);
    lemma_flat_all_mono(w, w, kb[o], d0, d);
    lemma_lv_same(w, kb, kc, o + 2, d);
    lemma_flat_all_push(w, kb[o + 1], k, d);
    assert(flat(w, k, d) == flat_all(w, kb[o], d0));
    let a2 = lv(w, kb, o + 2, d).unwrap();
    let a1 = flat_all(w, kb[o + 1], d).unwrap();
    let a0 = flat_all(w, kb[o], d).unwrap();
    assert((a2 + a1) + a0 =~= a2 + (a1 + a0));
    assert(lv(w, kb, o + 1, d) == Some(a2 + a1));
    assert(lv(w, kc, o + 1, d) == Some(b));
}
/// ... and level o emptied (all lower levels are untouched).
pub proof fn lemma_lower_levels(v: StoreV, w: StoreV, kb: Seq<Seq<Key>>, kc: Seq<Seq<Key>>, o: int, n: int, b: Seq<u8>)
    requires kb.len() == 5, kc.len() == 5, 0 <= n <= o < 4, grows(v, w), holds(v, kb, n, b),
        forall|i: int| 0 <= i < o ==> kb[i] == kc[i], kc[o].len() == 0,
        forall|c: Seq<u8>| #[trigger] holds(v, kb, o, c) ==> holds(w, kc, o + 1, c),
    ensures holds(w, kc, n, b)
    decreases o - n
{
    let d = choose|d: nat| #[trigger] lv(v, kb, n, d) == Some(b);
    if n == o {
        assert(holds(w, kc, o + 1, b));
        let e = choose|e: nat| #[trigger] lv(w, kc, o + 1, e) == Some(b);
        assert(flat_all(w, kc[o], e) == Some(Seq::<u8>::empty()));
        assert(b + Seq::<u8>::empty() =~= b);
        assert(lv(w, kc, n, e) == Some(b));
    } else {
        let hi = lv(v, kb, n + 1, d).unwrap();
        assert(holds(v, kb, n + 1, hi));
        lemma_lower_levels(v, w, kb, kc, o, n + 1, hi);
        let e0 = choose|e: nat| #[trigger] lv(w, kc, n + 1, e) == Some(hi);
        let e = if e0 >= d { e0 } else { d };
        lemma_lv_mono(w, w, kc, n + 1, e0, e);
        lemma_flat_all_mono(v, w, kb[n], d, e);
        assert(lv(w, kc, n, e) == Some(b));
    }
}
pub proof fn lemma_carry_step(v: StoreV, kb: Seq<Seq<Key>>, o: int, k: Key, b: Seq<u8>)
    requires kb.len() == 5, 0 <= o < 4, holds(v, kb, 0, b), !write_obj(v, db_key(k), enc_obj(tree(kb[o]))).clash
    ensures holds(write_obj(v, db_key(k), enc_obj(tree(kb[o]))), kb.update(o, Seq::empty()).update(o + 1, kb[o + 1].push(k)), 0, b)
{
    let w = write_obj(v, db_key(k), enc_obj(tree(kb[o])));
    let kc = kb.update(o, Seq::empty()).update(o + 1, kb[o + 1].push(k));
    lemma_grows_write(v, db_key(k), enc_obj(tree(kb[o])));
    assert forall|c: Seq<u8>| #[trigger] holds(v, kb, o, c) implies holds(w, kc, o + 1, c) by {
        lemma_tree_step(v, kb, o, k, c);
        let kt = kb.update(o + 1, kb[o + 1].push(k));
        let d = choose|d: nat| #[trigger] lv(w, kt, o + 1, d) == Some(c);
        lemma_lv_same(w, kt, kc, o + 1, d);
        assert(lv(w, kc, o + 1, d) == Some(c));
    }
    lemma_lower_levels(v, w, kb, kc, o, 0, b);
}
/// One key left at level n and nothing above: that key stands for everything.
pub proof fn lemma_single(v: StoreV, kb: Seq<Seq<Key>>, n: int, b: Seq<u8>)
    requires 0 <= n < kb.len(), holds(v, kb, n, b), kb[n].len() == 1, forall|i: int| n < i < kb.len() ==> kb[i].len() == 0
    ensures means(v, kb[n][0], b)
{
    let d = choose|d: nat| #[trigger] lv(v, kb, n, d) == Some(b);
    lemma_lv_empty(v, kb, n + 1, d);
    let k = kb[n][0];
    assert(kb[n] =~= Seq::<Key>::empty().push(k));
    lemma_flat_all_push(v, Seq::<Key>::empty(), k, d);
    assert(flat_all(v, Seq::<Key>::empty(), d) == Some(Seq::<u8>::empty()));
    let c = flat(v, k, d).unwrap();
    assert(Seq::<u8>::empty() + c =~= c);
    assert(Seq::<u8>::empty() + (Seq::<u8>::empty() + c) =~= c);
    assert(flat(v, k, d) == Some(b));
}
/// The top level stored as a tree: its key stands for everything at that level.
pub proof fn lemma_top(v: StoreV, kb: Seq<Seq<Key>>, k: Key, b: Seq<u8>)
    requires kb.len() == 5, holds(v, kb, 4, b), !write_obj(v, db_key(k), enc_obj(tree(kb[4]))).clash
    ensures means(write_obj(v, db_key(k), enc_obj(tree(kb[4]))), k, b)
{
    let w = write_obj(v, db_key(k), enc_obj(tree(kb[4])));
    lemma_written(v, k, tree(kb[4]));
    lemma_grows_write(v, db_key(k), enc_obj(tree(kb[4])));
    let d = choose|d: nat| #[trigger] lv(v, kb, 4, d) == Some(b);
    lemma_flat_all_mono(v, w, kb[4], d, d);
    let c = flat_all(v, kb[4], d).unwrap();
    assert(lv(v, kb, 5, d) == Some(Seq::<u8>::empty()));
    assert(Seq::<u8>::empty() + c =~= c);
    assert(flat(w, k, d + 1) == Some(b));
}
pub proof fn lemma_blob_means(v: StoreV, k: Key, chunk: Seq<u8>)
    requires !write_obj(v, db_key(k), enc_obj(blob(chunk))).clash
    ensures means(write_obj(v, db_key(k), enc_obj(blob(chunk))), k, chunk)
{
    lemma_written(v, k, blob(chunk));
    assert(flat(write_obj(v, db_key(k), enc_obj(blob(chunk))), k, 1) == Some(chunk));
}
/// Keys `ks`, in order, stand for exactly `b`.
pub open spec fn means_all(v: StoreV, ks: Seq<Key>, b: Seq<u8>) -> bool { exists|d: nat| #[trigger] flat_all(v, ks, d) == Some(b) }
pub proof fn lemma_means_all_empty(v: StoreV)
    ensures means_all(v, Seq::<Key>::empty(), Seq::<u8>::empty())
{ assert(flat_all(v, Seq::<Key>::empty(), 0) == Some(Seq::<u8>::empty())); }
pub proof fn lemma_means_all_push(v: StoreV, ks: Seq<Key>, k: Key, a: Seq<u8>, b: Seq<u8>)
    requires means_all(v, ks, a), means(v, k, b)
    ensures means_all(v, ks.push(k), a + b)
{
    let d = choose|d: nat| #[trigger] flat_all(v, ks, d) == Some(a);
    let e = choose|e: nat| #[trigger] flat(v, k, e) == Some(b);
    let m = if d >= e { d } else { e };
    lemma_flat_all_mono(v, v, ks, d, m);
    lemma_flat_mono(v, v, k, e, m);
    lemma_flat_all_push(v, ks, k, m);
    assert(flat_all(v, ks.push(k), m) == Some(a + b));
}
pub proof fn lemma_means_obj(v: StoreV, k: Key, b: Seq<u8>)
    requires lookup(v, k) matches Some(o) && match o.objtype {
        ObjType::FileBlob => b == o.data,
        ObjType::FileBlobTree => means_all(v, o.keys, b),
        ObjType::FSItemFile => o.keys.len() == 1 && means(v, o.keys[0], b),
        _ => false },
    ensures means(v, k, b)
{
    let o = lookup(v, k).unwrap();
    match o.objtype {
        ObjType::FileBlob => { assert(flat(v, k, 1) == Some(b)); }
        ObjType::FileBlobTree => {
            let d = choose|d: nat| #[trigger] flat_all(v, o.keys, d) == Some(b);
            assert(flat(v, k, d + 1) == Some(b));
        }
        _ => {
            let d = choose|d: nat| #[trigger] flat(v, o.keys[0], d) == Some(b);
            assert(flat(v, k, d + 1) == Some(b));
        }
    }
}
/// ... and conversely.
pub proof fn lemma_means_obj_inv(v: StoreV, k: Key, b: Seq<u8>)
    requires means(v, k, b)
    ensures lookup(v, k) matches Some(o) && match o.objtype {
        ObjType::FileBlob => b == o.data,
        ObjType::FileBlobTree => means_all(v, o.keys, b),
        ObjType::FSItemFile => o.keys.len() == 1 && means(v, o.keys[0], b),
        _ => false },
{
    let d = choose|d: nat| #[trigger] flat(v, k, d) == Some(b);
    assert(d > 0);
    let o = lookup(v, k).unwrap();
    if o.objtype is FileBlobTree { assert(flat_all(v, o.keys, (d - 1) as nat) == Some(b)); }
    if o.objtype is FSItemFile { assert(flat(v, o.keys[0], (d - 1) as nat) == Some(b)); }
}
pub proof fn lemma_means_all_parts(v: StoreV, ks: Seq<Key>, i: int, b: Seq<u8>)
    requires means_all(v, ks, b), 0 <= i < ks.len()
    ensures exists|x: Seq<u8>| means(v, ks[i], x)
    decreases ks.len()
{
    let d = choose|d: nat| #[trigger] flat_all(v, ks, d) == Some(b);
    if i == ks.len() - 1 {
        assert(flat(v, ks.last(), d) is Some);
        assert(means(v, ks[i], flat(v, ks.last(), d).unwrap()));
    } else {
        let c = flat_all(v, ks.drop_last(), d).unwrap();
        assert(means_all(v, ks.drop_last(), c));
        lemma_means_all_parts(v, ks.drop_last(), i, c);
    }
}
