// ---------------------------------------------------------------------------
// Stored directories and files: what an object says, and what a snapshot is.
// ---------------------------------------------------------------------------
pub struct HeadV { pub size: u64, pub is_dir: bool, pub names: Seq<Seq<u8>> }
pub struct ItemV { pub head: HeadV, pub kids: Seq<Key> }
pub open spec fn raws(s: Seq<PathBuf>) -> Seq<Seq<u8>> { s.map_values(|p: PathBuf| p.raw()) }
pub open spec fn item_keys(s: Seq<TypedKey<FSItem>>) -> Seq<Key> { s.map_values(|k: TypedKey<FSItem>| k.inner) }
impl FSItem {
    pub open spec fn head(&self) -> HeadV { HeadV { size: self.size, is_dir: self.itemtype is Dir, names: raws(self.children_names@) } }
    pub open spec fn v(&self) -> ItemV { ItemV { head: self.head(), kids: item_keys(self.children@) } }
}
pub uninterp spec fn enc_item(h: HeadV) -> Seq<u8>;
pub uninterp spec fn dec_item(b: Seq<u8>) -> Option<HeadV>;
/// It can be written (names have to be UTF-8).
pub uninterp spec fn head_can(h: HeadV) -> bool;
impl Cbor for FSItem {
    open spec fn cbor_enc(&self) -> Seq<u8> { enc_item(self.head()) }
    open spec fn cbor_dec(b: Seq<u8>, v: Self) -> bool { dec_item(b) == Some(v.head()) && v.children@.len() == 0 }
    open spec fn cbor_ok(b: Seq<u8>) -> bool { dec_item(b) is Some }
    open spec fn cbor_can(&self) -> bool { head_can(self.head()) }
}
pub mod ax_item { use super::*;
/// ASSUMED: decoding an encoded directory or file gives it back, also by way of an untyped value.
pub broadcast axiom fn axiom_item(h: HeadV)
    ensures head_can(h) ==> dec_item(#[trigger] enc_item(h)) == Some(h);
pub broadcast axiom fn axiom_item_value(b: Seq<u8>)
    ensures #[trigger] dec_item(b) is Some ==> value_ok(b);
}
pub open spec fn all_names_ok(ns: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ns.len() ==> name_ok(#[trigger] ns[i]) }
/// A directory gives each child one name that an entry can have; a file has exactly one content.
pub open spec fn item_ok(i: ItemV) -> bool {
    if i.head.is_dir { i.kids.len() == i.head.names.len() && i.head.names.no_duplicates() && all_names_ok(i.head.names) } else { i.kids.len() == 1 }
}
pub open spec fn item_type(dir: bool) -> ObjType { if dir { ObjType::FSItemDir } else { ObjType::FSItemFile } }
/// The directory or file an object stands for.
pub open spec fn item_of(o: ObjV) -> Option<ItemV> {
    match dec_item(o.data) {
        Some(h) => if o.objtype == item_type(h.is_dir) && item_ok(ItemV { head: h, kids: o.keys }) { Some(ItemV { head: h, kids: o.keys }) } else { None },
        None => None,
    }
}
pub open spec fn obj_of(i: ItemV) -> ObjV { ObjV { data: enc_item(i.head), keys: i.kids, objtype: item_type(i.head.is_dir) } }
pub open spec fn item_at(v: StoreV, k: Key) -> Option<ItemV> {
    match lookup(v, k) { Some(o) => item_of(o), None => None }
}
pub proof fn lemma_item_at_grows(a: StoreV, b: StoreV, k: Key)
    requires grows(a, b), item_at(a, k) is Some
    ensures item_at(b, k) == item_at(a, k)
{ reveal(grows); assert(a.data.contains_key(db_key(k))); assert(b.data.contains_key(db_key(k))); }
pub proof fn lemma_means_grows(a: StoreV, b: StoreV, k: Key, c: Seq<u8>)
    requires grows(a, b), means(a, k, c)
    ensures means(b, k, c)
{ let d = choose|d: nat| flat(a, k, d) == Some(c); lemma_flat_mono(a, b, k, d, d); }
/// What is written is read back.
pub proof fn lemma_item_written(v: StoreV, k: Key, i: ItemV)
    requires item_ok(i), head_can(i.head), !write_obj(v, db_key(k), enc_obj(obj_of(i))).clash
    ensures item_at(write_obj(v, db_key(k), enc_obj(obj_of(i))), k) == Some(i)
{
    broadcast use {ax_cbor::axiom_cbor_obj, ax_item::axiom_item};
    let w = write_obj(v, db_key(k), enc_obj(obj_of(i)));
    assert(lookup(w, k) == Some(obj_of(i)));
}
pub mod ax_seqs { use super::*;
pub broadcast proof fn lemma_item_keys_of(s: Seq<TypedKey<FSItem>>, ks: Seq<Key>)
    requires s.len() == ks.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inner == ks[i]
    ensures #![trigger item_keys(s), vx_collected(ks)] #![trigger item_keys(s), vx_keys(ks)] item_keys(s) == ks
{ assert(item_keys(s) =~= ks); }
pub broadcast proof fn lemma_item_keys_push(s: Seq<TypedKey<FSItem>>, k: TypedKey<FSItem>)
    ensures #[trigger] item_keys(s.push(k)) == item_keys(s).push(k.inner)
{ assert(item_keys(s.push(k)) =~= item_keys(s).push(k.inner)); }
pub broadcast proof fn lemma_item_keys_none(s: Seq<TypedKey<FSItem>>)
    requires s.len() == 0
    ensures #[trigger] item_keys(s) == Seq::<Key>::empty()
{ assert(item_keys(s) =~= Seq::<Key>::empty()); }
pub broadcast proof fn lemma_item_keys_one(s: Seq<TypedKey<FSItem>>)
    requires s.len() == 1
    ensures #[trigger] item_keys(s) == seq![s[0].inner]
{ assert(item_keys(s) =~= seq![s[0].inner]); }
pub broadcast proof fn lemma_raws_push(s: Seq<PathBuf>, p: PathBuf)
    ensures #[trigger] raws(s.push(p)) == raws(s).push(p.raw())
{ assert(raws(s.push(p)) =~= raws(s).push(p.raw())); }
pub broadcast proof fn lemma_raws_at(s: Seq<PathBuf>, i: int)
    requires 0 <= i < s.len()
    ensures #![trigger raws(s), s[i]] raws(s)[i] == s[i].raw()
{ }
pub broadcast proof fn lemma_raws_none(s: Seq<PathBuf>)
    requires s.len() == 0
    ensures #[trigger] raws(s) == Seq::<Seq<u8>>::empty()
{ assert(raws(s) =~= Seq::<Seq<u8>>::empty()); }
pub broadcast proof fn lemma_all_names(s: Seq<&PathBuf>, ns: Seq<PathBuf>)
    requires s.len() == ns.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == ns[i]
    ensures #![trigger vx_alled(s), raws(ns)] all_names_ok(raws(ns)) == forall|i: int| 0 <= i < s.len() ==> name_ok((#[trigger] s[i]).raw())
{
    if all_names_ok(raws(ns)) { assert forall|i: int| 0 <= i < s.len() implies name_ok((#[trigger] s[i]).raw()) by { assert(name_ok(raws(ns)[i])); } }
    if forall|i: int| 0 <= i < s.len() ==> name_ok((#[trigger] s[i]).raw()) { assert forall|i: int| 0 <= i < ns.len() implies name_ok(#[trigger] raws(ns)[i]) by { assert(name_ok(s[i].raw())); } }
}
/// The names are all different exactly when there are as many different ones as names.
pub broadcast proof fn lemma_unique_names(s: Seq<&PathBuf>, ns: Seq<PathBuf>)
    requires s.len() == ns.len(), forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == ns[i], all_names_ok(raws(ns))
    ensures #![trigger kvs(s), raws(ns)] (kvs(s).to_set().len() == s.len()) == raws(ns).no_duplicates()
{
    broadcast use ax_path::axiom_file_name;
    let a = kvs(s); let b = raws(ns);
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == seq![b[i]] by { assert(name_ok(b[i])); }
    if a.no_duplicates() {
        a.unique_seq_to_set();
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { assert(a[i] != a[j]); }
    } else if a.to_set().len() == a.len() {
        a.lemma_no_dup_set_cardinality();
    }
    if b.no_duplicates() {
        assert forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < a.len() && i != j implies a[i] != a[j] by { assert(a[i][0] == b[i] && a[j][0] == b[j]); }
    }
}
}
pub open spec fn vx_keys(ks: Seq<Key>) -> bool { true }
// --- which trees are whole ---------------------------------------------------
pub open spec fn treed(v: StoreV, k: Key, d: nat) -> bool
    decreases d
{
    d > 0 && match item_at(v, k) {
        Some(it) => it.head.is_dir ==> forall|i: int| 0 <= i < it.kids.len() ==> treed(v, #[trigger] it.kids[i], (d - 1) as nat),
        None => false,
    }
}
/// Every directory below `k` can be read.
pub open spec fn tree_ok(v: StoreV, k: Key) -> bool { exists|d: nat| #[trigger] treed(v, k, d) }
pub proof fn lemma_treed_more(v: StoreV, k: Key, d: nat, e: nat)
    requires treed(v, k, d), d <= e
    ensures treed(v, k, e)
    decreases d
{
    let it = item_at(v, k)->Some_0;
    if it.head.is_dir {
        assert forall|i: int| 0 <= i < it.kids.len() implies treed(v, #[trigger] it.kids[i], (e - 1) as nat) by { lemma_treed_more(v, it.kids[i], (d - 1) as nat, (e - 1) as nat); }
    }
}
pub mod ax_tree { use super::*;
/// Unfolding one level.
pub broadcast proof fn lemma_tree_parts(v: StoreV, k: Key)
    requires #[trigger] tree_ok(v, k)
    ensures match item_at(v, k) {
        Some(it) => it.head.is_dir ==> forall|i: int| 0 <= i < it.kids.len() ==> tree_ok(v, #[trigger] it.kids[i]),
        None => false }
{
    let d = choose|d: nat| #[trigger] treed(v, k, d);
    let it = item_at(v, k)->Some_0;
    if it.head.is_dir {
        assert forall|i: int| 0 <= i < it.kids.len() implies tree_ok(v, #[trigger] it.kids[i]) by { assert(treed(v, it.kids[i], (d - 1) as nat)); }
    }
}
}
/// The key of the stream `b`: some function of its bytes (which one: unit file_key).
pub uninterp spec fn datakey(b: Seq<u8>) -> Key;
/// The directory entry of a file with the content `b`, and its key.
pub open spec fn fileitem(b: Seq<u8>) -> ItemV { ItemV { head: HeadV { size: b.len() as u64, is_dir: false, names: Seq::empty() }, kids: seq![datakey(b)] } }
pub open spec fn filekey(b: Seq<u8>) -> Key { blake3_of(enc_obj(obj_of(fileitem(b)))) }
// --- the order of names --------------------------------------------------------
/// Byte by byte, as OsString is ordered.
pub open spec fn blt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] != b[0] { a[0] < b[0] } else { blt(a.skip(1), b.skip(1)) }
}
pub proof fn lemma_blt_self(a: Seq<u8>)
    ensures !blt(a, a)
    decreases a.len()
{ if a.len() > 0 { lemma_blt_self(a.skip(1)); } }
pub proof fn lemma_blt(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    ensures !blt(a, a), blt(a, b) && blt(b, c) ==> blt(a, c), blt(a, b) || a == b || blt(b, a)
    decreases a.len() + b.len() + c.len()
{
    lemma_blt_self(a);
    if a.len() > 0 && b.len() > 0 {
        if a[0] == b[0] { lemma_blt(a.skip(1), b.skip(1), seq![]); if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); } }
        if c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lemma_blt(a.skip(1), b.skip(1), c.skip(1)); }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
#[verifier::opaque]
pub open spec fn sorted_names(ns: Seq<Seq<u8>>) -> bool { forall|i: int, j: int| 0 <= i < j < ns.len() ==> blt(#[trigger] ns[i], #[trigger] ns[j]) }
/// The same names, in order: the same list.
pub proof fn lemma_same_names(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires sorted_names(a), sorted_names(b), forall|n: Seq<u8>| #![trigger a.contains(n)] #![trigger b.contains(n)] a.contains(n) <==> b.contains(n)
    ensures a == b
    decreases a.len()
{
    reveal(sorted_names);
    if a.len() == 0 {
        if b.len() > 0 { assert(b.contains(b[0])); assert(a.contains(b[0])); }
        assert(a =~= b);
    } else {
        assert(a.contains(a.last())); assert(b.contains(a.last()));
        assert(b.contains(b.last())); assert(a.contains(b.last()));
        let i = a.index_of(b.last()); let j = b.index_of(a.last());
        lemma_blt(a.last(), b.last(), a.last());
        assert(a.last() == b.last()) by {
            if j < b.len() - 1 { assert(blt(b[j], b[b.len() - 1])); if i < a.len() - 1 { assert(blt(a[i], a[a.len() - 1])); } }
        }
        let x = a.drop_last(); let y = b.drop_last();
        assert(a =~= x.push(a.last())); assert(b =~= y.push(b.last()));
        assert forall|n: Seq<u8>| #![trigger x.contains(n)] #![trigger y.contains(n)] x.contains(n) <==> y.contains(n) by {
            lemma_blt(n, n, n);
            if x.contains(n) { let k = x.index_of(n); assert(a[k] == n); assert(blt(a[k], a[a.len() - 1])); assert(a.contains(n)); let m = b.index_of(n); assert(m < b.len() - 1); assert(y[m] == n); }
            if y.contains(n) { let k = y.index_of(n); assert(b[k] == n); assert(blt(b[k], b[b.len() - 1])); assert(b.contains(n)); let m = a.index_of(n); assert(m < a.len() - 1); assert(x[m] == n); }
        }
        lemma_same_names(x, y);
    }
}
// --- snapshots ----------------------------------------------------------------
/// The content of the file that `k` names is `b`.
pub open spec fn file_is(v: StoreV, k: Key, b: Seq<u8>) -> bool {
    item_at(v, k) matches Some(it) && (!it.head.is_dir && means(v, it.kids[0], b))
}
/// The names are those entries of the directory `p` that `f` lets through.
pub open spec fn names_of(it: ItemV, ns: Set<Seq<u8>>, p: Comps, f: &EntFilter) -> bool {
    forall|n: Seq<u8>| #![trigger it.head.names.contains(n)] #![trigger ns.contains(n)] it.head.names.contains(n) <==> ns.contains(n) && f.says(p.push(n))
}
pub open spec fn shotd(v: StoreV, k: Key, p: Comps, f: &EntFilter, d: nat) -> bool
    decreases d
{
    d > 0 && match fs_at(p) {
        Some(Ent::File(b)) => file_is(v, k, b) && k == filekey(b),
        Some(Ent::Dir(ns)) => match item_at(v, k) {
            Some(it) => it.head.is_dir && names_of(it, ns, p, f) && in_order(it) && k == blake3_of(enc_obj(obj_of(it)))
                && forall|i: int| 0 <= i < it.kids.len() ==> shotd(v, #[trigger] it.kids[i], p.push(it.head.names[i]), f, (d - 1) as nat),
            None => false,
        },
        _ => false,
    }
}
/// The directory's entries are in the order of their names, and its size says how many they are: it could not be written differently.
pub open spec fn in_order(it: ItemV) -> bool { sorted_names(it.head.names) && it.head.size == it.kids.len() && it.kids.len() == it.head.names.len() }
/// `k` is a snapshot of what is at `p`, as far as `f` lets it through.
pub open spec fn shot(v: StoreV, k: Key, p: Comps, f: &EntFilter) -> bool { exists|d: nat| #[trigger] shotd(v, k, p, f, d) }
pub proof fn lemma_shot_mono(a: StoreV, b: StoreV, k: Key, p: Comps, f: &EntFilter, d: nat, e: nat)
    requires shotd(a, k, p, f, d), grows(a, b), d <= e
    ensures shotd(b, k, p, f, e)
    decreases d
{
    lemma_item_at_grows(a, b, k);
    let it = item_at(a, k)->Some_0;
    match fs_at(p) {
        Some(Ent::File(c)) => { lemma_means_grows(a, b, it.kids[0], c); }
        _ => {
            assert forall|i: int| 0 <= i < it.kids.len() implies shotd(b, #[trigger] it.kids[i], p.push(it.head.names[i]), f, (e - 1) as nat) by {
                lemma_shot_mono(a, b, it.kids[i], p.push(it.head.names[i]), f, (d - 1) as nat, (e - 1) as nat);
            }
        }
    }
}
/// Every one of the names has its snapshot.
#[verifier::opaque]
pub open spec fn all_shot(v: StoreV, ks: Seq<Key>, ns: Seq<Seq<u8>>, p: Comps, f: &EntFilter) -> bool {
    ks.len() == ns.len() && forall|i: int| 0 <= i < ks.len() ==> shot(v, #[trigger] ks[i], p.push(ns[i]), f)
}
pub mod ax_shot { use super::*;
pub broadcast proof fn lemma_all_shot_grows(a: StoreV, b: StoreV, ks: Seq<Key>, ns: Seq<Seq<u8>>, p: Comps, f: &EntFilter)
    requires #[trigger] all_shot(a, ks, ns, p, f), #[trigger] grows(a, b)
    ensures all_shot(b, ks, ns, p, f)
{
    reveal(all_shot);
    assert forall|i: int| 0 <= i < ks.len() implies shot(b, #[trigger] ks[i], p.push(ns[i]), f) by {
        let d = choose|d: nat| #[trigger] shotd(a, ks[i], p.push(ns[i]), f, d);
        lemma_shot_mono(a, b, ks[i], p.push(ns[i]), f, d, d);
    }
}
pub broadcast proof fn lemma_all_shot_none(v: StoreV, p: Comps, f: &EntFilter)
    ensures #[trigger] all_shot(v, Seq::<Key>::empty(), Seq::<Seq<u8>>::empty(), p, f)
{ reveal(all_shot); }
pub broadcast proof fn lemma_all_shot_keys(v: StoreV, s: Seq<TypedKey<FSItem>>, ks: Seq<Key>, ns: Seq<Seq<u8>>, p: Comps, f: &EntFilter)
    requires s.len() == ks.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).inner == ks[i]
    ensures #![trigger item_keys(s), all_shot(v, ks, ns, p, f)] item_keys(s) == ks
{ assert(item_keys(s) =~= ks); }
/// One more.
pub broadcast proof fn lemma_all_shot_push(v: StoreV, ks: Seq<Key>, ns: Seq<Seq<u8>>, k: Key, n: Seq<u8>, p: Comps, f: &EntFilter)
    requires all_shot(v, ks, ns, p, f), shot(v, k, p.push(n), f)
    ensures #[trigger] all_shot(v, ks.push(k), ns.push(n), p, f)
{
    reveal(all_shot);
    assert forall|i: int| 0 <= i < ks.push(k).len() implies shot(v, #[trigger] ks.push(k)[i], p.push(ns.push(n)[i]), f) by {
        if i < ks.len() { assert(shot(v, ks[i], p.push(ns[i]), f)); }
    }
}
}
pub proof fn lemma_common_depth(v: StoreV, ks: Seq<Key>, ns: Seq<Seq<u8>>, p: Comps, f: &EntFilter) -> (d: nat)
    requires all_shot(v, ks, ns, p, f)
    ensures forall|i: int| 0 <= i < ks.len() ==> shotd(v, #[trigger] ks[i], p.push(ns[i]), f, d)
    decreases ks.len()
{
    broadcast use ax_grows::lemma_grows_refl;
    reveal(all_shot);
    if ks.len() == 0 { 0 } else {
        let n = ks.len() - 1;
        assert(all_shot(v, ks.drop_last(), ns.drop_last(), p, f)) by {
            assert forall|i: int| 0 <= i < n implies shot(v, #[trigger] ks.drop_last()[i], p.push(ns.drop_last()[i]), f) by { assert(shot(v, ks[i], p.push(ns[i]), f)); }
        }
        let a = lemma_common_depth(v, ks.drop_last(), ns.drop_last(), p, f);
        assert(shot(v, ks[n], p.push(ns[n]), f));
        let b = choose|b: nat| #[trigger] shotd(v, ks[n], p.push(ns[n]), f, b);
        let d = if a <= b { b } else { a };
        assert forall|i: int| 0 <= i < ks.len() implies shotd(v, #[trigger] ks[i], p.push(ns[i]), f, d) by {
            if i < n { assert(ks.drop_last()[i] == ks[i]); lemma_shot_mono(v, v, ks[i], p.push(ns[i]), f, a, d); } else { lemma_shot_mono(v, v, ks[i], p.push(ns[i]), f, b, d); }
        }
        d
    }
}
/// A directory object whose children are snapshots is a snapshot.
pub proof fn lemma_shot_dir(v: StoreV, k: Key, it: ItemV, p: Comps, ns: Set<Seq<u8>>, f: &EntFilter)
    requires item_at(v, k) == Some(it), it.head.is_dir, fs_at(p) == Some(Ent::Dir(ns)), names_of(it, ns, p, f), all_shot(v, it.kids, it.head.names, p, f), in_order(it), k == blake3_of(enc_obj(obj_of(it)))
    ensures shot(v, k, p, f)
{
    let d = lemma_common_depth(v, it.kids, it.head.names, p, f);
    assert(shotd(v, k, p, f, d + 1));
}
pub proof fn lemma_shot_file(v: StoreV, k: Key, it: ItemV, p: Comps, b: Seq<u8>, f: &EntFilter)
    requires item_at(v, k) == Some(it), !it.head.is_dir, fs_at(p) == Some(Ent::File(b)), means(v, it.kids[0], b), k == filekey(b)
    ensures shot(v, k, p, f)
{ assert(shotd(v, k, p, f, 1)); }
pub mod ax_shot2 { use super::*;
/// After the object of a directory is written, it is a snapshot.
pub broadcast proof fn lemma_dir_written(v: StoreV, k: Key, it: ItemV, p: Comps, f: &EntFilter)
    requires
        fs_at(p) matches Some(Ent::Dir(ns)) && names_of(it, ns, p, f), it.head.is_dir, item_ok(it), head_can(it.head), in_order(it), k == blake3_of(enc_obj(obj_of(it))),
        !v.clash ==> all_shot(v, it.kids, it.head.names, p, f),
        !write_obj(v, db_key(k), enc_obj(obj_of(it))).clash,
    ensures #![trigger write_obj(v, db_key(k), enc_obj(obj_of(it))), fs_at(p), vx_flt(f)] shot(write_obj(v, db_key(k), enc_obj(obj_of(it))), k, p, f)
{
    broadcast use {ax_grows::lemma_write_grows, ax_shot::lemma_all_shot_grows};
    let w = write_obj(v, db_key(k), enc_obj(obj_of(it)));
    lemma_item_written(v, k, it);
    assert(grows(v, w));
    lemma_shot_dir(w, k, it, p, fs_at(p)->Some_0->Dir_0, f);
}
pub broadcast proof fn lemma_file_written(v: StoreV, k: Key, it: ItemV, p: Comps, f: &EntFilter)
    requires
        fs_at(p) matches Some(Ent::File(b)) && (!v.clash ==> means(v, it.kids[0], b)) && it == fileitem(b), k == blake3_of(enc_obj(obj_of(it))), !it.head.is_dir, item_ok(it), head_can(it.head),
        !write_obj(v, db_key(k), enc_obj(obj_of(it))).clash,
    ensures #![trigger write_obj(v, db_key(k), enc_obj(obj_of(it))), fs_at(p), vx_flt(f)] shot(write_obj(v, db_key(k), enc_obj(obj_of(it))), k, p, f)
{
    broadcast use {ax_grows::lemma_write_grows};
    let w = write_obj(v, db_key(k), enc_obj(obj_of(it)));
    lemma_item_written(v, k, it);
    assert(grows(v, w));
    lemma_means_grows(v, w, it.kids[0], fs_at(p)->Some_0->File_0);
    lemma_shot_file(w, k, it, p, fs_at(p)->Some_0->File_0, f);
}
}
/// A term to name a filter by.
pub open spec fn vx_flt(f: &EntFilter) -> bool { true }
/// The names of the entries the filter lets through, in the order they are listed.
pub open spec fn kept_names(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter) -> Seq<Seq<u8>>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else {
        let a = kept_names(v.drop_last(), p, f);
        let n = v.last()->Ok_0.nm();
        if v.last() is Ok && f.says(p.push(n)) { a.push(n) } else { a }
    }
}
pub open spec fn listed(v: Seq<Result<DirEntry, std::io::Error>>, n: Seq<u8>) -> bool { exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Ok && v[j]->Ok_0.nm() == n }
pub proof fn lemma_kept_in(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter, n: Seq<u8>)
    ensures kept_names(v, p, f).contains(n) <==> listed(v, n) && f.says(p.push(n))
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        lemma_kept_in(w, p, f, n);
        let a = kept_names(w, p, f);
        let m = v.last()->Ok_0.nm();
        if listed(w, n) { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]) is Ok && w[j]->Ok_0.nm() == n; assert(v[j] == w[j]); }
        if listed(v, n) && !listed(w, n) {
            let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Ok && v[j]->Ok_0.nm() == n;
            if j < w.len() { assert(w[j] == v[j]); }
            assert(j == v.len() - 1);
        }
        if v.last() is Ok && f.says(p.push(m)) {
            assert(v[v.len() - 1] is Ok);
            assert(a.push(m).last() == m);
            if a.contains(n) { let i = a.index_of(n); assert(a.push(m)[i] == n); }
            if a.push(m).contains(n) && n != m { let i = a.push(m).index_of(n); assert(a[i] == n); }
            if n == m { assert(a.push(m).contains(n)); }
        }
    }
}
pub proof fn lemma_kept_nodup(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter)
    requires forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]) is Ok && (#[trigger] v[j]) is Ok ==> v[i]->Ok_0.nm() != v[j]->Ok_0.nm()
    ensures kept_names(v, p, f).no_duplicates()
    decreases v.len()
{
    if v.len() > 0 {
        let w = v.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < w.len() && (#[trigger] w[i]) is Ok && (#[trigger] w[j]) is Ok implies w[i]->Ok_0.nm() != w[j]->Ok_0.nm() by { assert(v[i] == w[i] && v[j] == w[j]); }
        lemma_kept_nodup(w, p, f);
        if v.last() is Ok {
            let m = v.last()->Ok_0.nm();
            lemma_kept_in(w, p, f, m);
            if listed(w, m) { let j = choose|j: int| 0 <= j < w.len() && (#[trigger] w[j]) is Ok && w[j]->Ok_0.nm() == m; assert(v[j] == w[j]); assert(v[v.len() - 1] is Ok); }
        }
    }
}
pub mod ax_names { use super::*;
pub broadcast proof fn lemma_kept_none(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter)
    ensures #[trigger] kept_names(v.take(0), p, f) == Seq::<Seq<u8>>::empty()
{ }
pub broadcast proof fn lemma_kept_step(v: Seq<Result<DirEntry, std::io::Error>>, i: int, j: int, p: Comps, f: &EntFilter)
    requires 0 <= i < v.len(), j == i + 1
    ensures #![trigger kept_names(v.take(i), p, f), kept_names(v.take(j), p, f)] kept_names(v.take(j), p, f) == (if v[i] is Ok && f.says(p.push(v[i]->Ok_0.nm())) { kept_names(v.take(i), p, f).push(v[i]->Ok_0.nm()) } else { kept_names(v.take(i), p, f) })
{ assert(v.take(i + 1).drop_last() =~= v.take(i)); }
pub broadcast proof fn lemma_entry_at(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, i: int)
    requires #[trigger] entries_of(v, p), 0 <= i < v.len(), v[i] is Ok
    ensures (#[trigger] v[i])->Ok_0.dir() == p, name_ok(v[i]->Ok_0.nm())
{ reveal(entries_of); }
/// All entries of the directory have been listed.
pub broadcast proof fn lemma_kept_all(v: Seq<Result<DirEntry, std::io::Error>>, p: Comps, f: &EntFilter)
    requires #[trigger] lists(v, p), all_ok(v), entries_of(v, p)
    ensures
        (#[trigger] kept_names(v, p, f)).no_duplicates(), all_names_ok(kept_names(v, p, f)), fs_at(p) is Some, fs_at(p)->Some_0 is Dir,
        forall|n: Seq<u8>| #![trigger kept_names(v, p, f).contains(n)] #![trigger fs_at(p)->Some_0->Dir_0.contains(n)] kept_names(v, p, f).contains(n) <==> fs_at(p)->Some_0->Dir_0.contains(n) && f.says(p.push(n)),
{
    reveal(lists); reveal(entries_of);
    let ns = fs_at(p)->Some_0->Dir_0;
    let k = kept_names(v, p, f);
    assert forall|i: int, j: int| 0 <= i < j < v.len() && (#[trigger] v[i]) is Ok && (#[trigger] v[j]) is Ok implies v[i]->Ok_0.nm() != v[j]->Ok_0.nm() by {
        assert(ent_names(v)[i] != ent_names(v)[j]);
    }
    lemma_kept_nodup(v, p, f);
    assert forall|n: Seq<u8>| #![trigger k.contains(n)] #![trigger ns.contains(n)] k.contains(n) <==> ns.contains(n) && f.says(p.push(n)) by {
        lemma_kept_in(v, p, f, n);
        if listed(v, n) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Ok && v[j]->Ok_0.nm() == n; assert(ent_names(v)[j] == n); }
        if ns.contains(n) { let j = ent_names(v).index_of(n); assert(v[j] is Ok); }
    }
    assert forall|i: int| 0 <= i < k.len() implies name_ok(#[trigger] k[i]) by {
        lemma_kept_in(v, p, f, k[i]);
        assert(k.contains(k[i]));
        let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]) is Ok && v[j]->Ok_0.nm() == k[i];
    }
}
}
// --- what lies below a stored directory ---------------------------------------
/// What `k` has at the path `q` below it: its key, and whether it is a directory.
pub open spec fn node(v: StoreV, k: Key, q: Comps) -> Option<(Key, bool)>
    decreases q.len()
{
    match item_at(v, k) {
        None => None,
        Some(it) => if q.len() == 0 { Some((k, it.head.is_dir)) }
            else if it.head.is_dir && it.head.names.contains(q[0]) { node(v, it.kids[it.head.names.index_of(q[0])], q.skip(1)) }
            else { None },
    }
}
/// The same, of the first `i` children of a directory.
pub open spec fn node_upto(v: StoreV, it: ItemV, i: int, q: Comps) -> Option<(Key, bool)> {
    if it.head.names.contains(q[0]) && it.head.names.index_of(q[0]) < i { node(v, it.kids[it.head.names.index_of(q[0])], q.skip(1)) } else { None }
}
pub proof fn lemma_prefix_split(p: Comps, q: Comps)
    requires is_prefix(p, q)
    ensures p + q.skip(p.len() as int) == q
{ assert(p + q.skip(p.len() as int) =~= q); }
pub proof fn lemma_prefix_push(p: Comps, n: Seq<u8>, q: Comps)
    requires is_prefix(p.push(n), q)
    ensures is_prefix(p, q), q.len() > p.len(), q[p.len() as int] == n, q.skip(p.len() as int)[0] == n, q.skip(p.len() as int).skip(1) == q.skip(p.len() as int + 1)
{
    assert(q.take(p.len() as int + 1)[p.len() as int] == n);
    assert(q.take(p.len() as int) =~= p) by { assert(q.take(p.len() as int + 1).take(p.len() as int) =~= p); assert(q.take(p.len() as int) =~= q.take(p.len() as int + 1).take(p.len() as int)); }
    assert(q.skip(p.len() as int).skip(1) =~= q.skip(p.len() as int + 1));
}
pub mod ax_join { use super::*;
pub broadcast proof fn lemma_join_name(p: Comps, raw: Seq<u8>)
    requires name_ok(raw)
    ensures #[trigger] pjoin(p, comps_of(raw)) == p.push(raw)
{ broadcast use ax_path::axiom_file_name; assert(p + seq![raw] =~= p.push(raw)); }
}
