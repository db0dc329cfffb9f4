// ---------------------------------------------------------------------------
// Abstract view of a data store, and the meaning of stored objects.
// Specification only: nothing in this file is executable code of snapcd.
// ---------------------------------------------------------------------------

pub struct RefEntV { pub refname: Seq<char>, pub remote: Option<Seq<char>>, pub key: Seq<u8> }

/// What a data store holds.  `clash` records that some write found different
/// bytes already stored under the same key (a hash collision, or corruption).
pub struct StoreV {
    pub data: Map<Seq<u8>, Seq<u8>>,
    pub state: Map<Seq<u8>, Seq<u8>>,
    pub reflog: Seq<RefEntV>,
    pub clash: bool,
}

/// The connection behind a store: does the database work, which file is it, and what did it hold when the open transaction began.
pub struct CtxV { pub healthy: bool, pub file: int, pub saved: Option<StoreV> }

pub struct ObjV { pub data: Seq<u8>, pub keys: Seq<Key>, pub objtype: ObjType }

pub uninterp spec fn blake3_of(b: Seq<u8>) -> Key;

/// A write of `b` under `k`: nothing already stored changes.
pub open spec fn write_obj(v: StoreV, k: Seq<u8>, b: Seq<u8>) -> StoreV {
    StoreV {
        data: if v.data.contains_key(k) { v.data } else { v.data.insert(k, b) },
        clash: v.clash || (v.data.contains_key(k) && v.data[k] != b),
        ..v
    }
}

/// `b` only adds objects to `a`.
#[verifier::opaque]
pub open spec fn grows(a: StoreV, b: StoreV) -> bool {
    &&& forall|k: Seq<u8>| #![trigger a.data.contains_key(k)] #![trigger b.data.contains_key(k)] #![trigger b.data[k]]
            a.data.contains_key(k) ==> b.data.contains_key(k) && b.data[k] == a.data[k]
    &&& a.state == b.state
    &&& a.reflog == b.reflog
    &&& (a.clash ==> b.clash)
}

pub mod ax_grows { use super::*;
pub broadcast proof fn lemma_grows_trans(a: StoreV, b: StoreV, c: StoreV)
    requires #[trigger] grows(a, b), #[trigger] grows(b, c)
    ensures grows(a, c)
{ reveal(grows); }
pub broadcast proof fn lemma_write_grows(v: StoreV, k: Seq<u8>, b: Seq<u8>)
    ensures grows(v, #[trigger] write_obj(v, k, b))
{ reveal(grows); }
pub broadcast proof fn lemma_grows_refl(v: StoreV)
    ensures #[trigger] grows(v, v)
{ reveal(grows); }
pub broadcast proof fn lemma_grows_clash(a: StoreV, b: StoreV)
    requires #[trigger] grows(a, b), a.clash
    ensures b.clash
{ reveal(grows); }
}

pub open spec fn lookup(v: StoreV, k: Key) -> Option<ObjV> {
    if v.data.contains_key(db_key(k)) { dec_obj(v.data[db_key(k)]) } else { None }
}

/// The bytes a key stands for, with a bound on the nesting of trees.
pub open spec fn flat(v: StoreV, k: Key, depth: nat) -> Option<Seq<u8>>
    decreases depth, 0nat
{
    if depth == 0 { None } else {
        match lookup(v, k) {
            None => None,
            Some(o) => match o.objtype {
                ObjType::FileBlob => Some(o.data),
                ObjType::FileBlobTree => flat_all(v, o.keys, (depth - 1) as nat),
                ObjType::FSItemFile => if o.keys.len() == 1 { flat(v, o.keys[0], (depth - 1) as nat) } else { None },
                _ => None,
            },
        }
    }
}

pub open spec fn flat_all(v: StoreV, ks: Seq<Key>, depth: nat) -> Option<Seq<u8>>
    decreases depth, 1 + ks.len()
{
    if ks.len() == 0 { Some(Seq::<u8>::empty()) } else {
        match (flat_all(v, ks.drop_last(), depth), flat(v, ks.last(), depth)) {
            (Some(a), Some(b)) => Some(a + b),
            _ => None,
        }
    }
}

/// Key `k` stands for exactly the bytes `b`.
pub open spec fn means(v: StoreV, k: Key, b: Seq<u8>) -> bool {
    exists|d: nat| #[trigger] flat(v, k, d) == Some(b)
}

pub proof fn lemma_flat_mono(a: StoreV, b: StoreV, k: Key, d: nat, e: nat)
    requires grows(a, b), d <= e, flat(a, k, d) is Some
    ensures flat(b, k, e) == flat(a, k, d)
    decreases d, 0nat
{
    reveal(grows);
    let o = lookup(a, k).unwrap();
    assert(lookup(b, k) == lookup(a, k)) by { assert(a.data.contains_key(db_key(k))); assert(b.data.contains_key(db_key(k))); }
    match o.objtype {
        ObjType::FileBlobTree => { lemma_flat_all_mono(a, b, o.keys, (d - 1) as nat, (e - 1) as nat); }
        ObjType::FSItemFile => { lemma_flat_mono(a, b, o.keys[0], (d - 1) as nat, (e - 1) as nat); }
        _ => {}
    }
}

pub proof fn lemma_flat_all_mono(a: StoreV, b: StoreV, ks: Seq<Key>, d: nat, e: nat)
    requires grows(a, b), d <= e, flat_all(a, ks, d) is Some
    ensures flat_all(b, ks, e) == flat_all(a, ks, d)
    decreases d, 1 + ks.len()
{
    if ks.len() > 0 {
        lemma_flat_all_mono(a, b, ks.drop_last(), d, e);
        lemma_flat_mono(a, b, ks.last(), d, e);
    }
}

pub proof fn lemma_flat_all_push(v: StoreV, ks: Seq<Key>, k: Key, d: nat)
    ensures flat_all(v, ks.push(k), d) == (match (flat_all(v, ks, d), flat(v, k, d)) { (Some(a), Some(b)) => Some(a + b), _ => None })
{
    assert(ks.push(k).drop_last() =~= ks);
    assert(ks.push(k).last() == k);
    reveal_with_fuel(flat_all, 2);
}

pub proof fn lemma_means_unique(v: StoreV, k: Key, x: Seq<u8>, y: Seq<u8>)
    requires means(v, k, x), means(v, k, y)
    ensures x == y
{
    broadcast use ax_grows::lemma_grows_refl;
    let d = choose|d: nat| flat(v, k, d) == Some(x);
    let e = choose|e: nat| flat(v, k, e) == Some(y);
    if d <= e { lemma_flat_mono(v, v, k, d, e); } else { lemma_flat_mono(v, v, k, e, d); }
}
