/// `k` is the key of the content of the file at `p`, and is stored.
pub open spec fn file_hashed(v: StoreV, k: Key, p: Comps) -> bool {
    fs_at(p) matches Some(Ent::File(b)) && (k == filekey(b) && v.data.contains_key(db_key(k)))
}
