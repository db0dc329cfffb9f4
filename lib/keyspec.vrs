pub open spec fn key_bytes(k: Key) -> Seq<u8> {
    match k { Key::Blake3B(b) => b@ }
}

/// The storage form of a key: hash id 1, then the 32 hash bytes.
pub open spec fn db_key(k: Key) -> Seq<u8> {
    seq![1u8] + key_bytes(k)
}

pub proof fn lemma_db_key_injective(a: Key, b: Key)
    requires db_key(a) == db_key(b)
    ensures a == b
{
    assert(key_bytes(a) =~= db_key(a).subrange(1, db_key(a).len() as int));
    assert(key_bytes(b) =~= db_key(b).subrange(1, db_key(b).len() as int));
    match (a, b) { (Key::Blake3B(x), Key::Blake3B(y)) => { assert(x@ == y@); assert(x =~= y); } }
}

