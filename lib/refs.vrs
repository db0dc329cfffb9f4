// Ref histories, HEAD, key listings: specification vocabulary.
pub open spec fn head_key() -> Seq<u8> { seq![72u8, 69u8, 65u8, 68u8] }
pub open spec fn opt_str(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn opt_string(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// No NUL character (a command-line argument never has one).
pub open spec fn no_nul(s: Seq<char>) -> bool { !s.contains('\0') }
pub open spec fn no_nul_opt(o: Option<Seq<char>>) -> bool { o matches Some(s) ==> no_nul(s) }
pub open spec fn opt_bytes(o: Option<&[u8]>) -> Option<Seq<u8>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn ref_ent(r: Reflog) -> RefEntV {
    RefEntV { refname: r.refname@, remote: opt_string(r.remote), key: db_key(r.key.inner) }
}
pub open spec fn ref_is(e: RefEntV, name: Seq<char>, remote: Option<Seq<char>>) -> bool { e.refname == name && e.remote == remote }
/// The keys recorded for a ref, most recent first.
pub open spec fn ref_history(log: Seq<RefEntV>, name: Seq<char>, remote: Option<Seq<char>>) -> Seq<Seq<u8>>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else {
        let rest = ref_history(log.drop_last(), name, remote);
        if ref_is(log.last(), name, remote) { seq![log.last().key] + rest } else { rest }
    }
}
pub open spec fn ref_latest(log: Seq<RefEntV>, name: Seq<char>, remote: Option<Seq<char>>) -> Option<Seq<u8>> {
    let h = ref_history(log, name, remote);
    if h.len() == 0 { None } else { Some(h[0]) }
}

pub open spec fn ref_keys_ok(log: Seq<RefEntV>) -> bool { forall|i: int| 0 <= i < log.len() ==> exists|k: Key| #[trigger] db_key(k) == (#[trigger] log[i]).key }

/// Lexicographic order on byte strings (the order of stored keys).
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] }
    else { lex_lt(a.drop_first(), b.drop_first()) }
}
pub open spec fn in_range(k: Seq<u8>, start: Seq<u8>, end: Option<Seq<u8>>) -> bool {
    !lex_lt(k, start) && (end matches Some(e) ==> lex_lt(k, e))
}
/// `v` lists exactly the stored keys in the range, each once.
pub open spec fn is_listing_of(v: Seq<Vec<u8>>, st: StoreV, start: Seq<u8>, end: Option<Seq<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> st.data.contains_key(#[trigger] v[i]@) && in_range(v[i]@, start, end)
    &&& forall|k: Seq<u8>| st.data.contains_key(k) && #[trigger] in_range(k, start, end) ==> exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == k
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i]@ != #[trigger] v[j]@
}

/// Every object is stored under the storage form of some key.
pub open spec fn keys_ok(v: StoreV) -> bool {
    forall|b: Seq<u8>| #[trigger] v.data.contains_key(b) ==> exists|k: Key| db_key(k) == b
}
pub open spec fn stored(v: StoreV, k: Key) -> bool { v.data.contains_key(db_key(k)) }
/// The stored keys a request may stand for.
pub open spec fn matches_req(v: StoreV, s: Keyish, k: Key) -> bool {
    match s {
        Keyish::Key(_, b) => stored(v, k) && db_key(k) == b@,
        Keyish::Range(_, a, b) => stored(v, k) && in_range(db_key(k), a@, match b { Some(x) => Some(x@), None => None }),
        Keyish::Reflog { orig, remote, keyname } => ref_latest(v.reflog, keyname@, opt_string(remote)) == Some(db_key(k)),
    }
}
pub open spec fn resolves(v: StoreV, s: Keyish, r: Result<Key, CanonicalizeError>) -> bool {
    match r {
        Ok(k) => matches_req(v, s, k) && forall|o: Key| matches_req(v, s, o) ==> o == k,
        Err(CanonicalizeError::NotFound(_)) => forall|o: Key| !matches_req(v, s, o),
        Err(CanonicalizeError::Ambigious(_, ks)) => {
            &&& ks@.len() >= 2
            &&& forall|o: Key| matches_req(v, s, o) <==> ks@.contains(o)
            &&& forall|i: int, j: int| 0 <= i < j < ks@.len() ==> #[trigger] ks@[i] != #[trigger] ks@[j]
        }
        Err(CanonicalizeError::GetReflogError(_)) => s is Reflog,
        Err(_) => false,
    }
}
/// A push shows in its own ref's history and in no other.
pub proof fn lemma_push_history(log: Seq<RefEntV>, e: RefEntV, name: Seq<char>, remote: Option<Seq<char>>)
    ensures
        ref_is(e, name, remote) ==> ref_history(log.push(e), name, remote) == seq![e.key] + ref_history(log, name, remote),
        !ref_is(e, name, remote) ==> ref_history(log.push(e), name, remote) == ref_history(log, name, remote),
        ref_latest(log.push(e), e.refname, e.remote) == Some(e.key),
{ assert(log.push(e).drop_last() =~= log); reveal_with_fuel(ref_history, 2); }
