pub struct AttrsV { pub message: Seq<char>, pub extra: Map<Seq<char>, Seq<u8>> }
pub struct CommitV { pub tree: Key, pub parents: Seq<Key>, pub attrs: AttrsV }
pub uninterp spec fn extra_of(m: &HashMap<String, CborValue>) -> Map<Seq<char>, Seq<u8>>;
impl CommitAttrs {
    pub open spec fn v(&self) -> AttrsV { AttrsV { message: self.message@, extra: extra_of(&self.extra) } }
    /// The derived Default.
    #[verifier::external_body]
    pub fn default() -> (r: CommitAttrs) ensures r.message@ == Seq::<char>::empty(), extra_of(&r.extra) == Map::<Seq<char>, Seq<u8>>::empty() { unimplemented!() }
}
pub uninterp spec fn enc_attrs(a: CommitAttrs) -> Seq<u8>;
pub uninterp spec fn dec_attrs(b: Seq<u8>) -> Option<AttrsV>;
impl Cbor for CommitAttrs {
    open spec fn cbor_enc(&self) -> Seq<u8> { enc_attrs(*self) }
    open spec fn cbor_dec(b: Seq<u8>, v: Self) -> bool { dec_attrs(b) == Some(v.v()) }
    open spec fn cbor_ok(b: Seq<u8>) -> bool { dec_attrs(b) is Some }
    open spec fn cbor_can(&self) -> bool { true }
}
pub mod ax_attrs { use super::*;
/// ASSUMED: decoding encoded attributes gives the attributes back, also by way of an untyped value.
pub broadcast axiom fn axiom_attrs(a: CommitAttrs)
    ensures dec_attrs(#[trigger] enc_attrs(a)) == Some(a.v());
pub broadcast axiom fn axiom_attrs_value(b: Seq<u8>)
    ensures #[trigger] dec_attrs(b) is Some ==> value_ok(b);
}
impl Commit {
    pub open spec fn v(&self) -> CommitV { CommitV { tree: self.tree.inner, parents: inners(self.parents@), attrs: self.attrs.v() } }
}
pub open spec fn inners(s: Seq<TypedKey<Commit>>) -> Seq<Key> { s.map_values(|k: TypedKey<Commit>| k.inner) }
/// The commit an object stands for.
pub open spec fn commit_of(o: ObjV) -> Option<CommitV> {
    if o.objtype == ObjType::Commit && o.keys.len() > 0 && dec_attrs(o.data) is Some {
        Some(CommitV { tree: o.keys[0], parents: o.keys.skip(1), attrs: dec_attrs(o.data).unwrap() })
    } else { None }
}
pub open spec fn commit_at(v: StoreV, k: Key) -> Option<CommitV> {
    match lookup(v, k) { Some(o) => commit_of(o), None => None }
}
/// `b` is `a`, sorted.
pub open spec fn sorted_of(a: Seq<Key>, b: Seq<Key>) -> bool {
    a.to_multiset() == b.to_multiset() && forall|i: int, j: int| 0 <= i <= j < b.len() ==> key_le(#[trigger] b[i], #[trigger] b[j])
}
/// The order on keys (derived Ord).
pub uninterp spec fn key_le(a: Key, b: Key) -> bool;
pub trait VxSort { spec fn ks(&self) -> Seq<Key>;
    /// Vec::sort.
    fn vx_sort(&mut self) ensures sorted_of(old(self).ks(), final(self).ks()); }
impl VxSort for Vec<TypedKey<Commit>> {
    open spec fn ks(&self) -> Seq<Key> { inners(self@) }
    #[verifier::external_body]
    fn vx_sort(&mut self) { unimplemented!() }
}
/// `k` names, in `v`, a commit of `tree` and `attrs` whose parents are `ps` in order.
pub open spec fn commit_is(v: StoreV, k: Key, tree: Key, ps: Seq<Key>, attrs: AttrsV) -> bool {
    lookup(v, k) matches Some(o) && commit_obj_is(o, tree, ps, attrs)
}
pub open spec fn commit_obj_is(o: ObjV, tree: Key, ps: Seq<Key>, attrs: AttrsV) -> bool {
    commit_of(o) matches Some(c) && c.tree == tree && c.attrs == attrs && sorted_of(ps, c.parents)
}
/// No parent, and a single one, are their own sorted order.
pub proof fn lemma_sorted_small(a: Seq<Key>, b: Seq<Key>)
    requires sorted_of(a, b), a.len() <= 1
    ensures b == a
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() == 1 { assert(a.to_multiset().count(a[0]) == 1) by { assert(a.contains(a[0])); } assert(b.contains(a[0])); }
    assert(b =~= a);
}
/// The same commit is read from every later state of the store.
pub proof fn lemma_commit_stays(a: StoreV, b: StoreV, k: Key)
    requires grows(a, b), commit_at(a, k) is Some
    ensures commit_at(b, k) == commit_at(a, k)
{ reveal(grows); assert(a.data.contains_key(db_key(k))); assert(b.data.contains_key(db_key(k))); }
