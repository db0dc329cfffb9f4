// Assumed: the derived Clone/PartialEq of Key (derive output is structural).
impl Copy for Key {}
impl Clone for Key { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Key {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Key) -> bool { *self == *o }
}
impl PartialEq for Key { #[verifier::external_body] fn eq(&self, o: &Key) -> (r: bool) ensures r == (*self == *o) { unimplemented!() } }
impl Eq for Key {}
impl<T> Copy for TypedKey<T> {}
impl<T> Clone for TypedKey<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub mod ax_cloned_key { use super::*;
pub broadcast proof fn lemma_seq_cloned_keys(a: Seq<Key>, b: Seq<Key>)
    ensures #[trigger] seq_cloned(a, b) ==> a == b
{ if seq_cloned(a, b) { assert(a =~= b); } }
}
