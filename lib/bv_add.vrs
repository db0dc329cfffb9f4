// Assumed: adding one to a bit string that is not all ones (bitvec's AddAssign).
impl vstd::std_specs::ops::AddAssignSpecImpl<BitVec<Msb0, u8>> for BitVec<Msb0, u8> {
    open spec fn obeys_add_assign_spec() -> bool { true }
    open spec fn add_assign_req(&self, rhs: BitVec<Msb0, u8>) -> bool { rhs@.len() == 1 && rhs@[0] && self@.len() > 0 && exists|i: int| 0 <= i < self@.len() && !#[trigger] self@[i] }
    open spec fn add_assign_spec(&self, rhs: BitVec<Msb0, u8>) -> &BitVec<Msb0, u8> { &bv_plus_one(*self) }
}
pub uninterp spec fn bv_plus_one(a: BitVec<Msb0, u8>) -> BitVec<Msb0, u8>;
pub mod ax_bvadd { use super::*;
pub broadcast axiom fn axiom_bv_plus_one(a: BitVec<Msb0, u8>)
    requires exists|i: int| 0 <= i < a@.len() && !#[trigger] a@[i]
    ensures (#[trigger] bv_plus_one(a))@.len() == a@.len(), bval(bv_plus_one(a)@) == bval(a@) + 1, bv_clean(a) ==> bv_clean(bv_plus_one(a));
}
impl core::ops::AddAssign<BitVec<Msb0, u8>> for BitVec<Msb0, u8> {
    #[verifier::external_body]
    fn add_assign(&mut self, rhs: BitVec<Msb0, u8>) { unimplemented!() }
}
