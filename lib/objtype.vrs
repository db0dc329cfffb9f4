impl Copy for ObjType {}
impl Clone for ObjType { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
