// ---------------------------------------------------------------------------
// Assumed: serde_cbor + derived Serialize/Deserialize.
// ---------------------------------------------------------------------------
pub mod serde_bytes { pub type ByteBuf = Vec<u8>; }
/// serde_bytes::ByteBuf::from: the same bytes.
pub trait VxIntoBytes { spec fn bs(&self) -> Seq<u8>; }
impl<'a> VxIntoBytes for &'a [u8] { open spec fn bs(&self) -> Seq<u8> { self@ } }
impl VxIntoBytes for Vec<u8> { open spec fn bs(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vx_bytebuf<T: VxIntoBytes>(x: T) -> (r: Vec<u8>) ensures r@ == x.bs() { unimplemented!() }

pub uninterp spec fn enc_obj(o: ObjV) -> Seq<u8>;
pub uninterp spec fn dec_obj(b: Seq<u8>) -> Option<ObjV>;

pub mod ax_cbor { use super::*;
/// ASSUMED: decoding an encoded object gives the object back.
pub broadcast axiom fn axiom_cbor_obj(o: ObjV)
    ensures #[trigger] dec_obj(enc_obj(o)) == Some(o);
}

pub trait Cbor: Sized {
    spec fn cbor_enc(&self) -> Seq<u8>;
    spec fn cbor_dec(b: Seq<u8>, v: Self) -> bool;
    spec fn cbor_ok(b: Seq<u8>) -> bool;
    /// This value can be written.
    spec fn cbor_can(&self) -> bool;
}
/// A decoded but untyped value: known by the bytes it came from or stands for.
#[verifier::external_body]
pub struct CborValue { x: u8 }
impl CborValue { pub uninterp spec fn src(&self) -> Seq<u8>; }
pub mod serde_cbor {
    use super::*;
    pub mod error {
        #[verifier::external_body] pub struct Error { x: u8 }
        impl Error { #[verifier::external_body] pub fn custom(s: &str) -> Error { unimplemented!() } }
    }
    pub use error::Error;
    pub use super::CborValue as Value;
    pub mod value {
        use super::super::*;
        #[verifier::external_body]
        pub fn to_value<T: Cbor>(v: &T) -> (r: Result<CborValue, super::Error>)
            ensures r matches Ok(x) ==> x.src() == v.cbor_enc() && v.cbor_can(), v.cbor_can() ==> r is Ok
        { unimplemented!() }
        #[verifier::external_body]
        pub fn from_value<T: Cbor>(x: CborValue) -> (r: Result<T, super::Error>)
            ensures match r { Ok(v) => T::cbor_dec(x.src(), v), Err(_) => !T::cbor_ok(x.src()) }
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn to_vec<T: Cbor>(v: &T) -> (r: Result<Vec<u8>, Error>)
        ensures r matches Ok(b) ==> b@ == v.cbor_enc() && v.cbor_can(), v.cbor_can() ==> r is Ok
    { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice<T: Cbor>(b: &[u8]) -> (r: Result<T, Error>)
        ensures match r { Ok(v) => T::cbor_dec(b@, v), Err(_) => !T::cbor_ok(b@) }
    { unimplemented!() }
}
impl Cbor for Object {
    open spec fn cbor_enc(&self) -> Seq<u8> { enc_obj(self.v()) }
    open spec fn cbor_dec(b: Seq<u8>, v: Self) -> bool { dec_obj(b) == Some(v.v()) }
    open spec fn cbor_ok(b: Seq<u8>) -> bool { dec_obj(b) is Some }
    open spec fn cbor_can(&self) -> bool { true }
}
/// The untyped form keeps every byte string that a typed value can come from.
pub uninterp spec fn value_ok(b: Seq<u8>) -> bool;
impl Cbor for CborValue {
    open spec fn cbor_enc(&self) -> Seq<u8> { self.src() }
    open spec fn cbor_dec(b: Seq<u8>, v: Self) -> bool { v.src() == b }
    open spec fn cbor_ok(b: Seq<u8>) -> bool { value_ok(b) }
    open spec fn cbor_can(&self) -> bool { true }
}
impl Object {
    pub open spec fn v(&self) -> ObjV { ObjV { data: self.data@, keys: self.keys@, objtype: self.objtype } }
}
