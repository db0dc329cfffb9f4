// Strings: Verus views str/String as Seq<char>; vstd defines their UTF-8 encoding.
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub mod ax_utf8 { use super::*;
pub broadcast proof fn lemma_utf8_injective(a: Seq<char>, b: Seq<char>)
    ensures #![trigger utf8(a), utf8(b)] utf8(a) == utf8(b) ==> a == b
{
    vstd::utf8::encode_utf8_decode_utf8(a);
    vstd::utf8::encode_utf8_decode_utf8(b);
}
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => utf8(s@) == v@, Err(_) => forall|s: Seq<char>| utf8(s) != v@ };
pub trait VxStr {
    /// str::bytes.
    fn vx_bytes(&self) -> (r: Vec<u8>);
}
impl VxStr for str {
    #[verifier::external_body]
    fn vx_bytes(&self) -> (r: Vec<u8>) ensures r@ == utf8(self@) { self.bytes().collect() }
}
