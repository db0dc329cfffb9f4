/// The number of newline characters.
pub open spec fn newlines(b: Seq<u8>) -> nat { b.filter(|x: u8| x == 10).len() }
/// The number of lines: pieces between newlines, none for empty text.
pub open spec fn nlines(b: Seq<u8>) -> nat { if b.len() == 0 { 0 } else { newlines(b) + 1 } }
pub uninterp spec fn nlines_s(s: Seq<char>) -> nat;
/// String::from_utf8_lossy: replaces only bytes that are not text; newlines stay as they are.
#[verifier::external_body]
pub fn vx_lossy(b: &[u8]) -> (r: String) ensures nlines_s(r@) == nlines(b@) { unimplemented!() }
/// The diff crate (assumed): an alignment of the lines of both texts.
pub mod diff {
    use super::*;
    pub enum Result<T> { Left(T), Both(T, T), Right(T) }
    #[verifier::external_body]
    pub fn lines<'a>(left: &'a str, right: &'a str) -> (r: Vec<Result<&'a str>>)
        ensures lefts(r@) + boths(r@) == nlines_s(left@), rights(r@) + boths(r@) == nlines_s(right@)
    { unimplemented!() }
    pub open spec fn lefts<T>(s: Seq<Result<T>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { lefts(s.drop_last()) + (if s.last() is Left { 1nat } else { 0 }) } }
    pub open spec fn rights<T>(s: Seq<Result<T>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { rights(s.drop_last()) + (if s.last() is Right { 1nat } else { 0 }) } }
    pub open spec fn boths<T>(s: Seq<Result<T>>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { boths(s.drop_last()) + (if s.last() is Both { 1nat } else { 0 }) } }
    pub proof fn lemma_counts<T>(s: Seq<Result<T>>, i: int)
        requires 0 <= i < s.len()
        ensures lefts(s.take(i + 1)) == lefts(s.take(i)) + (if s[i] is Left { 1nat } else { 0 }),
            rights(s.take(i + 1)) == rights(s.take(i)) + (if s[i] is Right { 1nat } else { 0 }),
            boths(s.take(i + 1)) == boths(s.take(i)) + (if s[i] is Both { 1nat } else { 0 }),
    { assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
    pub proof fn lemma_counts_le<T>(s: Seq<Result<T>>)
        ensures lefts(s) <= s.len(), rights(s) <= s.len(), boths(s) <= s.len() decreases s.len()
    { if s.len() > 0 { lemma_counts_le(s.drop_last()); } }
}
