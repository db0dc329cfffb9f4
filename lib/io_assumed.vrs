// ---------------------------------------------------------------------------
// Assumed: std::io::Read / Write, gearhash.
// ---------------------------------------------------------------------------
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExIoError(std::io::Error);
#[verifier::external_type_specification]
pub struct ExErrorKind(std::io::ErrorKind);
pub uninterp spec fn io_kind(e: &std::io::Error) -> std::io::ErrorKind;
pub assume_specification[ std::io::Error::kind ](e: &std::io::Error) -> (r: std::io::ErrorKind) ensures r == io_kind(e);
pub assume_specification[ <std::io::ErrorKind as PartialEq>::eq ](a: &std::io::ErrorKind, b: &std::io::ErrorKind) -> (r: bool) ensures r == (*a == *b);

/// A byte source: `left` is what it has still to deliver.
pub trait Read {
    spec fn left(&self) -> Seq<u8>;
    /// Any number of bytes up to the buffer's size; 0 only at the end of the input.
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize, std::io::Error>)
        ensures
            final(buf)@.len() == old(buf)@.len(),
            match r {
                Ok(n) => n <= old(buf)@.len() && n <= old(self).left().len()
                    && final(self).left() == old(self).left().skip(n as int)
                    && final(buf)@.take(n as int) == old(self).left().take(n as int)
                    && (n == 0 && old(buf)@.len() > 0 ==> old(self).left().len() == 0),
                Err(e) => final(self).left() == old(self).left(),
            };
}
/// r.read(&mut buf[at..])
#[verifier::external_body]
pub fn vx_read_from<R: Read>(r: &mut R, buf: &mut [u8], at: usize) -> (res: Result<usize, std::io::Error>)
    requires at <= old(buf)@.len()
    ensures
        final(buf)@.len() == old(buf)@.len(), final(buf)@.take(at as int) == old(buf)@.take(at as int),
        match res {
            Ok(n) => at + n <= old(buf)@.len() && n <= old(r).left().len()
                && final(r).left() == old(r).left().skip(n as int)
                && final(buf)@.subrange(at as int, at + n) == old(r).left().take(n as int)
                && (n == 0 && at < old(buf)@.len() ==> old(r).left().len() == 0),
            Err(e) => final(r).left() == old(r).left(),
        }
{ unimplemented!() }
/// A byte sink: `out` is what it has received.
pub trait Write {
    spec fn out(&self) -> Seq<u8>;
    /// Which sink this is.
    spec fn wid(&self) -> int;
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>)
        ensures final(self).wid() == old(self).wid(), r is Ok ==> final(self).out() == old(self).out() + buf@;
}
pub mod gearhash {
    use super::*;
    pub struct Table;
    /// ASSUMED: the rolling hash is some fixed function of its state and the bytes.
    pub uninterp spec fn gear(h: u64, buf: Seq<u8>, mask: u64) -> (Option<usize>, u64);
    pub mod ax_gear { use super::*;
    pub broadcast axiom fn axiom_gear_len(h: u64, buf: Seq<u8>, mask: u64)
        ensures #[trigger] gear(h, buf, mask).0 matches Some(n) ==> 0 < n <= buf.len();
    pub broadcast axiom fn axiom_gear_empty(h: u64, buf: Seq<u8>, mask: u64)
        ensures buf.len() == 0 ==> #[trigger] gear(h, buf, mask) == (None::<usize>, h);
    }
    pub exec static DEFAULT_TABLE: Table = Table;
    #[verifier::external_body]
    pub struct Hasher { x: u8 }
    impl Hasher {
        pub uninterp spec fn h(&self) -> u64;
        #[verifier::external_body]
        pub fn new(t: &Table) -> (r: Self) ensures r.h() == 0 { unimplemented!() }
        #[verifier::external_body]
        pub fn next_match(&mut self, buf: &[u8], mask: u64) -> (r: Option<usize>)
            ensures (r, final(self).h()) == gear(old(self).h(), buf@, mask), r matches Some(n) ==> 0 < n <= buf@.len() && final(self).h() & mask == 0,
                buf@.len() == 0 ==> r is None && final(self).h() == old(self).h()
        { unimplemented!() }
        #[verifier::external_body]
        pub fn get_hash(&self) -> (r: u64) ensures r == self.h() { unimplemented!() }
    }
}
impl Write for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    open spec fn wid(&self) -> int { 0 }
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<(), std::io::Error>) { self.extend_from_slice(buf); Ok(()) }
}
