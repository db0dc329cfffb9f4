// ---------------------------------------------------------------------------
// Assumed: globset.  A pattern matches a path or not; a set of patterns matches when one of them does.
// ---------------------------------------------------------------------------
/// The pattern matches the path with these components.
pub uninterp spec fn glob_hits(pat: Seq<char>, p: Comps) -> bool;
pub open spec fn some_hit(pats: Seq<Seq<char>>, p: Comps) -> bool { exists|i: int| 0 <= i < pats.len() && glob_hits(#[trigger] pats[i], p) }
/// What can be used where AsRef<str> is asked for.
pub trait VxAsStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.sv();
}
impl VxAsStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { self.as_str() }
}
pub open spec fn texts<T: VxAsStr>(v: Seq<T>) -> Seq<Seq<char>> { v.map_values(|x: T| x.sv()) }
pub mod globset {
    use super::*;
    #[verifier::external_body] #[derive(Debug)] pub struct Error { x: u8 }
    #[verifier::external_body] pub struct Glob { x: u8 }
    impl Glob {
        pub uninterp spec fn pat(&self) -> Seq<char>;
        #[verifier::external_body]
        pub fn new(p: &str) -> (r: Result<Glob, Error>) ensures r matches Ok(g) ==> g.pat() == p@ { unimplemented!() }
    }
    #[verifier::external_body] pub struct GlobSetBuilder { x: u8 }
    impl GlobSetBuilder {
        pub uninterp spec fn pats(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn new() -> (r: GlobSetBuilder) ensures r.pats() == Seq::<Seq<char>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn add(&mut self, g: Glob) ensures final(self).pats() == old(self).pats().push(g.pat()) { unimplemented!() }
        #[verifier::external_body]
        pub fn build(&self) -> (r: Result<GlobSet, Error>) ensures r matches Ok(s) ==> s.pats() == self.pats() { unimplemented!() }
    }
    #[verifier::external_body] pub struct GlobSet { x: u8 }
    impl GlobSet {
        pub uninterp spec fn pats(&self) -> Seq<Seq<char>>;
        #[verifier::external_body]
        pub fn is_match<P: VxPath>(&self, p: P) -> (r: bool) ensures r == some_hit(self.pats(), p.pv()) { unimplemented!() }
    }
}
pub mod ax_glob { use super::*;
/// ASSUMED: the path "./" is the single component ".".
pub broadcast axiom fn axiom_dot(s: Seq<char>)
    ensures (s == "./"@ || s == "."@) ==> #[trigger] str_comps(s) == seq![seq![46u8]];
}
/// The path as patterns see it: without a leading ".".
pub open spec fn undotted(p: Comps) -> Comps { if is_prefix(seq![seq![46u8]], p) { p.skip(1) } else { p } }
/// What the filter lets through: not the database folder, nothing inside it, nothing that a pattern matches.
pub open spec fn lets(pats: Seq<Seq<char>>, db: Comps, p: Comps) -> bool {
    !is_prefix(canon(db), canon(p)) && !some_hit(pats, undotted(p))
}
pub open spec fn filters(f: &EntFilter, pats: Seq<Seq<char>>, db: Comps) -> bool { forall|d: DirEntry| #[trigger] f.says(d.pth()) == lets(pats, db, d.pth()) }
/// ASSUMED: the filter gives the same answer for a path whenever it is asked, as its closure's contract says.
#[verifier::external_body]
pub fn vx_box_filter<F: Fn(&DirEntry) -> bool>(f: F) -> (r: EntFilter)
    requires forall|d: &DirEntry| #[trigger] f.requires((d,))
    ensures forall|d: DirEntry| f.ensures((&d,), #[trigger] r.says(d.pth()))
{ unimplemented!() }
