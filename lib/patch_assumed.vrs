// ---------------------------------------------------------------------------
// Assumed: the crates patch, diff and difference, and what the code uses of std and itertools.
// ---------------------------------------------------------------------------
pub mod patch {
    use super::*;
    #[verifier::external_body]
    pub struct Meta { x: u8 }
    impl Clone for Meta { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    /// Path::to_string_lossy gives a Cow<str>.
    pub struct File { pub path: crate::PathStr, pub meta: Option<Meta> }
    pub struct Range { pub start: u64, pub count: u64 }
    pub enum Line<'a> { Add(&'a str), Remove(&'a str), Context(&'a str) }
    pub struct Hunk<'a> { pub old_range: Range, pub new_range: Range, pub lines: Vec<Line<'a>> }
    pub struct Patch<'a> { pub old: File, pub new: File, pub hunks: Vec<Hunk<'a>>, pub end_newline: bool }
}
pub open spec fn range_v(r: patch::Range) -> RangeV { RangeV { start: r.start as int, count: r.count as int } }
pub open spec fn line_ed(l: patch::Line) -> Ed { match l { patch::Line::Add(x) => Ed::Add(x@), patch::Line::Remove(x) => Ed::Rem(x@), patch::Line::Context(x) => Ed::Same(x@) } }
pub open spec fn line_eds(s: Seq<patch::Line>) -> Seq<Ed> { s.map_values(|l: patch::Line| line_ed(l)) }
pub open spec fn hunk_v(h: patch::Hunk) -> HunkV { HunkV { old: range_v(h.old_range), new: range_v(h.new_range), lines: line_eds(h.lines@) } }
pub open spec fn hunks_v(s: Seq<patch::Hunk>) -> Seq<HunkV> { s.map_values(|h: patch::Hunk| hunk_v(h)) }
pub open spec fn patch_v(p: patch::Patch) -> PatchV { PatchV { old: p.old.path@, new: p.new.path@, times: p.old.meta is Some || p.new.meta is Some, hunks: hunks_v(p.hunks@), end_newline: p.end_newline } }
impl<'a> VxShow for patch::Patch<'a> { open spec fn shown(&self) -> Seq<char> { patch_text(patch_v(*self)) } }
#[verifier::external_body]
pub struct PathStr { x: String }
impl View for PathStr { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Clone for PathStr { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Path { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: PathStr) ensures r@ == lossy_path(self.raw()) { unimplemented!() } }
/// A line of a patch, from what dereferences to its text.
pub trait VxLine<'a>: Sized { spec fn lt(self) -> Seq<char>; fn ln(self) -> (r: &'a str) ensures r@ == self.lt(); }
impl<'a> VxLine<'a> for &'a str { open spec fn lt(self) -> Seq<char> { self@ } fn ln(self) -> (r: &'a str) { self } }
impl<'a> VxLine<'a> for &'a String { open spec fn lt(self) -> Seq<char> { self@ } #[verifier::external_body] fn ln(self) -> (r: &'a str) { self } }
impl<'a, 'b> VxLine<'a> for &'b &'a String { open spec fn lt(self) -> Seq<char> { self@ } #[verifier::external_body] fn ln(self) -> (r: &'a str) { self } }
impl<'a, 'b> VxLine<'a> for &'b &'a str { open spec fn lt(self) -> Seq<char> { self@ } #[verifier::external_body] fn ln(self) -> (r: &'a str) { self } }
pub fn vx_add<'a, T: VxLine<'a>>(t: T) -> (r: patch::Line<'a>) ensures line_ed(r) == Ed::Add(t.lt()) { patch::Line::Add(t.ln()) }
pub fn vx_remove<'a, T: VxLine<'a>>(t: T) -> (r: patch::Line<'a>) ensures line_ed(r) == Ed::Rem(t.lt()) { patch::Line::Remove(t.ln()) }
pub fn vx_context<'a, T: VxLine<'a>>(t: T) -> (r: patch::Line<'a>) ensures line_ed(r) == Ed::Same(t.lt()) { patch::Line::Context(t.ln()) }
pub mod difference { pub enum Difference { Same(String), Add(String), Rem(String) } }
pub open spec fn diff_ed(d: difference::Difference) -> Ed { match d { difference::Difference::Same(x) => Ed::Same(x@), difference::Difference::Add(x) => Ed::Add(x@), difference::Difference::Rem(x) => Ed::Rem(x@) } }
pub open spec fn texts_of(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
pub mod diff {
    use super::*;
    pub enum Result<T> { Left(T), Both(T, T), Right(T) }
    pub open spec fn ed(d: Result<&String>) -> Ed { match d { Result::Left(x) => Ed::Rem(x@), Result::Right(x) => Ed::Add(x@), Result::Both(x, y) => Ed::Same(x@) } }
    pub open spec fn eds(s: Seq<Result<&String>>) -> Seq<Ed> { s.map_values(|d: Result<&String>| ed(d)) }
    /// An alignment of two lists: what both have is equal.
    #[verifier::external_body]
    pub fn slice<'a>(left: &'a Vec<String>, right: &'a Vec<String>) -> (r: Vec<Result<&'a String>>)
        ensures olds(eds(r@)) == texts_of(left@), news(eds(r@)) == texts_of(right@), r@.len() <= isize::MAX,
            forall|i: int| 0 <= i < r@.len() ==> ((#[trigger] r@[i]) matches Result::Both(x, y) ==> x@ == y@)
    { unimplemented!() }
}
/// `s[a..=b]`: the program stops when that is out of range.
#[verifier::external_body]
pub fn vx_slice_incl<T>(s: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b < s@.len() ensures r@ == s@.subrange(a as int, b + 1), forall|k: int| a <= k <= b ==> r@.contains(#[trigger] s@[k]) { unimplemented!() }
/// `s[a..b]`: the same.
#[verifier::external_body]
pub fn vx_slice_excl<T>(s: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int), forall|k: int| a <= k < b ==> r@.contains(#[trigger] s@[k]) { unimplemented!() }
pub trait VxMin: Sized { spec fn mn(self, o: Self) -> Self; fn vx_min(self, o: Self) -> (r: Self) ensures r == self.mn(o); }
impl VxMin for usize { open spec fn mn(self, o: usize) -> usize { if self <= o { self } else { o } } fn vx_min(self, o: usize) -> (r: usize) { if self <= o { self } else { o } } }
pub trait VxEnum<T>: Sized {
    #[verifier::prophetic] spec fn eitems(&self) -> Seq<T>;
    /// Iterator::enumerate.
    fn vx_enumerate(self) -> (r: Vec<(usize, T)>) ensures r@.len() == self.eitems().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == i && r@[i].1 == self.eitems()[i];
}
impl<'a, T> VxEnum<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn eitems(&self) -> Seq<&'a T> { self.remaining() }
    #[verifier::external_body] fn vx_enumerate(self) -> (r: Vec<(usize, &'a T)>) { unimplemented!() }
}
/// What a loop goes over.
pub trait VxItems<T>: Sized { #[verifier::prophetic] spec fn goes(self, s: Seq<T>) -> bool; fn vx_items(self) -> (r: Vec<T>) ensures self.goes(r@); }
pub fn vx_goes<T, S: VxItems<T>>(s: S) -> (r: Vec<T>) ensures s.goes(r@) { s.vx_items() }
impl<'a, T> VxItems<&'a T> for &'a Vec<T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<&'a T>) -> bool { s.len() == self@.len() && forall|i: int| 0 <= i < s.len() ==> *(#[trigger] s[i]) == self@[i] }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<'a, T> VxItems<&'a T> for core::slice::Iter<'a, T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<&'a T>) -> bool { s == self.remaining() }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<&'a T>) { unimplemented!() }
}
impl<T> VxItems<T> for Vec<T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<T>) -> bool { s == self@ }
    fn vx_items(self) -> (r: Vec<T>) { self }
}
impl<T> VxItems<T> for VxIt<T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<T>) -> bool { s == self@ }
    fn vx_items(self) -> (r: Vec<T>) { self.v }
}
/// itertools::group_by: runs of neighbours with the same key.
pub struct VxGroups<K, T> { pub v: Vec<(K, Vec<T>)> }
pub open spec fn starts<K, T>(v: Seq<(K, Vec<T>)>, g: int) -> int decreases g { if g <= 0 { 0 } else { starts(v, g - 1) + v[g - 1].1@.len() } }
pub open spec fn group_at<K, T>(s: Seq<T>, v: Seq<(K, Vec<T>)>, g: int) -> bool {
    starts(v, g + 1) <= s.len() && v[g].1@.len() > 0 && v[g].1@ == s.subrange(starts(v, g), starts(v, g + 1))
}
pub open spec fn runs<K, T>(s: Seq<T>, v: Seq<(K, Vec<T>)>) -> bool { starts(v, v.len() as int) == s.len() && forall|g: int| 0 <= g < v.len() ==> #[trigger] group_at(s, v, g) }
pub trait VxGroup<T>: Sized {
    #[verifier::prophetic] spec fn gitems(&self) -> Seq<T>;
    fn vx_group_by<K, F: Fn(&T) -> K>(self, f: F) -> (r: VxGroups<K, T>)
        requires forall|i: int| 0 <= i < self.gitems().len() ==> call_requires(f, (&(#[trigger] self.gitems()[i]),))
        ensures runs(self.gitems(), r.v@), forall|g: int, i: int| 0 <= g < r.v@.len() && 0 <= i < r.v@[g].1@.len() ==> call_ensures(f, (&(#[trigger] r.v@[g].1@[i]),), r.v@[g].0);
}
impl<T> VxGroup<T> for std::vec::IntoIter<T> {
    #[verifier::prophetic] open spec fn gitems(&self) -> Seq<T> { self.remaining() }
    #[verifier::external_body]
    fn vx_group_by<K, F: Fn(&T) -> K>(self, f: F) -> (r: VxGroups<K, T>) { unimplemented!() }
}
impl<'a, K: Copy, T> VxItems<(K, VxIt<T>)> for &'a VxGroups<K, T> {
    #[verifier::prophetic] open spec fn goes(self, s: Seq<(K, VxIt<T>)>) -> bool { s.len() == self.v@.len() && forall|g: int| 0 <= g < s.len() ==> (#[trigger] s[g]).0 == self.v@[g].0 && s[g].1@ == self.v@[g].1@ }
    #[verifier::external_body] fn vx_items(self) -> (r: Vec<(K, VxIt<T>)>) { unimplemented!() }
}
pub trait VxPush { fn vx_push_str<T: VxShow + ?Sized>(&mut self, t: &T) ensures final(self).vt() == old(self).vt() + t.shown(); spec fn vt(&self) -> Seq<char>; }
impl VxPush for String { open spec fn vt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_push_str<T: VxShow + ?Sized>(&mut self, t: &T) { unimplemented!() } }
pub trait VxToString { spec fn ts(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.ts(); }
impl VxToString for str { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToString for String { open spec fn ts(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxOwned for String { #[verifier::external_body] fn vx_into_owned(self) -> (r: String) { unimplemented!() } }
pub trait VxOwned: Sized { fn vx_into_owned(self) -> (r: Self) ensures r == self; }
/// An edit, from what refers to it.
pub trait EdOf: Sized { spec fn eo(self) -> Ed; }
impl<'a> EdOf for &'a difference::Difference { open spec fn eo(self) -> Ed { diff_ed(*self) } }
impl<'a, 'b> EdOf for &'b &'a Row { open spec fn eo(self) -> Ed { diff_ed((**self).2) } }
/// str::split_inclusive at newlines, str::strip_suffix.
pub trait VxSplit {
    spec fn spl(&self) -> Seq<char>;
    fn vx_split_inclusive<'a>(&'a self, c: char) -> (r: VxIt<&'a str>) ensures c == '\n' ==> r@.map_values(|x: &str| x@) == pieces(self.spl());
    fn vx_strip_suffix<'a>(&'a self, c: char) -> (r: Option<&'a str>) ensures match r { Some(x) => self.spl().len() > 0 && self.spl().last() == c && x@ == self.spl().drop_last(), None => self.spl().len() == 0 || self.spl().last() != c };
}
impl VxSplit for str {
    open spec fn spl(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split_inclusive<'a>(&'a self, c: char) -> (r: VxIt<&'a str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<'a>(&'a self, c: char) -> (r: Option<&'a str>) { unimplemented!() }
}
#[verifier::external_body]
pub struct Utf8Error { x: u8 }
#[verifier::external_body]
pub fn vx_from_utf8(b: &[u8]) -> (r: Result<&str, Utf8Error>) ensures r matches Ok(s) ==> utf8(s@) == b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_from_utf8_lossy(b: &[u8]) -> (r: String) ensures r@ == file_text(b@) { unimplemented!() }
pub type Row = (u64, u64, difference::Difference);
pub open spec fn row_eds(s: Seq<Row>) -> Seq<Ed> { s.map_values(|r: Row| diff_ed(r.2)) }
/// Each edit with the numbers of the lines it is at.
#[verifier::opaque]
pub open spec fn numbered(s: Seq<Row>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == olds(row_eds(s).take(i)).len() + 1 && s[i].1 == news(row_eds(s).take(i)).len() + 1 }
pub open spec fn changes(s: Seq<Row>) -> bool { exists|i: int| 0 <= i < s.len() && !((#[trigger] s[i]).2 is Same) }
/// An edit and what is around it.
pub open spec fn around(x: (&Row, &[Row]), r: Row) -> bool { *x.0 == r && x.1@.contains(r) }
pub proof fn lemma_eds_len(s: Seq<Ed>) ensures olds(s).len() <= s.len(), news(s).len() <= s.len() decreases s.len() { if s.len() > 0 { lemma_eds_len(s.drop_last()); } }
pub proof fn lemma_eds_step(s: Seq<Ed>, e: Ed)
    ensures olds(s.push(e)).len() == olds(s).len() + (if e is Add { 0int } else { 1 }), news(s.push(e)).len() == news(s).len() + (if e is Rem { 0int } else { 1 })
{ assert(s.push(e).drop_last() =~= s); assert(s.push(e).last() == e); }
pub proof fn lemma_row_none() ensures numbered(Seq::empty()) { reveal(numbered); }
pub proof fn lemma_row_at(s: Seq<Row>, i: int)
    requires numbered(s), 0 <= i < s.len()
    ensures s[i].0 == olds(row_eds(s).take(i)).len() + 1, s[i].1 == news(row_eds(s).take(i)).len() + 1
{ reveal(numbered); assert(s[i].0 == s[i].0); }
pub proof fn lemma_row(s: Seq<Row>, r: Row)
    requires numbered(s), r.0 == olds(row_eds(s)).len() + 1, r.1 == news(row_eds(s)).len() + 1
    ensures numbered(s.push(r)), row_eds(s.push(r)) == row_eds(s).push(diff_ed(r.2)),
{
    reveal(numbered);
    assert(row_eds(s.push(r)) =~= row_eds(s).push(diff_ed(r.2)));
    assert forall|i: int| 0 <= i < s.push(r).len() implies (#[trigger] s.push(r)[i]).0 == olds(row_eds(s.push(r)).take(i)).len() + 1 && s.push(r)[i].1 == news(row_eds(s.push(r)).take(i)).len() + 1 by {
        assert(row_eds(s.push(r)).take(i) =~= row_eds(s).take(i));
        if i == s.len() { assert(row_eds(s).take(i) =~= row_eds(s)); } else { assert(s.push(r)[i] == s[i]); }
    }
}
/// A run whose key is false has no changes around.
pub open spec fn keyed(v: Seq<(bool, Vec<(&Row, &[Row])>)>) -> bool { forall|g: int, i: int| 0 <= g < v.len() && 0 <= i < v[g].1@.len() && !v[g].0 ==> !changes((#[trigger] v[g].1@[i]).1@) }
pub open spec fn row_is(a: &Row, b: &Row) -> bool { *a == *b }
pub open spec fn edit_is(a: &difference::Difference, b: Row) -> bool { *a == b.2 }
/// iter, of a Vec and of a slice.
pub trait VxIter<T> {
    spec fn its(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>)
        ensures r.remaining().len() == self.its().len(), forall|i: int| #![trigger r.remaining()[i]] #![trigger self.its()[i]] 0 <= i < self.its().len() ==> r.remaining()[i] == &self.its()[i];
}
impl<T> VxIter<T> for Vec<T> { open spec fn its(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) { unimplemented!() } }
impl<T> VxIter<T> for [T] { open spec fn its(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: core::slice::Iter<'a, T>) { unimplemented!() } }
