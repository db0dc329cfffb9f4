// ---------------------------------------------------------------------------
// What a patch says, and what it does to a text.
// ---------------------------------------------------------------------------
/// The mark a patch puts after a line that no newline ends.
pub open spec fn unended() -> Seq<char> { ("\n\\ No newline at end of file")@ }
/// The pieces of a text, each with the newline that ends it.
pub open spec fn pieces(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if 0 <= newline_at(s) < s.len() { seq![s.take(newline_at(s) + 1)] + pieces(s.skip(newline_at(s) + 1)) } else { seq![s] }
}
/// Where the first newline is: past the end when there is none.
pub open spec fn newline_at(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + newline_at(s.skip(1)) } }
pub proof fn lemma_newline_at(s: Seq<char>)
    ensures 0 <= newline_at(s) <= s.len(), forall|j: int| 0 <= j < newline_at(s) ==> s[j] != '\n', newline_at(s) < s.len() ==> s[newline_at(s)] == '\n'
    decreases s.len()
{
    if s.len() > 0 && s[0] != '\n' {
        let t = s.skip(1);
        lemma_newline_at(t);
        assert forall|j: int| 0 <= j < newline_at(s) implies s[j] != '\n' by { if j > 0 { assert(t[j - 1] == s[j]); } }
        if newline_at(s) < s.len() { assert(t[newline_at(t)] == s[newline_at(s)]); }
    }
}
/// One of them, as a patch shows it.
pub open spec fn patch_line(p: Seq<char>) -> Seq<char> { if p.len() > 0 && p.last() == '\n' { p.drop_last() } else { p + unended() } }
pub open spec fn patch_lines_of(s: Seq<char>) -> Seq<Seq<char>> { pieces(s).map_values(|p: Seq<char>| patch_line(p)) }
pub enum Ed { Same(Seq<char>), Add(Seq<char>), Rem(Seq<char>) }
pub struct RangeV { pub start: int, pub count: int }
pub struct HunkV { pub old: RangeV, pub new: RangeV, pub lines: Seq<Ed> }
pub struct PatchV { pub old: Seq<char>, pub new: Seq<char>, pub times: bool, pub hunks: Seq<HunkV>, pub end_newline: bool }
/// ASSUMED (the crate patch): the text of a patch.
pub uninterp spec fn patch_text(p: PatchV) -> Seq<char>;
/// The lines before and after.
pub open spec fn olds(s: Seq<Ed>) -> Seq<Seq<char>> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Ed::Same(x) => olds(s.drop_last()).push(x), Ed::Rem(x) => olds(s.drop_last()).push(x), Ed::Add(x) => olds(s.drop_last()) } } }
pub open spec fn news(s: Seq<Ed>) -> Seq<Seq<char>> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { Ed::Same(x) => news(s.drop_last()).push(x), Ed::Add(x) => news(s.drop_last()).push(x), Ed::Rem(x) => news(s.drop_last()) } } }
/// How many lines are before a range: an empty one is named after the line before it.
pub open spec fn ahead(r: RangeV) -> int { if r.count == 0 { r.start } else { r.start - 1 } }
/// How many of the old lines the hunks take, the last line of the last one included.
pub open spec fn used(hs: Seq<HunkV>) -> int { if hs.len() == 0 { 0 } else { ahead(hs.last().old) + hs.last().old.count } }
/// The new text, up to the end of the last hunk.
pub open spec fn turned(hs: Seq<HunkV>, a: Seq<Seq<char>>) -> Seq<Seq<char>> decreases hs.len()
{ if hs.len() == 0 { Seq::empty() } else { turned(hs.drop_last(), a) + a.subrange(used(hs.drop_last()), ahead(hs.last().old)) + news(hs.last().lines) } }
/// The hunks fit: each is about the lines that are there, after the one before it, and its ranges say how many lines it has and where they are.
pub open spec fn fits(hs: Seq<HunkV>, a: Seq<Seq<char>>) -> bool decreases hs.len()
{
    hs.len() == 0 || {
        let h = hs.last(); let o = olds(h.lines); let k = used(hs.drop_last()); let q = ahead(h.old);
        &&& fits(hs.drop_last(), a)
        &&& k <= q && q + o.len() <= a.len()
        &&& h.old.count == o.len() && h.new.count == news(h.lines).len()
        &&& a.subrange(q, q + o.len()) == o
        &&& ahead(h.new) == turned(hs.drop_last(), a).len() + (q - k)
    }
}
/// The hunks turn the lines of one text into those of the other.
pub open spec fn turns(hs: Seq<HunkV>, a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { fits(hs, a) && turned(hs, a) + a.skip(used(hs)) == b }
pub uninterp spec fn lossy_path(raw: Seq<u8>) -> Seq<char>;
/// The text of a file: its bytes, when they are text.
pub uninterp spec fn file_text(b: Seq<u8>) -> Seq<char>;
pub mod ax_patch { use super::*;
/// ASSUMED: String::from_utf8_lossy changes no bytes that are text.
pub broadcast axiom fn axiom_file_text(s: Seq<char>) ensures #[trigger] file_text(utf8(s)) == s;
}
pub open spec fn right_patch(p: PatchV, raw: Seq<u8>, a: Seq<char>, b: Seq<char>) -> bool {
    p.old == lossy_path(raw) && p.new == lossy_path(raw) && !p.times && p.end_newline && turns(p.hunks, patch_lines_of(a), patch_lines_of(b))
}
/// The patch of one file.
pub open spec fn file_patch(raw: Seq<u8>, a: Seq<char>, b: Seq<char>, t: Seq<char>) -> bool { exists|p: PatchV| right_patch(p, raw, a, b) && t == #[trigger] patch_text(p) + ("\n")@ }
pub trait Patched: Sized { spec fn patched(self, v: StoreV, t: Seq<char>) -> bool; }
impl Patched for AddedDiffResult { open spec fn patched(self, v: StoreV, t: Seq<char>) -> bool {
    if self.is_dir || self.new_key is None { t.len() == 0 } else { exists|b: Seq<u8>| #[trigger] means(v, self.new_key->0.inner, b) && file_patch(self.path.raw(), Seq::empty(), file_text(b), t) }
} }
impl Patched for DeletedDiffResult { open spec fn patched(self, v: StoreV, t: Seq<char>) -> bool {
    if self.is_dir || self.original_key is None { t.len() == 0 } else { exists|b: Seq<u8>| #[trigger] means(v, self.original_key->0.inner, b) && file_patch(self.path.raw(), file_text(b), Seq::empty(), t) }
} }
impl Patched for ModifiedDiffResult { open spec fn patched(self, v: StoreV, t: Seq<char>) -> bool {
    exists|b: Seq<u8>, c: Seq<u8>| #[trigger] means(v, self.original_key.inner, b) && #[trigger] means(v, self.new_key.inner, c) && file_patch(self.path.raw(), file_text(b), file_text(c), t)
} }
/// The patches of the items, one after the other.
pub open spec fn patches<T: Patched>(v: StoreV, s: Seq<T>, t: Seq<char>) -> bool decreases s.len()
{ if s.len() == 0 { t.len() == 0 } else { exists|x: Seq<char>, y: Seq<char>| patches(v, s.drop_last(), x) && #[trigger] s.last().patched(v, y) && t == #[trigger] vx_then(x, y) } }
pub open spec fn vx_then(x: Seq<char>, y: Seq<char>) -> Seq<char> { x + y }
pub proof fn lemma_patches_push<T: Patched>(v: StoreV, s: Seq<T>, i: int, x: Seq<char>, y: Seq<char>)
    requires 0 <= i < s.len(), patches(v, s.take(i), x), s[i].patched(v, y)
    ensures patches(v, s.take(i + 1), x + y)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); assert(x + y == vx_then(x, y)); }
/// The text that turns what was there into what is there: each file in turn.
pub open spec fn patch_of(v: StoreV, r: DiffResult, t: Seq<char>) -> bool {
    exists|a: Seq<char>, d: Seq<char>, m: Seq<char>| #![trigger patches(v, r.added@, a), patches(v, r.deleted@, d), patches(v, r.modified@, m)]
        patches(v, r.added@, a) && patches(v, r.deleted@, d) && patches(v, r.modified@, m) && t == a + d + m
}
// --- lemmas --------------------------------------------------------------------
pub proof fn lemma_olds_add(a: Seq<Ed>, b: Seq<Ed>)
    ensures olds(a + b) == olds(a) + olds(b), news(a + b) == news(a) + news(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(olds(a) + olds(b) =~= olds(a)); assert(news(a) + news(b) =~= news(a)); }
    else {
        lemma_olds_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        match b.last() {
            Ed::Same(x) => { assert(olds(a) + olds(b.drop_last()).push(x) =~= (olds(a) + olds(b.drop_last())).push(x)); assert(news(a) + news(b.drop_last()).push(x) =~= (news(a) + news(b.drop_last())).push(x)); }
            Ed::Rem(x) => { assert(olds(a) + olds(b.drop_last()).push(x) =~= (olds(a) + olds(b.drop_last())).push(x)); }
            Ed::Add(x) => { assert(news(a) + news(b.drop_last()).push(x) =~= (news(a) + news(b.drop_last())).push(x)); }
        }
    }
}
pub proof fn lemma_all_same(s: Seq<Ed>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Same
    ensures olds(s) == news(s)
    decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]) is Same by { assert(s.drop_last()[i] == s[i]); } lemma_all_same(s.drop_last()); } }
/// Where the hunks stand after the first p of the edits.
pub open spec fn so_far(hs: Seq<HunkV>, s: Seq<Ed>, p: int) -> bool {
    &&& 0 <= p <= s.len()
    &&& fits(hs, olds(s))
    &&& 0 <= used(hs) <= olds(s.take(p)).len()
    &&& turned(hs, olds(s)) + olds(s).subrange(used(hs), olds(s.take(p)).len() as int) == news(s.take(p))
}
pub proof fn lemma_cut(s: Seq<Ed>, p: int, q: int)
    requires 0 <= p <= q <= s.len()
    ensures olds(s.take(q)) == olds(s.take(p)) + olds(s.subrange(p, q)), news(s.take(q)) == news(s.take(p)) + news(s.subrange(p, q)),
        olds(s) == olds(s.take(q)) + olds(s.skip(q)), news(s) == news(s.take(q)) + news(s.skip(q)),
        olds(s).subrange(olds(s.take(p)).len() as int, olds(s.take(q)).len() as int) == olds(s.subrange(p, q)),
        olds(s.take(p)).len() <= olds(s.take(q)).len() <= olds(s).len(),
{
    assert(s.take(q) =~= s.take(p) + s.subrange(p, q)); assert(s =~= s.take(q) + s.skip(q));
    lemma_olds_add(s.take(p), s.subrange(p, q)); lemma_olds_add(s.take(q), s.skip(q));
    assert(olds(s).subrange(olds(s.take(p)).len() as int, olds(s.take(q)).len() as int) =~= olds(s.subrange(p, q)));
}
pub proof fn lemma_start(s: Seq<Ed>)
    ensures so_far(Seq::empty(), s, 0)
{ assert(s.take(0) =~= Seq::<Ed>::empty()); assert(turned(Seq::empty(), olds(s)) + olds(s).subrange(0, 0) =~= news(s.take(0))); }
/// Lines that stay the same need no hunk.
pub proof fn lemma_skip(hs: Seq<HunkV>, s: Seq<Ed>, p: int, q: int)
    requires so_far(hs, s, p), p <= q <= s.len(), forall|i: int| p <= i < q ==> (#[trigger] s[i]) is Same
    ensures so_far(hs, s, q)
{
    lemma_cut(s, p, q);
    let m = s.subrange(p, q);
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) is Same by { assert(m[i] == s[p + i]); }
    lemma_all_same(m);
    let a = olds(s); let x = olds(s.take(p)).len() as int; let y = olds(s.take(q)).len() as int;
    assert(a.subrange(used(hs), y) =~= a.subrange(used(hs), x) + a.subrange(x, y));
    assert(turned(hs, a) + a.subrange(used(hs), y) =~= (turned(hs, a) + a.subrange(used(hs), x)) + a.subrange(x, y));
}
/// A hunk of the next lines.
pub proof fn lemma_hunk(hs: Seq<HunkV>, s: Seq<Ed>, p: int, q: int, h: HunkV)
    requires so_far(hs, s, p), p <= q <= s.len(), h.lines == s.subrange(p, q),
        h.old.count == olds(h.lines).len(), h.new.count == news(h.lines).len(),
        ahead(h.old) == olds(s.take(p)).len(), ahead(h.new) == news(s.take(p)).len(),
    ensures so_far(hs.push(h), s, q)
{
    lemma_cut(s, p, q);
    let g = hs.push(h); let a = olds(s); let x = olds(s.take(p)).len() as int; let y = olds(s.take(q)).len() as int;
    assert(g.drop_last() =~= hs); assert(g.last() == h);
    assert((turned(hs, a) + a.subrange(used(hs), x)).len() == turned(hs, a).len() + (x - used(hs)));
    assert(a.subrange(x, x + olds(h.lines).len()) == olds(h.lines));
    assert(used(g) == y);
    assert(turned(g, a) =~= news(s.take(q)));
    assert(turned(g, a) + a.subrange(used(g), y) =~= news(s.take(q)));
}
pub proof fn lemma_end(hs: Seq<HunkV>, s: Seq<Ed>)
    requires so_far(hs, s, s.len() as int)
    ensures turns(hs, olds(s), news(s))
{ assert(s.take(s.len() as int) =~= s); assert(olds(s).skip(used(hs)) =~= olds(s).subrange(used(hs), olds(s).len() as int)); }
/// The lines of a patch are the text: no two texts have the same.
pub proof fn lemma_pieces(s: Seq<char>)
    ensures forall|i: int| 0 <= i < pieces(s).len() ==> one_piece(#[trigger] pieces(s)[i]), s == joined(pieces(s))
    decreases s.len()
{
    lemma_newline_at(s);
    if s.len() > 0 && newline_at(s) < s.len() {
        let k = newline_at(s); let a = s.take(k + 1); let b = s.skip(k + 1);
        lemma_pieces(b);
        assert forall|i: int| 0 <= i < pieces(s).len() implies one_piece(#[trigger] pieces(s)[i]) by { if i > 0 { assert(pieces(s)[i] == pieces(b)[i - 1]); } else { assert(pieces(s)[0] == a); } }
        lemma_joined_first(a, pieces(b));
        assert(s =~= a + b);
    } else if s.len() > 0 {
        assert(pieces(s) =~= seq![s]);
        lemma_joined_first(s, Seq::empty());
        assert(seq![s] + Seq::<Seq<char>>::empty() =~= seq![s]);
        assert(s + joined(Seq::empty()) =~= s);
    }
}
pub open spec fn one_piece(p: Seq<char>) -> bool { !p.contains('\n') || (p.len() > 0 && p.last() == '\n' && !p.drop_last().contains('\n')) }
pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last() } }
pub proof fn lemma_joined_first(a: Seq<char>, s: Seq<Seq<char>>)
    ensures joined(seq![a] + s) == a + joined(s)
    decreases s.len()
{
    let t = seq![a] + s;
    if s.len() == 0 { assert(t.drop_last() =~= Seq::<Seq<char>>::empty()); assert(t.last() == a); assert(joined(t.drop_last()) =~= Seq::<char>::empty()); assert(joined(s) =~= Seq::<char>::empty()); assert(joined(t) =~= a); assert(a + joined(s) =~= a); }
    else { lemma_joined_first(a, s.drop_last()); assert(t.drop_last() =~= seq![a] + s.drop_last()); assert(t.last() == s.last()); assert(joined(t) =~= a + joined(s)); }
}
pub proof fn lemma_lines_tell(s: Seq<char>, t: Seq<char>)
    requires patch_lines_of(s) == patch_lines_of(t)
    ensures s == t
{
    lemma_pieces(s); lemma_pieces(t);
    assert(pieces(s).len() == patch_lines_of(s).len() && pieces(t).len() == patch_lines_of(t).len());
    assert forall|i: int| 0 <= i < pieces(s).len() implies pieces(s)[i] == pieces(t)[i] by {
        assert(patch_line(pieces(s)[i]) == patch_lines_of(s)[i]); assert(patch_line(pieces(t)[i]) == patch_lines_of(t)[i]);
        lemma_line_tells(pieces(s)[i], pieces(t)[i]);
    }
    assert(pieces(s) =~= pieces(t));
}
pub proof fn lemma_line_tells(p: Seq<char>, q: Seq<char>)
    requires one_piece(p), one_piece(q), patch_line(p) == patch_line(q)
    ensures p == q
{
    reveal_strlit("\n\\ No newline at end of file");
    let e = unended();
    assert(e.len() == 28 && e[0] == '\n');
    let pe = p.len() > 0 && p.last() == '\n'; let qe = q.len() > 0 && q.last() == '\n';
    if pe && qe { assert(p =~= p.drop_last().push('\n')); assert(q =~= q.drop_last().push('\n')); }
    else if pe { assert((q + e)[q.len() as int] == '\n'); assert(p.drop_last()[q.len() as int] == '\n'); assert(p.drop_last().contains('\n')); }
    else if qe { assert((p + e)[p.len() as int] == '\n'); assert(q.drop_last()[p.len() as int] == '\n'); assert(q.drop_last().contains('\n')); }
    else { assert(p =~= (p + e).take(p.len() as int)); assert(q =~= (q + e).take(q.len() as int)); assert((p + e).len() == (q + e).len()); }
}
/// So what a right patch makes of a file is the new file, and nothing else.
pub proof fn lemma_patch_right(p: PatchV, raw: Seq<u8>, a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires right_patch(p, raw, a, b), turned(p.hunks, patch_lines_of(a)) + patch_lines_of(a).skip(used(p.hunks)) == patch_lines_of(c)
    ensures b == c
{ lemma_lines_tell(b, c); }
/// A file that was not there before, and one that is not there any more.
pub proof fn lemma_all_new(s: Seq<char>, h: HunkV)
    requires h.lines.len() == patch_lines_of(s).len(), forall|i: int| 0 <= i < h.lines.len() ==> (#[trigger] h.lines[i]) == Ed::Add(patch_lines_of(s)[i]),
        h.old.count == 0, ahead(h.old) == 0, h.new.count == h.lines.len(), ahead(h.new) == 0
    ensures turns(seq![h], patch_lines_of(Seq::empty()), patch_lines_of(s))
{
    lemma_adds(h.lines, patch_lines_of(s)); lemma_one(h, patch_lines_of(Seq::empty()), patch_lines_of(s));
}
pub proof fn lemma_all_gone(s: Seq<char>, h: HunkV)
    requires h.lines.len() == patch_lines_of(s).len(), forall|i: int| 0 <= i < h.lines.len() ==> (#[trigger] h.lines[i]) == Ed::Rem(patch_lines_of(s)[i]),
        h.new.count == 0, ahead(h.new) == 0, h.old.count == h.lines.len(), ahead(h.old) == 0
    ensures turns(seq![h], patch_lines_of(s), patch_lines_of(Seq::empty()))
{
    lemma_rems(h.lines, patch_lines_of(s)); lemma_one(h, patch_lines_of(s), patch_lines_of(Seq::empty()));
}
pub proof fn lemma_adds(e: Seq<Ed>, t: Seq<Seq<char>>)
    requires e.len() == t.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) == Ed::Add(t[i])
    ensures news(e) == t, olds(e) == patch_lines_of(Seq::empty())
    decreases e.len()
{ assert(patch_lines_of(Seq::empty()) =~= Seq::<Seq<char>>::empty()); if e.len() > 0 { lemma_adds(e.drop_last(), t.drop_last()); assert(e.last() == e[e.len() - 1]); assert(news(e) =~= t); } else { assert(news(e) =~= t); } }
pub proof fn lemma_rems(e: Seq<Ed>, t: Seq<Seq<char>>)
    requires e.len() == t.len(), forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]) == Ed::Rem(t[i])
    ensures olds(e) == t, news(e) == patch_lines_of(Seq::empty())
    decreases e.len()
{ assert(patch_lines_of(Seq::empty()) =~= Seq::<Seq<char>>::empty()); if e.len() > 0 { lemma_rems(e.drop_last(), t.drop_last()); assert(e.last() == e[e.len() - 1]); assert(olds(e) =~= t); } else { assert(olds(e) =~= t); } }
pub proof fn lemma_one(h: HunkV, a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    requires olds(h.lines) == a, news(h.lines) == b, h.old.count == a.len(), h.new.count == b.len(), ahead(h.old) == 0, ahead(h.new) == 0
    ensures turns(seq![h], a, b)
{
    reveal_with_fuel(turned, 2); reveal_with_fuel(fits, 2);
    assert(seq![h].drop_last() =~= Seq::<HunkV>::empty()); assert(seq![h].last() == h);
    assert(a.subrange(0, a.len() as int) =~= a);
    assert(turned(seq![h], a) =~= b); assert(a.skip(a.len() as int) =~= Seq::<Seq<char>>::empty()); assert(b + a.skip(a.len() as int) =~= b);
}
pub open spec fn vx_text(s: Seq<char>) -> bool { true }
