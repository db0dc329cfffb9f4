// ---------------------------------------------------------------------------
// The key of a stream, as a function of its bytes only.
// ---------------------------------------------------------------------------
pub open spec fn blob_key(b: Seq<u8>) -> Key { blake3_of(enc_obj(blob(b))) }
pub open spec fn tree_key(ks: Seq<Key>) -> Key { blake3_of(enc_obj(tree(ks))) }
/// The keys so far, level by level; the bytes before the next cut; the bytes looked at; the state of the rolling hash; the bytes to come.
pub struct Cut { pub kb: Seq<Seq<Key>>, pub cur: Seq<u8>, pub buf: Seq<u8>, pub h: u64, pub rest: Seq<u8> }
pub open spec fn at_start(b: Seq<u8>) -> Cut {
    Cut { kb: Seq::new(5, |i: int| Seq::<Key>::empty()), cur: Seq::empty(), buf: Seq::empty(), h: 0, rest: b }
}
pub open spec fn cut_mask() -> u64 { 0xFFF8_0000_0000_0000u64 }
pub open spec fn blob_max() -> usize { 1usize << BLOB_ZERO_COUNT_MAX }
pub open spec fn cut_at(c: Cut) -> Option<usize> {
    if c.buf.len() > blob_max() { Some(blob_max()) } else { gearhash::gear(c.h, c.buf, cut_mask()).0 }
}
pub open spec fn hash_after(c: Cut) -> u64 { gearhash::gear(c.h, c.buf, cut_mask()).1 }
pub open spec fn zeros_of(h: u64) -> int { vstd::std_specs::bits::u64_leading_zeros(h) }
pub open spec fn up(kb: Seq<Seq<Key>>, o: int) -> Seq<Seq<Key>> {
    kb.update(o, Seq::<Key>::empty()).update(o + 1, kb[o + 1].push(tree_key(kb[o])))
}
/// A level that ends here, or is full, becomes a tree in the next one.
pub open spec fn carry(kb: Seq<Seq<Key>>, o: int, zeros: int) -> Seq<Seq<Key>>
    decreases 4 - o
{
    if o < 0 || o >= 4 { kb }
    else if zeros > BLOB_ZERO_COUNT + (o + 1) * PER_LEVEL_COUNT || kb[o].len() >= 1usize << PER_LEVEL_COUNT_MAX { carry(up(kb, o), o + 1, zeros) }
    else { kb }
}
pub open spec fn after_cut(c: Cut, n: int) -> Cut {
    let cur = c.cur + c.buf.take(n); let buf = c.buf.skip(n); let h = hash_after(c);
    if cur.len() >= 1usize << BLOB_ZERO_COUNT_MAX {
        Cut { kb: carry(c.kb.update(0, c.kb[0].push(blob_key(cur))), 0, zeros_of(h)), cur: Seq::empty(), buf, h, ..c }
    } else { Cut { cur, buf, h, ..c } }
}
pub open spec fn block() -> int { 65536 }
pub open spec fn after_look(c: Cut) -> Cut {
    let n = if c.rest.len() < block() { c.rest.len() as int } else { block() };
    Cut { cur: c.cur + c.buf, buf: c.rest.take(n), h: hash_after(c), rest: c.rest.skip(n), ..c }
}
/// All cuts made.
#[verifier::opaque]
pub open spec fn runs(c: Cut) -> Cut
    decreases 2 * c.rest.len() + c.buf.len()
{
    match cut_at(c) {
        Some(n) => if 0 < n <= c.buf.len() { runs(after_cut(c, n as int)) } else { c },
        None => if c.rest.len() == 0 { Cut { cur: c.cur + c.buf, buf: Seq::empty(), h: hash_after(c), ..c } } else { runs(after_look(c)) },
    }
}
pub open spec fn empty_above(kb: Seq<Seq<Key>>, o: int) -> bool { forall|i: int| o < i < 5 ==> (#[trigger] kb[i]).len() == 0 }
/// The levels, each a tree in the next one, until one key is left.
pub open spec fn tops(kb: Seq<Seq<Key>>, o: int) -> Key
    decreases 4 - o
{
    if o < 0 || o >= 4 { tree_key(kb[4]) }
    else if kb[o].len() == 1 && empty_above(kb, o) { kb[o][0] }
    else { tops(kb.update(o + 1, kb[o + 1].push(tree_key(kb[o]))), o + 1) }
}
pub open spec fn finish(kb: Seq<Seq<Key>>, cur: Seq<u8>) -> Key {
    if empty_above(kb, -1) { blob_key(cur) }
    else { tops(if cur.len() > 0 { kb.update(0, kb[0].push(blob_key(cur))) } else { kb }, 0) }
}
/// The key of a stream.
pub open spec fn stream_key(b: Seq<u8>) -> Key { let c = runs(at_start(b)); finish(c.kb, c.cur) }

/// What callers see of it: some function of the bytes.
pub open spec fn datakey(b: Seq<u8>) -> Key { stream_key(b) }

pub proof fn lemma_cut(c: Cut, n: int)
    requires cut_at(c) matches Some(m) && m == n && 0 < n <= c.buf.len()
    ensures runs(c) == runs(after_cut(c, n))
{ reveal(runs); }
/// Nothing found in what was looked at: the same as having looked at it and at nothing more yet.
pub proof fn lemma_look(c: Cut)
    requires cut_at(c) is None
    ensures ({ let m = Cut { cur: c.cur + c.buf, buf: Seq::empty(), h: hash_after(c), ..c };
        &&& runs(c) == runs(m)
        &&& c.rest.len() == 0 ==> runs(c) == m
        &&& c.rest.len() > 0 ==> runs(c) == runs(after_look(c)) })
{
    reveal(runs);
    let m = Cut { cur: c.cur + c.buf, buf: Seq::empty(), h: hash_after(c), ..c };
    gearhash::ax_gear::axiom_gear_empty(m.h, m.buf, cut_mask());
    assert(m.cur + m.buf =~= m.cur);
    assert(cut_at(m) is None) by { lemma_shifts(); }
    if c.rest.len() > 0 { assert(after_look(m) == after_look(c)); }
}
/// The keys in hand are keys of stored objects.
pub open spec fn kept(v: StoreV, kb: Seq<Seq<Key>>) -> bool {
    forall|i: int, j: int| 0 <= i < kb.len() && 0 <= j < kb[i].len() ==> v.data.contains_key(db_key(#[trigger] kb[i][j]))
}
