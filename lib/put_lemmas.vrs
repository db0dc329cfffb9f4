// Lemmas about put_data's loop.
/// What was read goes to the end of what the buffer holds.
pub proof fn lemma_rest(rb0: Seq<u8>, fill0: int, left0: Seq<u8>, rb: Seq<u8>, n: int)
    requires 0 <= fill0 <= rb0.len(), 0 <= n <= left0.len(), fill0 + n <= rb.len(), rb.len() == rb0.len(), rb.take(fill0) == rb0.take(fill0), n > 0 ==> rb.subrange(fill0, fill0 + n) == left0.take(n)
    ensures rb.take(fill0 + n) + left0.skip(n) == rb0.take(fill0) + left0
{
    if n == 0 { assert(rb.subrange(fill0, fill0 + n) =~= left0.take(n)); }
    assert(rb.take(fill0 + n) =~= rb.take(fill0) + rb.subrange(fill0, fill0 + n));
    assert(rb.take(fill0) + left0.take(n) + left0.skip(n) =~= rb.take(fill0) + left0);
}
pub proof fn lemma_done(d: Seq<u8>, c: Seq<u8>, b: Seq<u8>, r: Seq<u8>)
    ensures d + (c + b) + r == (d + c) + (Seq::<u8>::empty() + b) + r
{ assert(d + (c + b) =~= (d + c) + (Seq::<u8>::empty() + b)); }
pub proof fn lemma_at_end(d: Seq<u8>, c: Seq<u8>, rb: Seq<u8>, f: int, left: Seq<u8>)
    ensures f == 0 && left.len() == 0 ==> d + c + (rb.take(f) + left) == d + c
{ if f == 0 && left.len() == 0 { assert(rb.take(0) + left =~= Seq::<u8>::empty()); assert(d + c + Seq::<u8>::empty() =~= d + c); } }
/// A full buffer is looked at next.
pub proof fn lemma_flush(done: Seq<u8>, pend: Seq<u8>, cur: Seq<u8>, buf: Seq<u8>, rb: Seq<u8>, f: int, fill: int, left: Seq<u8>)
    ensures (0 <= f <= rb.len() && fill == 0 && cur == pend && buf == rb.take(f)) ==> done + pend + (rb.take(f) + left) == done + (cur + buf) + (rb.take(fill) + left), buf.len() == 0 ==> cur + buf == cur
{ if buf.len() == 0 { assert(cur + buf =~= cur); } if 0 <= f <= rb.len() && fill == 0 && cur == pend && buf == rb.take(f) { assert(done + pend + (rb.take(f) + left) =~= done + (cur + buf) + (rb.take(fill) + left)); } }
pub proof fn lemma_shifts()
    ensures 1usize << 15u32 == 32768, 1usize << 9u32 == 512, 1usize << 16usize == 65536,
{
    assert(1usize << 15u32 == 32768) by(bit_vector); assert(1usize << 9u32 == 512) by(bit_vector); assert(1usize << 16usize == 65536) by(bit_vector);
}
pub proof fn lemma_zeros()
    ensures forall|h: u64| #[trigger] (h & 0xFFF8_0000_0000_0000u64) == 0 ==> vstd::std_specs::bits::u64_leading_zeros(h) >= 13
{
    assert forall|h: u64| #[trigger] (h & 0xFFF8_0000_0000_0000u64) == 0 implies vstd::std_specs::bits::u64_leading_zeros(h) >= 13 by {
        vstd::std_specs::bits::axiom_u64_leading_zeros(h);
        let z = vstd::std_specs::bits::u64_leading_zeros(h);
        if z < 13 {
            let s = (63 - z) as u64;
            assert((h >> s) & 1 == 0) by(bit_vector) requires h & 0xFFF8_0000_0000_0000u64 == 0, 51 <= s <= 63;
        }
    }
}
pub proof fn lemma_block(rb: Seq<u8>, f: int, left: Seq<u8>)
    requires rb.len() == 65536, 0 <= f <= rb.len(), f == 65536 || left.len() == 0
    ensures ({ let rest = rb.take(f) + left; let n = if rest.len() < 65536 { rest.len() as int } else { 65536 };
        rest.take(n) == rb.take(f) && rest.skip(n) == left }), rb.take(0) + left == left
{
    let rest = rb.take(f) + left; let n = if rest.len() < 65536 { rest.len() as int } else { 65536 };
    assert(n == f); assert(rest.take(n) =~= rb.take(f)); assert(rest.skip(n) =~= left); assert(rb.take(0) + left =~= left);
}
