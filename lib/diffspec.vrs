pub open spec fn p_add() -> spec_fn(AddedDiffResult) -> bool { |x: AddedDiffResult| !x.is_dir }
pub open spec fn p_del() -> spec_fn(DeletedDiffResult) -> bool { |x: DeletedDiffResult| !x.is_dir }
pub trait HasPath { spec fn pth(&self) -> Comps; }
impl HasPath for AddedDiffResult { open spec fn pth(&self) -> Comps { self.path@ } }
impl HasPath for DeletedDiffResult { open spec fn pth(&self) -> Comps { self.path@ } }
/// Every element of `all` is kept, or lies below one that is kept; nothing else is listed, nor more often.
#[verifier::opaque]
pub open spec fn kept_ok<T: HasPath>(all: Seq<T>, kept: Seq<T>) -> bool {
    &&& kept.to_multiset().subset_of(all.to_multiset())
    &&& forall|i: int| 0 <= i < all.len() ==> kept.contains(#[trigger] all[i]) || below(kept, all[i].pth())
}
pub open spec fn below<T: HasPath>(kept: Seq<T>, p: Comps) -> bool { exists|j: int| 0 <= j < kept.len() && is_prefix((#[trigger] kept[j]).pth(), p) }
pub open spec fn shortened(r: DiffResult, res: DiffResult) -> bool {
    kept_ok(r.added@, res.added@) && kept_ok(r.deleted@, res.deleted@) && res.modified@ == r.modified@
}
pub mod ax_kept { use super::*;
pub broadcast proof fn lemma_kept_none<T: HasPath>(all: Seq<T>, kept: Seq<T>)
    requires all.len() == 0, kept.len() == 0
    ensures #[trigger] kept_ok(all, kept)
{ reveal(kept_ok); assert(all =~= Seq::empty()); assert(kept =~= Seq::empty()); }
pub broadcast proof fn lemma_kept_drop<T: HasPath>(all: Seq<T>, kept: Seq<T>, i: int)
    requires 0 <= i < all.len(), #[trigger] kept_ok(all.take(i), kept), below(kept, all[i].pth())
    ensures #[trigger] kept_ok(all.take(i + 1), kept)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    reveal(kept_ok); assert(all.take(i + 1) =~= all.take(i).push(all[i]));
    assert forall|k: int| 0 <= k < all.take(i + 1).len() implies kept.contains(#[trigger] all.take(i + 1)[k]) || below(kept, all.take(i + 1)[k].pth()) by {
        if k < i { assert(all.take(i + 1)[k] == all.take(i)[k]); }
    }
}
pub broadcast proof fn lemma_kept_push<T: HasPath>(all: Seq<T>, kept: Seq<T>, i: int)
    requires 0 <= i < all.len(), #[trigger] kept_ok(all.take(i), kept)
    ensures #[trigger] kept_ok(all.take(i + 1), kept.push(all[i]))
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let k2 = kept.push(all[i]);
    reveal(kept_ok); assert(all.take(i + 1) =~= all.take(i).push(all[i]));
    assert forall|k: int| 0 <= k < all.take(i + 1).len() implies k2.contains(#[trigger] all.take(i + 1)[k]) || below(k2, all.take(i + 1)[k].pth()) by {
        if k < i {
            let x = all.take(i + 1)[k]; assert(x == all.take(i)[k]);
            if kept.contains(x) { let j = choose|j: int| 0 <= j < kept.len() && kept[j] == x; assert(k2[j] == x); }
            else { let j = choose|j: int| 0 <= j < kept.len() && is_prefix((#[trigger] kept[j]).pth(), x.pth()); assert(k2[j] == kept[j]); }
        } else { assert(k2[kept.len() as int] == all[i]); }
    }
}
}
pub open spec fn ct_ok(v: StoreV, k: Key, n: int) -> bool { exists|b: Seq<u8>| #[trigger] means(v, k, b) && n == newlines(b) }
pub open spec fn add_skip(x: AddedDiffResult) -> bool { x.is_dir || x.new_key is None }
pub open spec fn del_skip(x: DeletedDiffResult) -> bool { x.is_dir || x.original_key is None }
pub open spec fn ad_ok(v: StoreV, x: AddedDiffResult, i: FileStatResult) -> bool { i.fname@ == x.path@ && i.removed == 0 && ct_ok(v, x.new_key.unwrap().inner, i.added as int) }
pub open spec fn de_ok(v: StoreV, x: DeletedDiffResult, i: FileStatResult) -> bool { i.fname@ == x.path@ && i.added == 0 && ct_ok(v, x.original_key.unwrap().inner, i.removed as int) }
pub open spec fn md_ok(v: StoreV, x: ModifiedDiffResult, i: FileStatResult) -> bool {
    i.fname@ == x.path@ && exists|b0: Seq<u8>, b1: Seq<u8>| #[trigger] means(v, x.original_key.inner, b0) && #[trigger] means(v, x.new_key.inner, b1)
        && i.added - i.removed == nlines(b1) - nlines(b0)
}
/// One line for each added file, in order.
pub open spec fn add_ok(v: StoreV, s: Seq<AddedDiffResult>, items: Seq<FileStatResult>) -> bool decreases s.len() {
    if s.len() == 0 { items.len() == 0 } else if add_skip(s.last()) { add_ok(v, s.drop_last(), items) }
    else { items.len() > 0 && ad_ok(v, s.last(), items.last()) && add_ok(v, s.drop_last(), items.drop_last()) }
}
pub open spec fn del_ok(v: StoreV, s: Seq<DeletedDiffResult>, items: Seq<FileStatResult>) -> bool decreases s.len() {
    if s.len() == 0 { items.len() == 0 } else if del_skip(s.last()) { del_ok(v, s.drop_last(), items) }
    else { items.len() > 0 && de_ok(v, s.last(), items.last()) && del_ok(v, s.drop_last(), items.drop_last()) }
}
pub open spec fn mod_ok(v: StoreV, s: Seq<ModifiedDiffResult>, items: Seq<FileStatResult>) -> bool decreases s.len() {
    if s.len() == 0 { items.len() == 0 }
    else { items.len() > 0 && md_ok(v, s.last(), items.last()) && mod_ok(v, s.drop_last(), items.drop_last()) }
}
pub open spec fn stat_ok(v: StoreV, r: DiffResult, items: Seq<FileStatResult>) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= items.len() && #[trigger] add_ok(v, r.added@, items.subrange(0, i)) && #[trigger] del_ok(v, r.deleted@, items.subrange(i, j))
        && mod_ok(v, r.modified@, items.subrange(j, items.len() as int))
}
pub proof fn lemma_add_step(v: StoreV, s: Seq<AddedDiffResult>, i: int, a: Seq<FileStatResult>, b: Seq<FileStatResult>)
    requires 0 <= i < s.len(), add_ok(v, s.take(i), a), if add_skip(s[i]) { b == a } else { b.len() == a.len() + 1 && b.drop_last() =~= a && ad_ok(v, s[i], b.last()) }
    ensures add_ok(v, s.take(i + 1), b)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_del_step(v: StoreV, s: Seq<DeletedDiffResult>, i: int, a: Seq<FileStatResult>, b: Seq<FileStatResult>)
    requires 0 <= i < s.len(), del_ok(v, s.take(i), a), if del_skip(s[i]) { b == a } else { b.len() == a.len() + 1 && b.drop_last() =~= a && de_ok(v, s[i], b.last()) }
    ensures del_ok(v, s.take(i + 1), b)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_mod_step(v: StoreV, s: Seq<ModifiedDiffResult>, i: int, a: Seq<FileStatResult>, b: Seq<FileStatResult>)
    requires 0 <= i < s.len(), mod_ok(v, s.take(i), a), b.len() == a.len() + 1, b.drop_last() =~= a, md_ok(v, s[i], b.last())
    ensures mod_ok(v, s.take(i + 1), b)
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn lemma_filter_add(v: StoreV, s: Seq<AddedDiffResult>)
    ensures forall|items: Seq<FileStatResult>| #[trigger] add_ok(v, s.filter(p_add()), items) == add_ok(v, s, items),
        forall|i: int| 0 <= i < s.filter(p_add()).len() ==> !(#[trigger] s.filter(p_add())[i]).is_dir,
    decreases s.len()
{
    reveal_with_fuel(Seq::filter, 2);
    let f = p_add();
    if s.len() > 0 {
        lemma_filter_add(v, s.drop_last());
        assert forall|items: Seq<FileStatResult>| #[trigger] add_ok(v, s.filter(f), items) == add_ok(v, s, items) by {
            let sub = s.drop_last().filter(f);
            assert(add_ok(v, sub, items) == add_ok(v, s.drop_last(), items)); assert(add_ok(v, sub, items.drop_last()) == add_ok(v, s.drop_last(), items.drop_last()));
            if f(s.last()) { assert(s.filter(f) == sub.push(s.last())); assert(s.filter(f).drop_last() =~= sub); assert(s.filter(f).last() == s.last()); }
            else { assert(s.filter(f) == sub); }
        }
    }
}
pub proof fn lemma_filter_del(v: StoreV, s: Seq<DeletedDiffResult>)
    ensures forall|items: Seq<FileStatResult>| #[trigger] del_ok(v, s.filter(p_del()), items) == del_ok(v, s, items),
        forall|i: int| 0 <= i < s.filter(p_del()).len() ==> !(#[trigger] s.filter(p_del())[i]).is_dir,
    decreases s.len()
{
    reveal_with_fuel(Seq::filter, 2);
    let f = p_del();
    if s.len() > 0 {
        lemma_filter_del(v, s.drop_last());
        assert forall|items: Seq<FileStatResult>| #[trigger] del_ok(v, s.filter(f), items) == del_ok(v, s, items) by {
            let sub = s.drop_last().filter(f);
            assert(del_ok(v, sub, items) == del_ok(v, s.drop_last(), items)); assert(del_ok(v, sub, items.drop_last()) == del_ok(v, s.drop_last(), items.drop_last()));
            if f(s.last()) { assert(s.filter(f) == sub.push(s.last())); assert(s.filter(f).drop_last() =~= sub); assert(s.filter(f).last() == s.last()); }
            else { assert(s.filter(f) == sub); }
        }
    }
}
pub mod ax_nl { use super::*;
pub open spec fn p_nl<'a>() -> spec_fn(&'a u8) -> bool { |x: &u8| *x == 10 }
pub broadcast proof fn lemma_newlines_filtered(s: Seq<&u8>, r: Seq<&u8>)
    ensures #![trigger vx_taken_from(s, r)] s.filter(p_nl()).len() == newlines(u8s(s))
    decreases s.len()
{
    reveal_with_fuel(Seq::filter, 2);
    if s.len() > 0 { lemma_newlines_filtered(s.drop_last(), r); assert(u8s(s).drop_last() =~= u8s(s.drop_last())); }
}
pub broadcast proof fn lemma_filtered_add<F: Fn(&AddedDiffResult) -> bool>(s: Seq<AddedDiffResult>, f: F, r: Seq<AddedDiffResult>)
    requires #[trigger] filtered(s, f, r), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == !s[i].is_dir
    ensures r == s.filter(p_add())
{}
pub broadcast proof fn lemma_filtered_del<F: Fn(&DeletedDiffResult) -> bool>(s: Seq<DeletedDiffResult>, f: F, r: Seq<DeletedDiffResult>)
    requires #[trigger] filtered(s, f, r), forall|i: int, b: bool| 0 <= i < s.len() && #[trigger] call_ensures(f, (&s[i],), b) ==> b == !s[i].is_dir
    ensures r == s.filter(p_del())
{}
}
