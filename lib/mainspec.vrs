// ---------------------------------------------------------------------------
// Commands: what they say about the repository.
// ---------------------------------------------------------------------------
pub open spec fn sv(s: State) -> StoreV { s.ds_state->Some_0.ds.view() }
pub open spec fn dbp(s: State) -> Comps { s.ds_state->Some_0.db_folder_path@ }
/// A command works in the transaction it was started in, on the same repository.
pub open spec fn cmd_frame(a: State, b: State) -> bool {
    &&& a.ds_state is Some == b.ds_state is Some
    &&& (a.ds_state is Some ==> a.ds_state->Some_0.ds.ctx() == b.ds_state->Some_0.ds.ctx())
}
pub open spec fn cmd_same(a: State, b: State) -> bool { cmd_frame(a, b) && (a.ds_state is Some ==> sv(a) == sv(b)) }
pub open spec fn head_is(v: StoreV, name: Seq<char>) -> bool { v.state.contains_key(head_key()) && v.state[head_key()] == utf8(name) }
/// The ref a command works on: the one given, or HEAD's.
pub open spec fn ref_named(v: StoreV, given: Option<String>, name: Seq<char>) -> bool { match given { Some(s) => s@ == name, None => head_is(v, name) } }
/// One more entry in the refs.
pub open spec fn pushed(v: StoreV, e: Reflog) -> StoreV { StoreV { reflog: v.reflog.push(ref_ent(e)), ..v } }
pub open spec fn headed(v: StoreV, name: Seq<char>) -> StoreV { StoreV { state: v.state.insert(head_key(), utf8(name)), ..v } }
pub open spec fn denotes(v: StoreV, s: Keyish, k: Key) -> bool { matches_req(v, s, k) && forall|o: Key| matches_req(v, s, o) ==> o == k }
pub open spec fn resolved(s: State, q: Keyish, k: Key) -> bool { s.ds_state->Some_0.ds.ctx().healthy && keys_ok(sv(s)) ==> denotes(sv(s), q, k) }
pub open spec fn commit_dir(s: State, args: CommitArgs) -> Comps { match args.path { Some(p) => p@, None => s.ds_state->Some_0.repo_path@ } }
/// The parents of a next commit: the latest one of the ref.
pub open spec fn next_parents(v: StoreV, name: Seq<char>, ps: Seq<Key>) -> bool {
    match ref_latest(v.reflog, name, None) { None => ps.len() == 0, Some(b) => ps.len() == 1 && db_key(ps[0]) == b }
}
/// One commit of the directory, on top of the ref's latest, is the one thing added to the refs.
pub open spec fn committed(a: State, b: State, args: CommitArgs) -> bool {
    exists|e: Reflog, f: EntFilter, m: StoreV| #![trigger ref_ent(e), filters(&f, texts(a.common.exclude@), dbp(a)), grows(sv(a), m)]
        ref_named(sv(a), args.refname, e.refname@) && e.remote is None && filters(&f, texts(a.common.exclude@), dbp(a))
        && grows(sv(a), m) && sv(b) == pushed(m, e)
        && (!m.clash ==> is_commit(sv(a), m, e.key.inner, e.refname@, args.message@, commit_dir(a, args), &f))
}
#[verifier::opaque]
pub open spec fn is_commit(v: StoreV, m: StoreV, k: Key, name: Seq<char>, msg: Seq<char>, dir: Comps, f: &EntFilter) -> bool {
    commit_at(m, k) matches Some(c) && (c.attrs.message == msg && c.attrs.extra == Map::<Seq<char>, Seq<u8>>::empty() && next_parents(v, name, c.parents) && shot(m, c.tree, dir, f))
}
/// Nothing differs.
pub open spec fn no_difference(v: StoreV, from: DiffTarget, f: &EntFilter, to: Option<TypedKey<FSItem>>) -> bool {
    &&& new_paths(v, from, f) == old_paths(v, to)
    &&& forall|e: PK| #[trigger] old_paths(v, to).contains(e) && !e.1 ==> new_key(v, from, e.0) == old_key(v, to, e.0)
}
/// Whether the directory is what the tree says.
pub open spec fn verdict(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, clean: bool) -> bool {
    from matches DiffTarget::FileSystem(p, ex, db) && exists|f: EntFilter| #[trigger] filters(&f, texts(ex@), db@) && clean == no_difference(v, from, &f, to)
}
/// The tree of the latest commit of a ref, if it has one.
pub open spec fn ref_tree(v: StoreV, name: Seq<char>, t: Option<TypedKey<FSItem>>) -> bool {
    match ref_latest(v.reflog, name, None) {
        None => t is None,
        Some(b) => t is Some && exists|k: Key| #[trigger] db_key(k) == b && commit_at(v, k) is Some && t->Some_0.inner == commit_at(v, k)->Some_0.tree,
    }
}
pub open spec fn here(a: State, from: DiffTarget) -> bool {
    from matches DiffTarget::FileSystem(p, ex, db) && p@ == a.ds_state->Some_0.repo_path@ && texts(ex@) == texts(a.common.exclude@) && db@ == dbp(a)
}
/// The directory differs from what the head's latest commit has.
pub open spec fn unclean_here(a: State) -> bool {
    exists|name: Seq<char>, t: Option<TypedKey<FSItem>>, from: DiffTarget| #![trigger utf8(name), verdict(sv(a), from, t, false)]
        head_is(sv(a), name) && ref_tree(sv(a), name, t) && here(a, from) && verdict(sv(a), from, t, false)
}
/// HEAD is switched, and nothing differs; nothing else that a ref or HEAD says changes.
pub open spec fn switched(a: State, b: State, to: Seq<char>) -> bool {
    exists|name: Seq<char>, t: Option<TypedKey<FSItem>>, from: DiffTarget, m: StoreV, clean: bool| #![trigger utf8(name), verdict(sv(a), from, t, clean), grows(sv(a), m)]
        head_is(sv(a), name) && ref_tree(sv(a), name, t) && here(a, from) && verdict(sv(a), from, t, clean) && grows(sv(a), m)
        && clean && sv(b) == headed(m, to)
}
pub mod ax_main { use super::*;
pub broadcast proof fn lemma_verdict(v: StoreV, from: DiffTarget, to: Option<TypedKey<FSItem>>, d: DiffResult)
    requires #[trigger] right_report(v, from, to, d), from is FileSystem
    ensures verdict(v, from, to, d.added@.len() == 0 && d.deleted@.len() == 0 && d.modified@.len() == 0)
{
    reveal(says_exactly); reveal(has_line);
    if let DiffTarget::FileSystem(p, ex, db) = from {
        let f = choose|f: EntFilter| #[trigger] filters(&f, texts(ex@), db@) && compared(v, from, &f, to, d);
        let n = new_paths(v, from, &f); let o = old_paths(v, to);
        if d.added@.len() == 0 && d.deleted@.len() == 0 && d.modified@.len() == 0 {
            assert forall|e: PK| n.contains(e) <==> o.contains(e) by {
                if n.contains(e) && !o.contains(e) { assert(n.difference(o).contains(e)); assert(has_line(d.added@, e)); }
                if o.contains(e) && !n.contains(e) { assert(o.difference(n).contains(e)); assert(has_line(d.deleted@, e)); }
            }
            assert(n =~= o);
            assert forall|e: PK| #[trigger] o.contains(e) && !e.1 implies new_key(v, from, e.0) == old_key(v, to, e.0) by {
                if new_key(v, from, e.0) != old_key(v, to, e.0) {
                    assert(n.intersect(o).contains(e));
                    assert(changed(v, from, to, n.intersect(o)).contains(e)); assert(has_line(d.modified@, e));
                }
            }
        } else if no_difference(v, from, &f, to) {
            if d.added@.len() > 0 { let e = d.added@[0].le(); assert(has_line(d.added@, e)); assert(n.difference(o).contains(e)); }
            if d.deleted@.len() > 0 { let e = d.deleted@[0].le(); assert(has_line(d.deleted@, e)); assert(o.difference(n).contains(e)); }
            if d.modified@.len() > 0 { let e = d.modified@[0].le(); assert(has_line(d.modified@, e)); assert(changed(v, from, to, n.intersect(o)).contains(e)); assert(o.contains(e)); }
            assert(false);
        }
    }
}
/// A commit made on top of the ref's latest.
pub broadcast proof fn lemma_is_commit(v: StoreV, m0: StoreV, m: StoreV, k: Key, tree: Key, ps: Seq<Key>, at: AttrsV, name: Seq<char>, msg: Seq<char>, dir: Comps, f: &EntFilter)
    requires
        #[trigger] commit_is(m, k, tree, ps, at), #[trigger] shot(m0, tree, dir, f), grows(m0, m), next_parents(v, name, ps), at.message == msg,
        at.extra == Map::<Seq<char>, Seq<u8>>::empty(),
    ensures #[trigger] is_commit(v, m, k, name, msg, dir, f)
{
    reveal(is_commit);
    lemma_sorted_small(ps, commit_at(m, k)->Some_0.parents);
    let d = choose|d: nat| #[trigger] shotd(m0, tree, dir, f, d);
    lemma_shot_mono(m0, m, tree, dir, f, d, d);
}
/// Copies of texts are the same texts.
pub broadcast proof fn lemma_texts_cloned(a: Seq<String>, b: Seq<String>)
    requires #[trigger] seq_cloned(a, b)
    ensures texts(a) == texts(b)
{ assert(texts(a) =~= texts(b)); }
}
