// ---------------------------------------------------------------------------
// The same content gets the same key, wherever it is and whatever else is stored.
// ---------------------------------------------------------------------------
/// What `f` lets through at `p` is what `g` lets through at `q`.
pub open spec fn alike(p: Comps, f: &EntFilter, q: Comps, g: &EntFilter, d: nat) -> bool
    decreases d
{
    d > 0 && match (fs_at(p), fs_at(q)) {
        (Some(Ent::File(b)), Some(Ent::File(c))) => b == c,
        (Some(Ent::Dir(m)), Some(Ent::Dir(n))) => forall|x: Seq<u8>| #![trigger m.contains(x)] #![trigger n.contains(x)]
            ((m.contains(x) && f.says(p.push(x))) == (n.contains(x) && g.says(q.push(x)))) && (m.contains(x) && f.says(p.push(x)) ==> alike(p.push(x), f, q.push(x), g, (d - 1) as nat)),
        _ => false,
    }
}
pub proof fn lemma_same_key(v: StoreV, k: Key, p: Comps, f: &EntFilter, a: nat, w: StoreV, l: Key, q: Comps, g: &EntFilter, b: nat, d: nat)
    requires shotd(v, k, p, f, a), shotd(w, l, q, g, b), alike(p, f, q, g, d)
    ensures k == l
    decreases d
{
    match (fs_at(p), fs_at(q)) {
        (Some(Ent::Dir(m)), Some(Ent::Dir(n))) => {
            let i = item_at(v, k)->Some_0; let j = item_at(w, l)->Some_0;
            assert forall|x: Seq<u8>| #![trigger i.head.names.contains(x)] #![trigger j.head.names.contains(x)] i.head.names.contains(x) <==> j.head.names.contains(x) by {
                assert(m.contains(x) || !m.contains(x)); assert(n.contains(x) || !n.contains(x));
            }
            lemma_same_names(i.head.names, j.head.names);
            assert forall|c: int| 0 <= c < i.kids.len() implies #[trigger] i.kids[c] == j.kids[c] by {
                let x = i.head.names[c];
                assert(i.head.names.contains(x)); assert(m.contains(x));
                assert(shotd(w, j.kids[c], q.push(x), g, (b - 1) as nat));
                lemma_same_key(v, i.kids[c], p.push(x), f, (a - 1) as nat, w, j.kids[c], q.push(x), g, (b - 1) as nat, (d - 1) as nat);
            }
            assert(i.kids =~= j.kids);
            assert(i == j);
        }
        _ => { }
    }
}
/// Two folders with the same content have the same key, in any two repositories, in whatever order they are listed.
pub proof fn theorem_same_key(v: StoreV, k: Key, p: Comps, f: &EntFilter, w: StoreV, l: Key, q: Comps, g: &EntFilter, d: nat)
    requires shot(v, k, p, f), shot(w, l, q, g), alike(p, f, q, g, d)
    ensures k == l
{
    let a = choose|a: nat| #[trigger] shotd(v, k, p, f, a); let b = choose|b: nat| #[trigger] shotd(w, l, q, g, b);
    lemma_same_key(v, k, p, f, a, w, l, q, g, b, d);
}
