// ---------------------------------------------------------------------------
// A real directory, as far as a filter lets it through; and that a snapshot has the same tree.
// ---------------------------------------------------------------------------
/// What is at `q` below the path `p`: a directory (true), a file, or nothing that is let through.
pub open spec fn real_at(f: &EntFilter, p: Comps, q: Comps) -> Option<bool>
    decreases q.len()
{
    match fs_at(p) {
        Some(Ent::Dir(ns)) => if q.len() == 0 { Some(true) } else if ns.contains(q[0]) && f.says(p.push(q[0])) { real_at(f, p.push(q[0]), q.skip(1)) } else { None },
        Some(Ent::File(b)) => if q.len() == 0 { Some(false) } else { None },
        _ => None,
    }
}
