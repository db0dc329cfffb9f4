// ---------------------------------------------------------------------------
// Assumed: what the SQL statements in the source mean (SQLite, rollback-journal transactions).
// Values are typed as this program writes them: keys and values are blobs, ref names are texts.
// ---------------------------------------------------------------------------
pub enum Val { Null, Int(int), Text(Seq<char>), Blob(Seq<u8>) }
pub enum Tbl { Data, State, Reflog, Cache }
pub enum Col { Id, Key, Value, Refname, Remote }
pub enum CmpOp { Eq, Is, Lt, Le, Gt, Ge, Ne }
/// `col op parameter p`
pub struct Cond { pub col: Col, pub op: CmpOp, pub p: int }
pub enum What { Col(Col), Count }
/// Order by id.
pub enum OrderBy { Any, Asc, Desc }
/// What an INSERT does when the key is already there.
pub enum Policy { Abort, Ignore, Replace }
pub enum SqlV {
    Begin, Commit, Rollback,
    Select { tbl: Tbl, what: What, conds: Seq<Cond>, order: OrderBy, limit: Option<nat> },
    /// INSERT into a table of keys and values; the numbers are parameters.
    Insert { tbl: Tbl, policy: Policy, key: int, value: int },
    InsertRef { refname: int, remote: int, key: int },
    Schema { tables: Set<Tbl>, if_not_exists: bool },
}
/// The tables.  `st.clash` records that an insert into `data` was ignored although the bytes differed.
pub struct TabsV { pub st: StoreV, pub cache: Map<Seq<u8>, Seq<u8>>, pub tables: Set<Tbl> }
/// A connection: the tables as it sees them, and as they were when its transaction began.
pub struct DbV { pub cur: TabsV, pub saved: Option<TabsV>, pub healthy: bool, pub file: int, pub pragmas: Map<Seq<char>, Val> }

pub open spec fn val_lt(a: Val, b: Val) -> bool {
    match (a, b) {
        (Val::Int(x), Val::Int(y)) => x < y,
        (Val::Blob(x), Val::Blob(y)) => lex_lt(x, y),
        (Val::Text(x), Val::Text(y)) => lex_lt(utf8(x), utf8(y)),
        (Val::Int(_), Val::Text(_)) | (Val::Int(_), Val::Blob(_)) | (Val::Text(_), Val::Blob(_)) => true,
        _ => false,
    }
}
pub open spec fn cmp_ok(op: CmpOp, a: Val, b: Val) -> bool {
    match op {
        CmpOp::Is => a == b,
        _ => !(a is Null) && !(b is Null) && (match op {
            CmpOp::Eq => a == b, CmpOp::Ne => a != b, CmpOp::Lt => val_lt(a, b), CmpOp::Ge => !val_lt(a, b),
            CmpOp::Gt => val_lt(b, a), _ => !val_lt(b, a) }),
    }
}
pub open spec fn kv_col(k: Seq<u8>, v: Seq<u8>, c: Col) -> Val { match c { Col::Key => Val::Blob(k), Col::Value => Val::Blob(v), _ => Val::Null } }
pub open spec fn ref_col(e: RefEntV, c: Col) -> Val {
    match c {
        Col::Refname => Val::Text(e.refname),
        Col::Remote => match e.remote { Some(s) => Val::Text(s), None => Val::Null },
        Col::Key => Val::Blob(e.key),
        _ => Val::Null,
    }
}
/// All conditions from the i-th on hold.
pub open spec fn kv_conds(k: Seq<u8>, v: Seq<u8>, cs: Seq<Cond>, ps: Seq<Val>) -> bool
    decreases cs.len()
{
    if cs.len() == 0 { true } else { kv_conds(k, v, cs.drop_last(), ps) && cmp_ok(cs.last().op, kv_col(k, v, cs.last().col), ps[cs.last().p]) }
}
pub open spec fn ref_conds(e: RefEntV, cs: Seq<Cond>, ps: Seq<Val>) -> bool
    decreases cs.len()
{
    if cs.len() == 0 { true } else { ref_conds(e, cs.drop_last(), ps) && cmp_ok(cs.last().op, ref_col(e, cs.last().col), ps[cs.last().p]) }
}
pub open spec fn kv_table(t: TabsV, tbl: Tbl) -> Map<Seq<u8>, Seq<u8>> {
    match tbl { Tbl::Data => t.st.data, Tbl::State => t.st.state, _ => t.cache }
}
/// `out` lists the keys of exactly the matching rows, each once, in some order.
pub open spec fn kv_rows(m: Map<Seq<u8>, Seq<u8>>, cs: Seq<Cond>, ps: Seq<Val>, out: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int| #![trigger out[i]] 0 <= i < out.len() ==> m.contains_key(out[i]) && kv_conds(out[i], m[out[i]], cs, ps)
    &&& forall|k: Seq<u8>| #![trigger m.contains_key(k)] #![trigger m[k]] m.contains_key(k) && kv_conds(k, m[k], cs, ps) ==> exists|i: int| 0 <= i < out.len() && #[trigger] out[i] == k
    &&& forall|i: int, j: int| 0 <= i < j < out.len() ==> #[trigger] out[i] != #[trigger] out[j]
}
/// The matching entries of the ref log, newest first.
pub open spec fn ref_rows(log: Seq<RefEntV>, cs: Seq<Cond>, ps: Seq<Val>) -> Seq<RefEntV>
    decreases log.len()
{
    if log.len() == 0 { Seq::empty() } else {
        let rest = ref_rows(log.drop_last(), cs, ps);
        if ref_conds(log.last(), cs, ps) { seq![log.last()] + rest } else { rest }
    }
}
pub open spec fn cut<T>(s: Seq<T>, limit: Option<nat>) -> Seq<T> { match limit { Some(n) => take_upto(s, n as int), None => s } }
pub open spec fn take_upto<T>(s: Seq<T>, n: int) -> Seq<T> { if n < s.len() { s.take(n) } else { s } }
/// What a row shows.
pub open spec fn shown_ref(e: RefEntV, what: What) -> Val { match what { What::Col(c) => ref_col(e, c), What::Count => Val::Null } }
/// `rows` may be the answer to the query.
pub open spec fn answer(t: TabsV, q: SqlV, ps: Seq<Val>, rows: Seq<Val>) -> bool {
    match q {
        SqlV::Select { tbl: Tbl::Reflog, what, conds, order, limit } => {
            let all = ref_rows(t.st.reflog, conds, ps);
            match what {
                What::Count => rows == seq![Val::Int(all.len() as int)],
                What::Col(c) => match order {
                    OrderBy::Desc => rows == cut(all, limit).map_values(|e: RefEntV| ref_col(e, c)),
                    OrderBy::Asc => rows == cut(all.reverse(), limit).map_values(|e: RefEntV| ref_col(e, c)),
                    OrderBy::Any => exists|p: Seq<RefEntV>| p.to_multiset() == all.to_multiset() && rows == cut(p, limit).map_values(|e: RefEntV| ref_col(e, c)),
                },
            }
        }
        SqlV::Select { tbl, what, conds, order, limit } => {
            let m = kv_table(t, tbl);
            exists|ks: Seq<Seq<u8>>| #[trigger] kv_rows(m, conds, ps, ks) && (match what {
                What::Count => rows == seq![Val::Int(ks.len() as int)],
                What::Col(c) => rows == cut(ks, limit).map_values(|k: Seq<u8>| kv_col(k, m[k], c)),
            })
        }
        _ => rows.len() == 0,
    }
}
pub uninterp spec fn odd_write(t: TabsV, q: SqlV, ps: Seq<Val>) -> TabsV;
pub open spec fn kv_put(t: TabsV, tbl: Tbl, m: Map<Seq<u8>, Seq<u8>>, clash: bool) -> TabsV {
    match tbl {
        Tbl::Data => TabsV { st: StoreV { data: m, clash: t.st.clash || clash, ..t.st }, ..t },
        Tbl::State => TabsV { st: StoreV { state: m, ..t.st }, ..t },
        _ => TabsV { cache: m, ..t },
    }
}
pub open spec fn written(t: TabsV, q: SqlV, ps: Seq<Val>) -> TabsV {
    match q {
        SqlV::Insert { tbl, policy, key, value } => match (ps[key], ps[value]) {
            (Val::Blob(k), Val::Blob(v)) => {
                let m = kv_table(t, tbl);
                if m.contains_key(k) && policy is Ignore { kv_put(t, tbl, m, m[k] != v) } else { kv_put(t, tbl, m.insert(k, v), false) }
            }
            _ => odd_write(t, q, ps),
        },
        SqlV::InsertRef { refname, remote, key } => match (ps[refname], ps[remote], ps[key]) {
            (Val::Text(n), Val::Null, Val::Blob(k)) => TabsV { st: StoreV { reflog: t.st.reflog.push(RefEntV { refname: n, remote: None, key: k }), ..t.st }, ..t },
            (Val::Text(n), Val::Text(r), Val::Blob(k)) => TabsV { st: StoreV { reflog: t.st.reflog.push(RefEntV { refname: n, remote: Some(r), key: k }), ..t.st }, ..t },
            _ => odd_write(t, q, ps),
        },
        SqlV::Schema { tables, if_not_exists } => TabsV { tables: t.tables.union(tables), ..t },
        _ => t,
    }
}
/// rusqlite passes texts as C strings.
pub open spec fn params_ok(ps: Seq<Val>) -> bool { forall|i: int| 0 <= i < ps.len() && #[trigger] ps[i] is Text ==> no_nul(ps[i]->Text_0) }
/// On a working database the statement succeeds.
pub open spec fn can_run(d: DbV, q: SqlV, ps: Seq<Val>) -> bool {
    params_ok(ps) && match q {
        SqlV::Begin => d.saved is None,
        SqlV::Commit | SqlV::Rollback => d.saved is Some,
        SqlV::Insert { tbl, policy, key, value } => 0 <= key < ps.len() && 0 <= value < ps.len() && ps[key] is Blob && ps[value] is Blob
            && !(policy is Abort && kv_table(d.cur, tbl).contains_key(ps[key]->Blob_0)),
        SqlV::InsertRef { refname, remote, key } => 0 <= refname < ps.len() && 0 <= remote < ps.len() && 0 <= key < ps.len() && ps[refname] is Text && (ps[remote] is Null || ps[remote] is Text) && ps[key] is Blob,
        SqlV::Select { .. } => true,
        SqlV::Schema { tables, if_not_exists } => if_not_exists || tables.disjoint(d.cur.tables),
    }
}
/// The effect of running a statement that answers no rows.
pub open spec fn ran(a: DbV, q: SqlV, ps: Seq<Val>, ok: bool, b: DbV) -> bool {
    &&& (!ok ==> b == a)
    &&& (a.healthy ==> ok == can_run(a, q, ps))
    &&& (ok ==> match q {
        SqlV::Begin => a.saved is None && b == (DbV { saved: Some(a.cur), ..a }),
        SqlV::Commit => a.saved is Some && b == (DbV { saved: None, ..a }),
        SqlV::Rollback => a.saved is Some && b == (DbV { cur: a.saved.unwrap(), saved: None, ..a }),
        _ => b == (DbV { cur: written(a.cur, q, ps), ..a }),
    })
}
/// The tables a file holds, and whether it is a database this program can open.
pub uninterp spec fn file_tabs<S>(path: S) -> TabsV;
pub uninterp spec fn file_id<S>(path: S) -> int;
pub uninterp spec fn file_ok<S>(path: S) -> bool;
/// Every write is synced before it counts as done.
pub open spec fn sync_full(v: Val) -> bool {
    v == Val::Int(2) || v == Val::Int(3) || v == Val::Text("2"@) || v == Val::Text("3"@) || v == Val::Text("full"@) || v == Val::Text("FULL"@) || v == Val::Text("extra"@) || v == Val::Text("EXTRA"@)
}
/// A rollback journal kept on disk.
pub open spec fn journal_disk(v: Val) -> bool {
    v == Val::Text("truncate"@) || v == Val::Text("TRUNCATE"@) || v == Val::Text("delete"@) || v == Val::Text("DELETE"@) || v == Val::Text("persist"@) || v == Val::Text("PERSIST"@)
}
// Consequences used by the proofs (all proved).
pub mod ax_sql { use super::*;
pub broadcast proof fn lemma_kv_conds1(k: Seq<u8>, v: Seq<u8>, cs: Seq<Cond>, ps: Seq<Val>)
    requires cs.len() == 1
    ensures #[trigger] kv_conds(k, v, cs, ps) == cmp_ok(cs[0].op, kv_col(k, v, cs[0].col), ps[cs[0].p])
{ reveal_with_fuel(kv_conds, 2); }
pub broadcast proof fn lemma_kv_conds2(k: Seq<u8>, v: Seq<u8>, cs: Seq<Cond>, ps: Seq<Val>)
    requires cs.len() == 2
    ensures #[trigger] kv_conds(k, v, cs, ps) == (cmp_ok(cs[0].op, kv_col(k, v, cs[0].col), ps[cs[0].p]) && cmp_ok(cs[1].op, kv_col(k, v, cs[1].col), ps[cs[1].p]))
{ reveal_with_fuel(kv_conds, 3); }
pub broadcast proof fn lemma_ref_conds2(e: RefEntV, cs: Seq<Cond>, ps: Seq<Val>)
    requires cs.len() == 2
    ensures #[trigger] ref_conds(e, cs, ps) == (cmp_ok(cs[0].op, ref_col(e, cs[0].col), ps[cs[0].p]) && cmp_ok(cs[1].op, ref_col(e, cs[1].col), ps[cs[1].p]))
{ reveal_with_fuel(ref_conds, 3); }
/// A condition that picks the entries of one ref selects that ref's history.
pub broadcast proof fn lemma_ref_rows(log: Seq<RefEntV>, cs: Seq<Cond>, ps: Seq<Val>, name: Seq<char>, remote: Option<Seq<char>>)
    requires forall|e: RefEntV| #[trigger] ref_conds(e, cs, ps) == ref_is(e, name, remote)
    ensures
        (#[trigger] ref_rows(log, cs, ps)).len() == (#[trigger] ref_history(log, name, remote)).len(),
        forall|i: int| 0 <= i < ref_rows(log, cs, ps).len() ==> #[trigger] ref_history(log, name, remote)[i] == ref_rows(log, cs, ps)[i].key,
    decreases log.len()
{ if log.len() > 0 { lemma_ref_rows(log.drop_last(), cs, ps, name, remote); assert(ref_conds(log.last(), cs, ps) == ref_is(log.last(), name, remote)); } }
pub broadcast proof fn lemma_history_keys(log: Seq<RefEntV>, name: Seq<char>, remote: Option<Seq<char>>)
    requires #[trigger] ref_keys_ok(log)
    ensures forall|i: int| 0 <= i < (#[trigger] ref_history(log, name, remote)).len() ==> exists|k: Key| #[trigger] db_key(k) == #[trigger] ref_history(log, name, remote)[i]
    decreases log.len()
{
    if log.len() > 0 {
        assert(ref_keys_ok(log.drop_last())) by {
            assert forall|i: int| 0 <= i < log.drop_last().len() implies exists|k: Key| #[trigger] db_key(k) == (#[trigger] log.drop_last()[i]).key by { assert(log[i] == log.drop_last()[i]); }
        }
        lemma_history_keys(log.drop_last(), name, remote);
        let rest = ref_history(log.drop_last(), name, remote);
        let h = ref_history(log, name, remote);
        assert forall|i: int| 0 <= i < h.len() implies exists|k: Key| #[trigger] db_key(k) == #[trigger] h[i] by {
            if ref_is(log.last(), name, remote) { if i == 0 { assert(h[0] == log[log.len() - 1].key); } else { assert(h[i] == rest[i - 1]); } } else { assert(h[i] == rest[i]); }
        }
    }
}
/// A condition on the key alone selects at most one row.
pub broadcast proof fn lemma_one_key(m: Map<Seq<u8>, Seq<u8>>, cs: Seq<Cond>, ps: Seq<Val>, out: Seq<Seq<u8>>)
    requires #[trigger] kv_rows(m, cs, ps, out), cs.len() == 1, cs[0].col is Key, cs[0].op is Eq || cs[0].op is Is, ps[cs[0].p] is Blob
    ensures m.contains_key(ps[cs[0].p]->Blob_0) ==> out == seq![ps[cs[0].p]->Blob_0], !m.contains_key(ps[cs[0].p]->Blob_0) ==> out == Seq::<Seq<u8>>::empty()
{
    let k = ps[cs[0].p]->Blob_0;
    assert forall|x: Seq<u8>| m.contains_key(x) implies kv_conds(x, m[x], cs, ps) == (x == k) by {
        lemma_kv_conds1(x, m[x], cs, ps);
    }
    if out.len() > 0 { assert(out[0] == k); }
    if out.len() > 1 { assert(out[1] == k); assert(out[0] != out[1]); }
    if m.contains_key(k) { assert(out =~= seq![k]); } else { assert(out =~= Seq::<Seq<u8>>::empty()); }
}
pub broadcast proof fn lemma_listing(m: Map<Seq<u8>, Seq<u8>>, cs: Seq<Cond>, ps: Seq<Val>, ks: Seq<Seq<u8>>, v: Seq<Vec<u8>>, st: StoreV, start: Seq<u8>, end: Option<Seq<u8>>)
    requires #[trigger] kv_rows(m, cs, ps, ks), m == st.data, ks.len() == v.len(), forall|i: int| #![trigger v[i]] 0 <= i < v.len() ==> v[i]@ == ks[i],
        forall|k: Seq<u8>, x: Seq<u8>| #[trigger] kv_conds(k, x, cs, ps) == in_range(k, start, end)
    ensures #[trigger] is_listing_of(v, st, start, end)
{
    assert forall|k: Seq<u8>| st.data.contains_key(k) && #[trigger] in_range(k, start, end) implies exists|i: int| 0 <= i < v.len() && #[trigger] v[i]@ == k by {
        assert(kv_conds(k, m[k], cs, ps));
        let i = choose|i: int| 0 <= i < ks.len() && #[trigger] ks[i] == k;
        assert(v[i]@ == k);
    }
    assert forall|i: int| 0 <= i < v.len() implies st.data.contains_key(#[trigger] v[i]@) && in_range(v[i]@, start, end) by { assert(kv_conds(ks[i], m[ks[i]], cs, ps)); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i]@ != #[trigger] v[j]@ by { assert(ks[i] != ks[j]); }
}
pub broadcast group group_sql { lemma_listing,  lemma_kv_conds1, lemma_kv_conds2, lemma_ref_conds2, lemma_ref_rows, lemma_one_key, lemma_history_keys }
}
