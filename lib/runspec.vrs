// ---------------------------------------------------------------------------
// The program: which repository it works on, what its commands do, and how it ends.
// ---------------------------------------------------------------------------
pub open spec fn head_set(a: State, b: State, name: Seq<char>) -> bool { a.ds_state is Some && sv(b) == headed(sv(a), name) }
pub open spec fn ref_updated(a: State, b: State, args: RefUpdateArgs) -> bool {
    a.ds_state is Some && exists|e: Reflog| #![trigger ref_ent(e)]
        ref_named(sv(a), args.refname, e.refname@) && e.remote is None && resolved(a, args.key, e.key.inner) && sv(b) == pushed(sv(a), e)
}
pub open spec fn ref_pushed(a: State, b: State, args: ReflogPushArgs) -> bool {
    a.ds_state is Some && exists|e: Reflog| #![trigger ref_ent(e)]
        e.refname == args.refname && e.remote == args.remote && resolved(a, args.key, e.key.inner) && sv(b) == pushed(sv(a), e)
}
#[verifier::opaque]
pub open spec fn all_resolved(s: State, q: Seq<Keyish>, ps: Seq<Key>) -> bool { q.len() == ps.len() && forall|i: int| 0 <= i < q.len() ==> resolved(s, #[trigger] q[i], ps[i]) }
/// A commit of a stored tree, with the given parents, an empty message and nothing else.
pub open spec fn tree_committed(a: State, b: State, args: CommitTreeArgs) -> bool {
    a.ds_state is Some && (!sv(b).clash ==> exists|k: Key, t: Key, ps: Seq<Key>, at: AttrsV| #[trigger] commit_is(sv(b), k, t, ps, at)
        && resolved(a, args.tree, t) && all_resolved(a, args.parents@, ps) && at == (AttrsV { message: Seq::empty(), extra: Map::empty() }))
}
/// What a debugging command that succeeds has done.
pub open spec fn debugged(a: State, b: State, args: DebugCommand) -> bool {
    match args {
        DebugCommand::CommitTree(x) => tree_committed(a, b, x) && grows(sv(a), sv(b)),
        DebugCommand::ReflogPush(x) => ref_pushed(a, b, x),
        DebugCommand::SetHead(x) => head_set(a, b, x.refname@),
        _ => cmd_same(a, b),
    }
}
/// The nearest directory, from c upwards, that has something of this name.
pub open spec fn nearest(c: Comps, name: Comps) -> Option<Comps> decreases c.len() {
    if there(pjoin(c, name)) { Some(pjoin(c, name)) } else { match pparent(c) { Some(p) => nearest(p, name), None => None } }
}
/// A command works on the nearest repository, with what was asked for.
pub open spec fn right_repo(s: State) -> bool {
    &&& s.common == asked().common
    &&& s.ds_state is Some == nearest(work_dir(), asked().common.db_path@) is Some
    &&& s.ds_state matches Some(x) ==> nearest(work_dir(), asked().common.db_path@) == Some(x.db_folder_path@) && pparent(x.db_folder_path@) == Some(x.repo_path@)
        && x.ds.ctx().file == file_at(pjoin(x.db_folder_path@, str_comps("snapcd.db"@)))
}
/// The repository `init` works on: where it is, and what is in it.
pub tracked struct Made { pub ghost file: int, pub ghost view: StoreV, pub ghost healthy: bool }
/// What `init` leaves: a repository with a HEAD; an existing one stays as it is.
pub open spec fn initialised(db: Comps, w: Made) -> bool {
    let v = held(file_at(pjoin(db, str_comps("snapcd.db"@))));
    &&& w.file == file_at(pjoin(db, str_comps("snapcd.db"@)))
    &&& w.healthy ==> w.view == (if v.state.contains_key(head_key()) { v } else { headed(v, "master"@) })
    &&& w.view == v || w.view == headed(v, "master"@)
}
/// SqliteDS::new and put_head, as init uses them.
pub fn vx_open<S: VxPath>(path: S, Tracked(w): Tracked<&mut Made>) -> (r: Result<SqliteDS, NewSqliteError>)
    ensures r matches Ok(ds) ==> ds.ctx().saved is None && ds.ctx().file == file_at(path.pv()) && ds.view() == held(file_at(path.pv()))
        && *final(w) == (Made { file: ds.ctx().file, view: ds.view(), healthy: ds.ctx().healthy })
{ let r = SqliteDS::new(path); proof { if r is Ok { w.file = r->Ok_0.ctx().file; w.view = r->Ok_0.view(); w.healthy = r->Ok_0.ctx().healthy; } } r }
impl SqliteDS {
    pub fn vx_put_head(&mut self, name: &str, Tracked(w): Tracked<&mut Made>) -> (r: Result<(), RawPutStateError>)
        requires old(w).file == old(self).ctx().file, old(w).view == old(self).view(), old(w).healthy == old(self).ctx().healthy
        ensures
            final(self).ctx() == old(self).ctx(), *final(w) == (Made { view: final(self).view(), ..*old(w) }),
            final(self).view() == old(self).view() || final(self).view() == headed(old(self).view(), name@),
            r is Ok ==> final(self).view() == headed(old(self).view(), name@),
    { let r = self.put_head(name); proof { w.view = self.view(); } r }
}
// --- the run of a command -----------------------------------------------------
/// What happened: what the repository held when its transaction began, what somebody who opens it finds, and how the command ended.
pub open spec fn left(s: State) -> Option<StoreV> { match s.ds_state { Some(x) => Some(x.ds.view()), None => None } }
pub tracked struct Run { pub tracked fs: World, pub tracked made: Made, pub ghost begun: Option<StoreV>, pub ghost visible: Option<StoreV>, pub ghost outcome: Option<(bool, Option<StoreV>)> }
pub open spec fn all_or_nothing(w: Run, ok: bool) -> bool {
    match w.outcome {
        None => w.visible == w.begun,
        Some((good, left)) => left is Some == w.begun is Some && w.visible == if good && ok { left } else { w.begun },
    }
}
/// What the end of the program says and leaves behind: success exactly if the command succeeded and what it did is there to stay; otherwise, nothing has changed.
pub open spec fn leaves(w: Run, ok: bool) -> bool {
    all_or_nothing(w, ok) && (ok ==> (w.outcome matches Some((good, _)) && good))
}
/// Transaction commands as main runs them: what they do to what is visible.
pub trait VxTrans: Transactional {
    spec fn is_repo() -> bool;
    fn vx_begin_trans(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), BeginTransError>)
        ensures
            final(self).view() == old(self).view(), final(self).ctx().file == old(self).ctx().file,
            r is Ok ==> old(self).ctx().saved is None && final(self).ctx().saved == Some(old(self).view()),
            final(w).outcome == old(w).outcome,
            if r is Ok && Self::is_repo() { final(w).begun == Some(old(self).view()) && final(w).visible == Some(old(self).view()) } else { *final(w) == *old(w) },
    ;
    fn vx_commit(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), CommitTransError>)
        ensures
            final(self).view() == old(self).view(), final(w).outcome == old(w).outcome, final(w).begun == old(w).begun,
            r is Ok ==> old(self).ctx().saved is Some && final(self).ctx().saved is None,
            final(w).visible == if r is Ok && Self::is_repo() { Some(old(self).view()) } else { old(w).visible },
    ;
    fn vx_rollback(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), RollbackTransError>)
        ensures *final(w) == *old(w), r is Ok ==> final(self).ctx().saved is None && old(self).ctx().saved == Some(final(self).view()),
    ;
}
impl VxTrans for SqliteDS {
    open spec fn is_repo() -> bool { true }
    fn vx_begin_trans(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), BeginTransError>) { let r = self.begin_trans(); proof { if r is Ok { w.begun = Some(self.view()); w.visible = Some(self.view()); } } r }
    fn vx_commit(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), CommitTransError>) { let r = self.commit(); proof { if r is Ok { w.visible = Some(self.view()); } } r }
    fn vx_rollback(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), RollbackTransError>) { self.rollback() }
}
impl VxTrans for SqliteCache {
    open spec fn is_repo() -> bool { false }
    fn vx_begin_trans(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), BeginTransError>) { self.begin_trans() }
    fn vx_commit(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), CommitTransError>) { self.commit() }
    fn vx_rollback(&mut self, Tracked(w): Tracked<&mut Run>) -> (r: Result<(), RollbackTransError>) { self.rollback() }
}
/// std::process::exit: nothing happens after it.
pub mod process { use super::*;
#[verifier::external_body] pub fn exit(code: i32, Tracked(w): Tracked<&mut Run>) requires leaves(*old(w), code == 0) ensures false { unimplemented!() }
}
