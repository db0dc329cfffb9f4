//! C23: what the commands print, against a model of the repository.
use crate::cli_cases::*;
use crate::fs_cases::{T::*, *};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::commit::Commit;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::{dir, DataStore};
use std::collections::{BTreeMap, BTreeSet};
use std::convert::TryInto;
use std::path::{Path, PathBuf};

#[derive(Clone)]
struct Cm { tree: T, tkey: Key, msg: String, parents: Vec<Key> }
struct World { m: Model, cs: BTreeMap<Vec<u8>, Cm>, did: Vec<String> }

fn dbk(k: Key) -> Vec<u8> { k.as_db_key().to_vec() }

/// The stored commit, as the library reads it (what it reads is checked elsewhere).
fn note_commit(x: &Cli, w: &mut World, k: Key, tree: T) -> Result<(), String> {
    let ds = SqliteDS::new(&x.db()).map_err(s)?;
    let c: Commit = ds.get_obj(k).map_err(s)?.into_owned().try_into().map_err(|e| format!("(set-up) {}", e))?;
    w.cs.insert(dbk(k), Cm { tree, tkey: c.tree().inner(), msg: c.attrs().message().to_string(), parents: c.parents().iter().map(|p| p.inner()).collect() });
    Ok(())
}

fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }
fn text_of(o: &Out) -> Result<String, String> { String::from_utf8(o.stdout.clone()).map_err(|_| "what is printed is not text".to_string()) }

/// added / deleted / modified: exactly the differences, or entries below a listed one left out.
fn check_report(t: &str, new: &T, old: &T) -> Result<(), String> {
    let want = expected(new, old);
    let mut got: [Vec<(String, bool)>; 3] = Default::default();
    let mut at = None;
    for l in t.lines() {
        match l { "deleted:" => at = Some(0), "added:" => at = Some(1), "modified:" => at = Some(2),
            _ => { let p = l.strip_prefix("  ").ok_or(format!("the line {:?} is neither a heading nor a path", l))?;
                let i = at.ok_or(format!("{:?} is under no heading", p))?;
                let (p, d) = match p.strip_suffix('/') { Some(q) => (q, true), None => (p, false) };
                got[i].push((p.to_string(), d)); } }
    }
    for (i, nm) in ["deleted", "added", "modified"].iter().enumerate() {
        let mut seen = BTreeSet::new();
        for e in &mut got[i] {
            // The slash marks an item without a key, so a folder may come without one, but never a file with one.
            if !e.1 && want[i].contains(&(e.0.clone(), true)) { e.1 = true; }
            let e = &*e;
            ensure(want[i].contains(e), || format!("{:?}{} is listed as {}", e.0, if e.1 { " (a directory)" } else { "" }, nm))?;
            ensure(seen.insert(e.clone()), || format!("{:?} is listed twice as {}", e.0, nm))?;
        }
        for e in &want[i] {
            let below = i < 2 && got[i].iter().any(|g| g.0 != e.0 && Path::new(&e.0).starts_with(&g.0));
            ensure(seen.contains(e) || below, || format!("{:?} is {} and neither it nor a folder above it is listed as {}", e.0, nm, nm))?;
        }
    }
    Ok(())
}

fn nls(b: &[u8]) -> i64 { b.iter().filter(|c| **c == 10).count() as i64 }
fn parts(b: &[u8]) -> i64 { if b.is_empty() { 0 } else { nls(b) + 1 } }
/// One line of counts for each file that differs.
fn check_stat(ls: &[&str], new: &T, old: &T) -> Result<(), String> {
    let (a, b) = (flatten(new), flatten(old));
    let want = expected(new, old);
    let all: BTreeSet<String> = want.iter().flat_map(|l| l.iter().filter(|e| !e.1).map(|e| e.0.clone())).collect();
    let mut seen = BTreeSet::new();
    for l in ls {
        let bad = || format!("the line {:?} is not PATH  +N -M", l);
        let (p, n) = l.split_once("  +").ok_or_else(bad)?;
        let (ad, rm) = n.split_once(" -").ok_or_else(bad)?;
        let (ad, rm): (i64, i64) = (ad.parse().map_err(|_| bad())?, rm.parse().map_err(|_| bad())?);
        ensure(all.contains(p), || format!("{:?} is counted and does not differ", p))?;
        // A path can differ on both sides only as a file that became a directory, or the other way round.
        ensure(seen.insert(p.to_string()), || format!("{:?} is counted twice", p))?;
        let f = |m: &BTreeMap<PathBuf, T>| match m.get(Path::new(p)) { Some(F(b)) => Some(b.clone()), _ => None };
        let ok = match (f(&a), f(&b)) {
            (Some(y), None) => ad == nls(&y) && rm == 0,
            (None, Some(y)) => rm == nls(&y) && ad == 0,
            (Some(y), Some(z)) => ad - rm == parts(&y) - parts(&z) && ad <= parts(&y) && rm <= parts(&z),
            _ => false,
        };
        ensure(ok, || format!("the counts of {:?} are wrong", l))?;
    }
    for p in &all { ensure(seen.contains(p), || format!("{:?} differs and is not counted", p))?; }
    Ok(())
}

/// The patch of each file that differs: removed and added lines turn the old lines into the new ones.
fn check_patch(t: &str, new: &T, old: &T) -> Result<(), String> {
    let (a, b) = (flatten(new), flatten(old));
    let want = expected(new, old);
    let all: BTreeSet<String> = want.iter().flat_map(|l| l.iter().filter(|e| !e.1).map(|e| e.0.clone())).collect();
    let file = |m: &BTreeMap<PathBuf, T>, p: &str| match m.get(Path::new(p)) { Some(F(b)) => Some(lossy(b)), _ => None };
    let texts = |m: &BTreeMap<PathBuf, T>| all.iter().filter_map(|p| file(m, p).map(|t| (p.clone(), t))).collect::<crate::patch_cases::Files>();
    // print! ends the patches with one more newline.
    crate::patch_cases::check(t.strip_suffix('\n').ok_or("nothing is printed")?, &texts(&a), &texts(&b), &all)
}

fn undisplayable(new: &T, old: &T) -> bool {
    let (a, b) = (flatten(new), flatten(old));
    let w = expected(new, old);
    let bad = |m: &BTreeMap<PathBuf, T>, p: &str| matches!(m.get(Path::new(p)), Some(F(b)) if std::str::from_utf8(b).is_err());
    w[1].iter().any(|e| bad(&a, &e.0)) || w[0].iter().any(|e| bad(&b, &e.0))
}

fn parent_tree(w: &World, c: &Cm) -> T { match c.parents.first() { Some(p) => w.cs[&dbk(*p)].tree.clone(), None => D(BTreeMap::new()) } }
fn head_text(k: Key, c: &Cm) -> String { format!("commit: {}\n\n{}\n\n", k.as_user_key(), c.msg) }

fn abbrev(k: Key, r: &mut Rng) -> String { let t = k.as_user_key(); if r.chance(1, 3) { t[..24 + r.below(29)].to_string() } else { t } }

fn view(x: &mut Cli, w: &mut World, t: &T, r: &mut Rng) -> Result<(), String> {
    let commits: Vec<Key> = w.cs.keys().map(|k| Key::from_db_key(k).unwrap()).collect();
    match r.below(9) {
        0 => {
            let name = if r.chance(1, 2) { Some(r.pick(REFS).to_string()) } else { None };
            let remote = if name.is_some() && r.chance(1, 3) { Some("origin".to_string()) } else { None };
            let mut cmd = a(&["ref", "log"]);
            for q in [&name, &remote] { if let Some(q) = q { if cmd.len() == 2 { cmd.push("--".into()); } cmd.push(q.clone()); } }
            let o = x.run(&cmd);
            let n = name.unwrap_or_else(|| w.m.head.clone());
            let ks: Vec<Key> = w.m.log.iter().rev().filter(|e| e.0 == n && e.1 == remote).map(|e| e.2).collect();
            let got = text_of(&o)?;
            let ls: Vec<&str> = got.lines().skip(1).collect();
            let want: Vec<String> = ks.iter().enumerate().map(|(i, k)| format!("{}: {}", ks.len() - i, k.as_user_key())).collect();
            ensure(!o.failed && ls == want, || format!("{:?} prints {:?} instead of {:?}", cmd, ls, want))
        }
        1 if !commits.is_empty() => {
            // One item of a snapshot.
            let c = w.cs[&dbk(*r.pick(&commits))].clone();
            let ds = SqliteDS::new(&x.db()).map_err(s)?;
            let items = dir::walk_fs_items(&ds, c.tkey.into()).map_err(s)?;
            let f = flatten(&c.tree);
            let ps: Vec<(PathBuf, Key, bool)> = items.iter().map(|(p, (k, d))| (p.clone(), k.inner(), *d)).collect();
            let mut ps = ps;
            ps.sort();
            if ps.is_empty() { return Ok(()); }
            let (p, k, d) = r.pick(&ps).clone();
            drop(ds);
            let cmd = a(&["show", "--", &abbrev(k, r)]);
            let o = x.run(&cmd);
            let want: Vec<u8> = if d { format!("tree: {}\n", k.as_user_key()).into_bytes() } else { match f.get(&p) { Some(F(b)) => b.clone(), _ => return Ok(()) } };
            ensure(!o.failed && o.stdout == want, || format!("{:?} ({:?}) prints {} bytes {:?} instead of {} bytes {:?}", cmd, p, o.stdout.len(), clip(&lossy(&o.stdout), 200), want.len(), clip(&lossy(&want), 200)))
        }
        2 if !commits.is_empty() => {
            let merges: Vec<Key> = commits.iter().copied().filter(|k| w.cs[&dbk(*k)].parents.len() > 1).collect();
            let (k, arg) = if r.chance(1, 2) { let of = if !merges.is_empty() && r.chance(2, 3) { &merges } else { &commits }; let k = *r.pick(of); (k, Some(abbrev(k, r))) } else { match w.m.latest(&w.m.head) { Some(l) => (l.2, None), None => return Ok(()) } };
            if !w.cs.contains_key(&dbk(k)) { return Ok(()); }
            let c = w.cs[&dbk(k)].clone();
            let old = parent_tree(w, &c);
            let mut cmd = a(&["show"]);
            if let Some(q) = arg { cmd.push("--".into()); cmd.push(q); }
            let o = x.run(&cmd);
            if o.failed && undisplayable(&c.tree, &old) { return Ok(()); }
            let got = text_of(&o)?;
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&got, 1500), e);
            ensure(!o.failed, || say(format!("it failed: {}", clip(&o.text, 300))))?;
            let rest = got.strip_prefix(&head_text(k, &c)[..]).ok_or_else(|| say(format!("it should start with {:?}", head_text(k, &c))))?;
            check_patch(rest, &c.tree, &old).map_err(say)
        }
        3 | 4 if !commits.is_empty() => {
            let (k, arg) = if r.chance(1, 2) { let k = *r.pick(&commits); (k, Some(abbrev(k, r))) } else { match w.m.latest(&w.m.head) { Some(l) => (l.2, None), None => return Ok(()) } };
            if !w.cs.contains_key(&dbk(k)) { return Ok(()); }
            let mut cmd = a(&["log"]);
            if let Some(q) = arg { cmd.push("--".into()); cmd.push(q); }
            let o = x.run(&cmd);
            let got = text_of(&o)?;
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&got, 2000), e);
            ensure(!o.failed, || say(format!("it failed: {}", clip(&o.text, 300))))?;
            let mut rest: &str = &got;
            let mut at = Some(k);
            while let Some(k) = at {
                let c = &w.cs[&dbk(k)];
                rest = rest.strip_prefix(&head_text(k, c)[..]).ok_or_else(|| say(format!("{:?} should come where {:?} is", head_text(k, c), clip(rest, 200))))?;
                let end = if rest.starts_with("\n\n") { 0 } else { rest.find("\n\n\n").map(|i| i + 1).ok_or_else(|| say(format!("two empty lines should follow {}", k.as_user_key())))? };
                check_stat(&rest[..end].lines().collect::<Vec<_>>(), &c.tree, &parent_tree(w, c)).map_err(|e| say(format!("of {}: {}", k.as_user_key(), e)))?;
                rest = &rest[end + 2..];
                at = c.parents.first().copied();
            }
            ensure(rest.is_empty(), || say(format!("nothing should come after the first commit, and {:?} does", rest)))
        }
        5 => {
            let ps = patterns(r, &x.work);
            let cmd = with_excl(a(&["status"]), &ps);
            let o = x.run(&cmd);
            let got = text_of(&o)?;
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&got, 1500), e);
            ensure(!o.failed, || say(format!("it failed: {}", clip(&o.text, 300))))?;
            match w.m.latest(&w.m.head) {
                None => ensure(got == format!("HEAD: {} (no commits on {})\n", w.m.head, w.m.head), || say(format!("there are no commits on {:?}", w.m.head))),
                Some(l) => {
                    if !w.cs.contains_key(&dbk(l.2)) { return Ok(()); }
                    let h = format!("HEAD: {} [{}]\n", w.m.head, &l.2.as_user_key()[..8]);
                    let rest = got.strip_prefix(&h[..]).ok_or_else(|| say(format!("it should start with {:?}", h)))?;
                    check_report(rest, &keep(t, Path::new(""), &x.work, &None, &ps), &w.cs[&dbk(l.2)].tree).map_err(say)
                }
            }
        }
        6 | 7 => {
            let stat = r.chance(1, 2);
            let ps = patterns(r, &x.work);
            let (key, old) = if r.chance(1, 2) && !commits.is_empty() { let c = w.cs[&dbk(*r.pick(&commits))].clone(); (Some(c.tkey), c.tree) }
                else { match w.m.latest(&w.m.head) { Some(l) if w.cs.contains_key(&dbk(l.2)) => (None, w.cs[&dbk(l.2)].tree.clone()), _ => return Ok(()) } };
            let mut cmd = with_excl(a(&["compare"]), &ps);
            let mut new = keep(t, Path::new(""), &x.work, &None, &ps);
            let dirs: Vec<PathBuf> = flatten(t).into_iter().filter(|(_, v)| is_dir(v)).map(|(p, _)| p).collect();
            if r.chance(1, 3) && !dirs.is_empty() {
                let d = r.pick(&dirs).clone();
                let mut sub = t.clone();
                for q in d.components() { sub = match sub { D(mut z) => z.remove(q.as_os_str()).unwrap(), f => f }; }
                let base = x.work.join(&d);
                let ps2: Vec<String> = ps.clone();
                new = keep(&sub, Path::new(""), &base, &None, &ps2);
                cmd.push(format!("--path={}", base.display()));
            }
            if stat { cmd.push("--stat".into()); }
            if let Some(k) = key { cmd.push("--".into()); cmd.push(abbrev(k, r)); }
            let o = x.run(&cmd);
            let got = text_of(&o)?;
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&got, 1500), e);
            ensure(!o.failed, || say(format!("it failed: {}", clip(&o.text, 300))))?;
            if stat { check_stat(&got.lines().collect::<Vec<_>>(), &new, &old).map_err(say) } else { check_report(&got, &new, &old).map_err(say) }
        }
        _ => {
            let n = r.pick(REFS).to_string();
            let remote = if r.chance(1, 3) { Some("origin".to_string()) } else { None };
            let mut cmd = a(&["debug", "reflog-get", "--", &n]);
            if let Some(q) = &remote { cmd.push(q.clone()); }
            let o = x.run(&cmd);
            let want = w.m.log.iter().rev().find(|e| e.0 == n && e.1 == remote).map(|e| format!("{}\n", e.2.as_user_key()));
            match want {
                Some(k) => ensure(!o.failed && o.stdout == k.as_bytes(), || format!("{:?} prints {:?} instead of {:?}", cmd, o.text, k)),
                None => ensure(o.failed, || format!("{:?} finds {:?} where there is nothing", cmd, o.text)),
            }
        }
    }
}

fn step(x: &mut Cli, w: &mut World, t: &T, r: &mut Rng, what: Option<usize>) -> Result<(), String> {
    match what.unwrap_or_else(|| r.below(8)) {
        0 => {
            let n = r.pick(REFS).to_string();
            x.must(&a(&["debug", "set-head", "--", &n]))?;
            w.did.push(format!("set-head {:?}", n));
            w.m.head = n;
        }
        1 => { other_refs(x, &mut w.m, r)?; w.did.push("an entry on a remote".into()); }
        2 => {
            // insert prints the key of the snapshot it stored.
            let all: Vec<PathBuf> = flatten(t).into_keys().collect();
            let q = if all.is_empty() || r.chance(1, 3) { PathBuf::new() } else { r.pick(&all).clone() };
            let base = if q.as_os_str().is_empty() { x.work.clone() } else { x.work.join(&q) };
            let ps = patterns(r, &base);
            let cmd = with_excl(a(&["insert", "--", &base.display().to_string()]), &ps);
            let o = x.run(&cmd);
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&o.text, 300), e);
            let got = text_of(&o)?;
            let k = got.strip_suffix('\n').and_then(|g| g.rsplit(' ').next()).ok_or_else(|| say("no key".into()))?;
            let ds = SqliteDS::new(&x.db()).map_err(s)?;
            let k = ds.canonicalize(k.parse().map_err(|_| say("no key".into()))?).map_err(|e| say(e.to_string()))?;
            ensure(!o.failed && got.ends_with(&format!("{}\n", k.as_user_key())), || say("no key".into()))?;
            let mut sub = t.clone();
            for p in q.components() { sub = match sub { D(mut z) => z.remove(p.as_os_str()).unwrap(), f => f }; }
            let want = keep(&sub, Path::new(""), &base, &None, &ps);
            let to = x.root.join("back");
            wipe(&to);
            dir::get_fs_item(&ds, k.into(), &to).map_err(|z| say(format!("what it names can not be fetched: {}", z)))?;
            let back = read(&to).ok_or_else(|| say("it names nothing".into()))?;
            ensure(back == want, || say(format!("it names something else: {}", diffmsg(&want, &back))))?;
        }
        3 if !w.cs.is_empty() => {
            // A commit made by hand, with parents.
            let ks: Vec<Key> = w.cs.keys().map(|k| Key::from_db_key(k).unwrap()).collect();
            let c = w.cs[&dbk(*r.pick(&ks))].clone();
            let mut cmd = a(&["debug", "commit-tree", "--", &abbrev(c.tkey, r)]);
            let mut given = vec![];
            for _ in 0..*r.pick(&[0, 1, 2, 2, 2]) { let k = *r.pick(&ks); given.push(k); cmd.push(abbrev(k, r)); }
            let o = x.run(&cmd);
            let got = text_of(&o)?;
            let say = |e: String| format!("{:?} prints {:?}: {}", cmd, clip(&o.text, 300), e);
            let k = got.strip_suffix('\n').ok_or_else(|| say("no key".into()))?;
            let ds = SqliteDS::new(&x.db()).map_err(s)?;
            let k = ds.canonicalize(k.parse().map_err(|_| say("no key".into()))?).map_err(|e| say(e.to_string()))?;
            ensure(k.as_user_key() == got.trim_end(), || say("not the key as it is printed".into()))?;
            drop(ds);
            note_commit(x, w, k, c.tree.clone()).map_err(&say)?;
            let n = &w.cs[&dbk(k)];
            let mut p1 = n.parents.clone();
            p1.sort();
            given.sort();
            ensure(n.tkey == c.tkey && n.msg.is_empty() && p1 == given, || say("the commit it names has another tree, message or other parents".into()))?;
            w.did.push(format!("{:?}", cmd));
        }
        _ => {
            let msg = r.pick(MSGS).to_string();
            let n = if r.chance(1, 3) { Some(r.pick(REFS).to_string()) } else { None };
            let ps = patterns(r, &x.work);
            let mut cmd = with_excl(a(&["commit", &format!("--message={}", msg)]), &ps);
            if let Some(n) = &n { cmd.push("--".into()); cmd.push(n.clone()); }
            let n = n.unwrap_or_else(|| w.m.head.clone());
            x.must(&cmd)?;
            w.did.push(format!("{:?}", cmd));
            let k = { let ds = SqliteDS::new(&x.db()).map_err(s)?; ds.reflog_get(&n, None).map_err(s)?.inner() };
            let tree = keep(t, Path::new(""), &x.work, &None, &ps);
            note_commit(x, w, k, tree.clone())?;
            w.m.log.push((n, None, k, tree));
        }
    }
    Ok(())
}

pub fn c23(c: &mut Ctx) {
    let mut x = Cli::new("c23");
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("printed", &format!("seed {:#x}: what commands print", seed), true, || {
            x.clear();
            x.must(&a(&["init"]))?;
            let mut w = World { m: Model { head: "master".into(), log: vec![] }, cs: BTreeMap::new(), did: vec![] };
            let mut t = D(text_tree(&mut r));
            x.lay(&t, &mut r);
            let merge = r.chance(1, 2);
            for i in 0..2 + r.below(5) {
                // Often two commits, and one by hand on top of them.
                let what = if merge { match i { 0 | 1 => Some(7), 2 => Some(3), _ => None } } else { None };
                step(&mut x, &mut w, &t, &mut r, what).map_err(|e| format!("after {}: {}", w.did.join(", "), e))?;
                if r.chance(1, 2) { if let D(z) = &t { t = D(mutate(z, &mut r, 0)); } x.lay(&t, &mut r); w.did.push("changes".into()); }
                for _ in 0..1 + r.below(3) { view(&mut x, &mut w, &t, &mut r).map_err(|e| format!("after {}: {}", w.did.join(", "), e))?; }
            }
            Ok(())
        });
        if r.chance(1, 6) {
            c.case("unreadable ref", &format!("seed {:#x}: the head's latest entry is not a key", seed), true, || {
                x.clear();
                x.must(&a(&["init"]))?;
                x.lay(&D(text_tree(&mut r)), &mut r);
                if r.chance(1, 2) { x.must(&a(&["commit", "--message=0"]))?; }
                corrupt(&x, "master", &mut r)?;
                for q in ["status", "compare", "show", "log"] {
                    let o = x.run(&a(&[q]));
                    ensure(o.failed, || format!("{} of a HEAD whose latest entry can not be read says {:?}", q, o.text))?;
                }
                Ok(())
            });
        }
    }
    wipe(&x.root);
}
