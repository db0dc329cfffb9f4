//! C25, C26: how the program ends, and which repository it works on.
use crate::cli_cases::*;
use crate::db_cases::key_of;
use crate::fs_cases::{T::*, *};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

fn fatal(o: &Out) -> bool { String::from_utf8_lossy(&o.stdout).lines().any(|l| l.starts_with("fatal: ")) }
/// As if only the exit status could be seen.
fn by_status(o: &Out) -> Out { Out { text: o.text.clone(), stdout: o.stdout.clone(), failed: o.code != Some(0), signal: o.signal, code: o.code } }

pub fn c25(c: &mut Ctx) {
    let mut x = Cli::new("c25");
    let mut first = true;
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        if first || r.chance(1, 4) { first = false; c.case("known outcomes", &format!("seed {:#x}: commands that can only succeed, and commands that can only fail", seed), true, || known(&mut x, &mut r)); }
        else { c.case("sequences", &format!("seed {:#x}: a sequence of commands", seed), true, || sequence(&mut x, &mut r)); }
    }
    wipe(&x.root);
}

fn ended(o: &Out, cmd: &[String], good: Option<bool>) -> Result<(), String> {
    ensure(o.code.is_some(), || format!("{:?} was ended by signal {:?}", cmd, o.signal))?;
    ensure(!fatal(o) || o.code != Some(0), || format!("{:?} says it failed and ends with status 0: {}", cmd, clip(&o.text, 300)))?;
    match good {
        Some(true) => ensure(o.code == Some(0), || format!("{:?} ends with status {:?}: {}", cmd, o.code, clip(&o.text, 300))),
        Some(false) => ensure(o.code != Some(0), || format!("{:?} can not do its work, and ends with status 0: {}", cmd, clip(&o.text, 300))),
        None => Ok(()),
    }
}

/// What the status says is what happened.
fn sequence(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    x.clear();
    let mut t = D(text_tree(r));
    x.lay(&t, r);
    if r.chance(5, 6) { x.must(&a(&["init"]))?; }
    let mut did = vec![];
    for _ in 0..3 + r.below(6) {
        let b = x.dump()?;
        let spoiled = if r.chance(1, 5) { Some(spoil(&x.work, &t, r)) } else { None };
        let (cmd, want) = command(&b, &t, r);
        wipe(&x.root.join("fetched"));
        if r.chance(2, 3) { std::fs::create_dir_all(x.root.join("fetched")).unwrap(); }
        let o = x.run(&cmd);
        let e = x.dump()?;
        did.push(format!("{:?}{} -> {:?}", cmd, spoiled.as_ref().map(|s| format!(" with {}", s)).unwrap_or_default(), o.code));
        let at = |m: String| format!("{}: {}", did.join(", then "), m);
        ended(&o, &cmd, if x.db().exists() { None } else { Some(false) }).map_err(at)?;
        judge(&by_status(&o), &want, &b, &e).map_err(|m| at(format!("(judged by the status) {}", m)))?;
        if cmd[0] == "fetch" && o.code == Some(0) { ensure(std::fs::read_dir(x.root.join("fetched")).map_or(false, |d| d.count() > 0), || at("nothing is fetched".into()))?; }
        if spoiled.is_some() || r.chance(1, 3) { if let D(m) = &t { t = D(mutate(m, r, 0)); } x.lay(&t, r); }
    }
    Ok(())
}

fn known(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    x.clear();
    let z = key_of(r).as_user_key();
    let run = |x: &Cli, cmd: Vec<String>, good: bool| { let o = x.run(&cmd); ended(&o, &cmd, Some(good)).map(|_| o) };
    // No repository: nothing works.
    let away: Vec<Vec<String>> = vec![a(&["status"]), a(&["log"]), a(&["compare"]), a(&["show", &z]), a(&["show"]), a(&["insert", "."]), a(&["commit", "--message=m"]), a(&["fetch", &z, "../fetched"]), a(&["checkout-head", "x"]),
        a(&["ref", "log"]), a(&["ref", "update", &z]), a(&["debug", "set-head", "x"]), a(&["debug", "get-head"]), a(&["debug", "pretty-print", &z]), a(&["debug", "commit-tree", &z]), a(&["debug", "reflog-push", &z, "x"]),
        a(&["debug", "reflog-get", "x"]), a(&["debug", "walk-tree", &z])];
    for cmd in away { run(x, cmd, false)?; }
    run(x, a(&["init"]), true)?;
    let t = D(text_tree(r));
    x.lay(&t, r);
    // A repository without commits.
    for cmd in [a(&["status"]), a(&["debug", "get-head"]), a(&["ref", "log"])] { run(x, cmd, true)?; }
    for cmd in [a(&["show"]), a(&["log"]), a(&["compare"]), a(&["debug", "reflog-get", "x"]), a(&["fetch", &z, "../fetched"]), a(&["show", &z]), a(&["commit"]), a(&["insert"]), a(&["nothing"])] { run(x, cmd, false)?; }
    run(x, a(&["commit", "--message=1"]), true)?;
    let d = x.dump()?;
    let k = text_key(&d.log.last().unwrap().2);
    let n = r.pick(REFS).to_string();
    for cmd in [a(&["status"]), a(&["log"]), a(&["log", &k]), a(&["compare"]), a(&["compare", "--stat"]), a(&["ref", "log"]), a(&["debug", "pretty-print", &k]), a(&["debug", "reflog-get", "master"]),
        a(&["ref", "update", &k, &n]), a(&["debug", "reflog-push", &k, &n, "origin"])] { run(x, cmd, true)?; }
    let z2 = if z == k { "b".to_string() } else { z.clone() };
    for cmd in [a(&["show", &z2]), a(&["show", "not a key"]), a(&["ref", "update", &z2]), a(&["ref", "update", &z2, &n]), a(&["fetch", &z2, "../fetched"]), a(&["debug", "reflog-push", &z2, "x"]), a(&["debug", "pretty-print", &z2]),
        a(&["debug", "commit-tree", &z2]), a(&["debug", "walk-tree", &z2]), a(&["insert", "no/such/path"]), a(&["commit", "--message=m", "--path=no/such/path"]), a(&["log", &z2])] {
        let b = x.dump()?;
        run(x, cmd.clone(), false)?;
        ensure(x.dump()? == b, || format!("{:?} failed and changed the repository", cmd))?;
    }
    // Fetching.
    wipe(&x.root.join("fetched"));
    let tree = { let ds = SqliteDS::new(&x.db()).map_err(s)?; snapcd::commit::Commit::from_key(&ds, Key::from_db_key(&d.log.last().unwrap().2).map_err(s)?.into()).tree().inner().as_user_key() };
    run(x, a(&["fetch", &tree, "../fetched"]), true)?;
    let got = read(&x.root.join("fetched"));
    ensure(got.as_ref() == Some(&t), || "fetch ended with status 0, and what it fetched is not the directory".into())?;
    if let D(m) = &t { if !m.is_empty() { run(x, a(&["fetch", &tree, "../fetched"]), false)?; } }
    // Switching HEAD: with nothing changed, and with something changed.
    run(x, a(&["checkout-head", "other"]), true)?;
    ensure(x.dump()?.head().as_deref() == Some("other"), || "checkout-head ended with status 0 and HEAD is not switched".into())?;
    run(x, a(&["debug", "set-head", "master"]), true)?;
    std::fs::write(x.work.join("zzz new"), b"1").map_err(s)?;
    run(x, a(&["checkout-head", "other"]), false)?;
    ensure(x.dump()?.head().as_deref() == Some("master"), || "checkout-head ended with a failure and HEAD is switched".into())?;
    std::fs::remove_file(x.work.join("zzz new")).map_err(s)?;
    // A directory that can not be read to the end.
    spoil(&x.work, &t, r);
    for cmd in [a(&["insert", "."]), a(&["commit", "--message=2"])] { let b = x.dump()?; let o = x.run(&cmd); ended(&o, &cmd, None)?; judge(&by_status(&o), &if cmd[0] == "commit" { Want::Row("master".into(), None, true) } else { Want::Prints("inserted hash ") }, &b, &x.dump()?).map_err(|m| format!("{:?}: (judged by the status) {}", cmd, m))?; }
    x.lay(&t, r);
    // A database that refuses one kind of write: nothing that needs it can succeed, and nothing of it stays.
    let refuse = |x: &Cli, q: &str| -> Result<(), String> { rusqlite::Connection::open(&x.db()).map_err(s)?.execute(q, rusqlite::params![]).map(|_| ()).map_err(s) };
    for (table, cmds) in [("reflog", vec![a(&["commit", "--message=4"]), a(&["ref", "update", &k]), a(&["ref", "update", &k, &n]), a(&["debug", "reflog-push", &k, &n])]),
        ("state", vec![a(&["debug", "set-head", "x"]), a(&["checkout-head", "other"])]),
        ("data", vec![a(&["insert", "."]), a(&["commit", "--message=4"]), a(&["debug", "commit-tree", &tree])])] {
        refuse(x, &format!("CREATE TRIGGER refused BEFORE INSERT ON {} BEGIN SELECT RAISE(ABORT, 'refused'); END", table))?;
        let b = x.dump()?;
        for cmd in cmds {
            run(x, cmd.clone(), false).map_err(|m| format!("with writes of {} refused by the database: {}", table, m))?;
            ensure(x.dump()? == b, || format!("with writes of {} refused by the database, {:?} changed it", table, cmd))?;
        }
        refuse(x, "DROP TRIGGER refused")?;
    }
    // Refs and HEADs that can not be read.
    corrupt(x, "master", r)?;
    for cmd in [a(&["status"]), a(&["log"]), a(&["commit", "--message=3"]), a(&["checkout-head", "other"]), a(&["compare"])] { run(x, cmd, false)?; }
    let raw = rusqlite::Connection::open(&x.db()).map_err(s)?;
    raw.execute("DELETE FROM state", rusqlite::params![]).map_err(s)?;
    drop(raw);
    for cmd in [a(&["status"]), a(&["log"]), a(&["commit", "--message=3"]), a(&["checkout-head", "other"]), a(&["compare"]), a(&["ref", "log"]), a(&["ref", "update", &k])] { run(x, cmd, false)?; }
    run(x, a(&["ref", "update", &k, "x"]), true)?;
    Ok(())
}

/// Repositories within repositories.
pub fn c26(c: &mut Ctx) {
    let mut x = Cli::new("c26");
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("nested", &format!("seed {:#x}: repositories in some directories of a tree, commands in some", seed), true, || nested(&mut x, &mut r));
    }
    wipe(&x.root);
}

fn nested(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    x.clear();
    let name = r.pick(&[".snapcd", ".snapcd", ".snapcd", "rp.d", "meta/rp"]).to_string();
    let with = |mut v: Vec<String>| { if name != ".snapcd" { v.insert(0, format!("--db={}", name)); } v };
    // Directories, the root first.
    let mut dirs: Vec<PathBuf> = vec![PathBuf::new()];
    for _ in 0..2 + r.below(5) {
        let d = r.pick(&dirs).join(r.pick(&["a", "b", "c d", "é"]));
        if d.components().count() < 5 && !dirs.contains(&d) { std::fs::create_dir_all(x.work.join(&d)).map_err(s)?; dirs.push(d); }
    }
    for d in &dirs { if r.chance(2, 3) { let n = 1 + r.below(20); std::fs::write(x.work.join(d).join(r.pick(&["f", "g.txt"])), r.bytes(n)).map_err(s)?; } }
    let db = |x: &Cli, d: &Path| x.work.join(d).join(&name).join("snapcd.db");
    let dumps = |x: &Cli, repos: &[PathBuf]| -> Result<BTreeMap<PathBuf, Dump>, String> { repos.iter().map(|d| Ok((d.clone(), dump(&db(x, d))?))).collect() };
    let mut repos: Vec<PathBuf> = vec![];
    let mut did: Vec<String> = vec![];
    for _ in 0..3 + r.below(7) {
        let cwd = r.pick(&dirs).clone();
        let here = cwd.ancestors().find(|d| repos.iter().any(|p| p == d)).map(|p| p.to_path_buf());
        let b = dumps(x, &repos)?;
        let at = |did: &[String], m: String| format!("repositories named {:?} in {:?}; {}: {}", name, repos, did.join(", then "), m);
        if r.chance(1, 3) {
            let o = x.run_at(&x.work.join(&cwd), &with(a(&["init"])), None);
            did.push(format!("init in {:?}", cwd));
            ensure(!o.failed, || at(&did, o.text.clone()))?;
            ensure(db(x, &cwd).exists(), || at(&did, "no repository is there".into()))?;
            let e = dumps(x, &repos)?;
            ensure(e == b, || at(&did, format!("a repository that was there changed: {:?}", repos.iter().filter(|d| b[*d] != e[*d]).map(|d| b[d].say(&e[d])).collect::<Vec<_>>())))?;
            if !repos.contains(&cwd) {
                let n = dump(&db(x, &cwd))?;
                ensure(n.head().as_deref() == Some("master") && n.log.is_empty() && n.data.is_empty(), || at(&did, format!("the new repository has HEAD {:?} and {} refs", n.head(), n.log.len())))?;
                repos.push(cwd);
            }
            continue;
        }
        let (cmd, kind) = match r.below(5) { 0 => (a(&["debug", "set-head", &format!("h{}", r.below(9))]), 0), 1 | 2 => (a(&["commit", &format!("--message={}", r.below(99))]), 1), 3 => (a(&["debug", "get-head"]), 2), _ => (a(&["status"]), 3) };
        // What the directory of the repository holds, without the repository itself.
        let held = here.as_ref().map(|d| { let f = x.work.join(d).join(&name); let mut t = read(f.parent().unwrap()).unwrap(); if let D(m) = &mut t { m.remove(f.file_name().unwrap()); } t });
        let o = x.run_at(&x.work.join(&cwd), &with(cmd.clone()), None);
        did.push(format!("{:?} in {:?}", cmd, cwd));
        let e = dumps(x, &repos)?;
        for d in repos.iter().filter(|d| Some(*d) != here.as_ref()) { ensure(b[d] == e[d], || at(&did, format!("the repository in {:?} changed: {}", d, b[d].say(&e[d]))))?; }
        let here = match here { None => { ensure(o.failed, || at(&did, "it succeeded, and there is no repository".into()))?; continue; } Some(h) => h };
        ensure(!o.failed, || at(&did, format!("failed: {}", clip(&o.text, 300))))?;
        let (b, e) = (&b[&here], &e[&here]);
        match kind {
            0 => ensure(e.head() == Some(cmd[2].clone()), || at(&did, format!("the HEAD of the repository in {:?} is {:?}", here, e.head())))?,
            1 => {
                judge(&o, &Want::Row(b.head().unwrap_or_default(), None, true), b, e).map_err(|m| at(&did, format!("the repository in {:?}: {}", here, m)))?;
                let ds = SqliteDS::new(&db(x, &here)).map_err(s)?;
                let k = Key::from_db_key(&e.log.last().unwrap().2).map_err(s)?;
                let to = x.root.join("back");
                wipe(&to);
                snapcd::dir::get_fs_item(&ds, snapcd::commit::Commit::from_key(&ds, k.into()).tree(), &to).map_err(|m| at(&did, format!("the commit can not be fetched: {}", m)))?;
                let got = read(&to).ok_or("nothing fetched")?;
                ensure(Some(&got) == held.as_ref(), || at(&did, format!("the commit is not the directory {:?}: {}", here, diffmsg(held.as_ref().unwrap(), &got))))?;
            }
            2 => ensure(o.text.contains(&format!("{:?}", b.head().unwrap_or_default())), || at(&did, format!("the repository in {:?} has HEAD {:?}, printed is {:?}", here, b.head(), o.text)))?,
            _ => ensure(o.text.contains(&format!("HEAD: {}", b.head().unwrap_or_default())), || at(&did, format!("the repository in {:?} has HEAD {:?}, printed is {:?}", here, b.head(), o.text)))?,
        }
    }
    Ok(())
}
