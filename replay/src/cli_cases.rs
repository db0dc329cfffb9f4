//! C15, C18, C21 and the commands of C09: the program, run on repositories in a scratch folder.
use crate::db_cases::{key_of, scratch};
use crate::fs_cases::{T::*, *};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::commit::Commit;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::{dir, DataStore, Reflog};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// One repository: `root/work` is the working directory, `root/cache` and `root/home` the user's folders.
pub struct Cli { pub root: PathBuf, pub work: PathBuf, bin: String, tick: u64 }
pub struct Out { pub text: String, pub stdout: Vec<u8>, pub failed: bool, pub signal: Option<i32>, pub code: Option<i32> }

impl Cli {
    pub fn new(nm: &str) -> Cli {
        let root = scratch(nm);
        let work = root.join("work");
        std::fs::create_dir_all(&work).unwrap();
        std::fs::create_dir_all(root.join("home")).unwrap();
        let root = std::fs::canonicalize(&root).unwrap();
        Cli { work: root.join("work"), root, bin: std::env::var("SNAPCD_BIN").expect("SNAPCD_BIN"), tick: 0 }
    }
    pub fn at(root: PathBuf) -> Cli {
        std::fs::create_dir_all(root.join("work")).unwrap();
        std::fs::create_dir_all(root.join("home")).unwrap();
        Cli { work: root.join("work"), root, bin: std::env::var("SNAPCD_BIN").expect("SNAPCD_BIN"), tick: 0 }
    }
    pub fn db(&self) -> PathBuf { self.work.join(".snapcd/snapcd.db") }
    fn cmd(&self, cwd: &Path, args: &[String], pre: Option<&str>) -> Command {
        // `checkout` removes files: only in a namespace of its own (co_cases).
        assert!(args.iter().all(|a| a != "checkout") || std::env::var("C28_INSIDE").is_ok());
        let mut c = match pre {
            None => Command::new(&self.bin),
            Some(p) => { let mut c = Command::new("sh"); c.arg("-c").arg(format!("{}; exec \"$0\" \"$@\"", p)).arg(&self.bin); c }
        };
        c.args(args).current_dir(cwd).env("HOME", self.root.join("home")).env("XDG_CACHE_HOME", self.root.join("cache")).env("RUST_BACKTRACE", "0")
            .env_remove("RUST_LOG").stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
        c
    }
    fn out(o: std::process::Output) -> Out {
        let text = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
        let failed = !o.status.success() || String::from_utf8_lossy(&o.stdout).lines().any(|l| l.starts_with("fatal: "));
        Out { text, stdout: o.stdout.clone(), failed, signal: o.status.signal(), code: o.status.code() }
    }
    pub fn run_at(&self, cwd: &Path, args: &[String], pre: Option<&str>) -> Out { Self::out(self.cmd(cwd, args, pre).output().unwrap()) }
    pub fn run(&self, args: &[String]) -> Out { self.run_at(&self.work, args, None) }
    /// Run, and kill it after `us` microseconds.
    fn run_killed(&self, args: &[String], us: u64) -> Out {
        let mut ch = self.cmd(&self.work, args, None).spawn().unwrap();
        std::thread::sleep(std::time::Duration::from_micros(us));
        let _ = ch.kill();
        Self::out(ch.wait_with_output().unwrap())
    }
    /// Run without judging; a failure here is a failed set-up.
    pub fn must(&self, args: &[String]) -> Result<Out, String> { let o = self.run(args); if o.failed { Err(format!("(set-up) {:?}: {}", args, clip(&o.text, 500))) } else { Ok(o) } }
    pub fn clear(&self) { wipe(&self.work); std::fs::create_dir_all(&self.work).unwrap(); }
    /// Give the working directory this content, keeping the repository.
    pub fn lay(&mut self, t: &T, r: &mut Rng) {
        for e in std::fs::read_dir(&self.work).unwrap() { let e = e.unwrap(); if e.file_name() != ".snapcd" { wipe(&e.path()); } }
        write(&self.work, t, r);
        if let D(m) = t { for k in m.keys() { let p = self.work.join(k); if p.is_dir() { touch_all(&p, &mut self.tick); } else { self.touch(&p); } } }
    }
    fn touch(&mut self, p: &Path) {
        self.tick += 1;
        std::fs::OpenOptions::new().append(true).open(p).unwrap().set_modified(std::time::UNIX_EPOCH + std::time::Duration::from_micros(1_700_000_000_000_000 + self.tick)).unwrap();
    }
    pub fn dump(&self) -> Result<Dump, String> { dump(&self.db()) }
}

pub fn a(x: &[&str]) -> Vec<String> { x.iter().map(|y| y.to_string()).collect() }

#[derive(Clone, PartialEq, Eq, Debug, Default)]
pub struct Dump { pub data: BTreeMap<Vec<u8>, Vec<u8>>, pub state: BTreeMap<Vec<u8>, Vec<u8>>, pub log: Vec<(String, Option<String>, Vec<u8>)>, pub schema: Vec<String> }
impl Dump {
    pub fn head(&self) -> Option<String> { self.state.get(&b"HEAD"[..]).map(|v| String::from_utf8_lossy(v).into_owned()) }
    /// Data may be added, never changed.
    fn grew(&self, o: &Dump) -> Result<(), String> {
        for (k, v) in &self.data { ensure(o.data.get(k) == Some(v), || format!("the object {} changed or went away", hex(k)))?; }
        Ok(())
    }
    pub fn say(&self, o: &Dump) -> String {
        let mut t = vec![];
        if self.schema != o.schema { t.push("the tables differ".to_string()); }
        if self.state != o.state { t.push(format!("settings {:?} became {:?}", txt(&self.state), txt(&o.state))); }
        if self.log != o.log { t.push(format!("{} ref entries became {}: last {:?} became {:?}", self.log.len(), o.log.len(), self.log.last().map(row), o.log.last().map(row))); }
        let (n, m) = (o.data.keys().filter(|k| !self.data.contains_key(*k)).count(), self.data.keys().filter(|k| !o.data.contains_key(*k)).count());
        if self.data != o.data { t.push(format!("{} objects came, {} went, {} changed", n, m, self.data.iter().filter(|(k, v)| o.data.get(*k).map_or(false, |w| w != *v)).count())); }
        t.join("; ")
    }
}
fn txt(m: &BTreeMap<Vec<u8>, Vec<u8>>) -> Vec<(String, String)> { m.iter().map(|(k, v)| (String::from_utf8_lossy(k).into_owned(), String::from_utf8_lossy(v).into_owned())).collect() }
fn row(x: &(String, Option<String>, Vec<u8>)) -> String { format!("{:?} {:?} {}", x.0, x.1, hex(&x.2)) }

/// What somebody who opens the repository finds.
pub fn dump(p: &Path) -> Result<Dump, String> {
    if !p.exists() { return Ok(Dump::default()); }
    let c = rusqlite::Connection::open(p).map_err(s)?;
    let mut d = Dump::default();
    let kv = |t: &str| -> Result<BTreeMap<Vec<u8>, Vec<u8>>, String> {
        let mut q = c.prepare(&format!("SELECT key, value FROM {}", t)).map_err(s)?;
        let v = q.query_map(rusqlite::params![], |r| Ok((r.get::<_, Vec<u8>>(0)?, r.get::<_, Vec<u8>>(1)?))).map_err(s)?.collect::<Result<_, _>>().map_err(s);
        v
    };
    let mut q = c.prepare("SELECT sql FROM sqlite_master ORDER BY name").map_err(s)?;
    d.schema = q.query_map(rusqlite::params![], |r| Ok(r.get::<_, Option<String>>(0)?.unwrap_or_default())).map_err(s)?.collect::<Result<_, _>>().map_err(s)?;
    if d.schema.is_empty() { return Ok(d); }
    d.data = kv("data")?;
    d.state = kv("state")?;
    let mut q = c.prepare("SELECT refname, remote, key FROM reflog ORDER BY id").map_err(s)?;
    d.log = q.query_map(rusqlite::params![], |r| Ok((r.get(0)?, r.get(1)?, r.get(2)?))).map_err(s)?.collect::<Result<_, _>>().map_err(s)?;
    Ok(d)
}

/// One command, and what it must have done if it succeeds.
#[derive(Clone, Debug)]
pub enum Want { Nothing, Prints(&'static str), Head(String), Row(String, Option<String>, bool), Cleanly(String) }
pub fn text_key(k: &[u8]) -> String { Key::from_db_key(k).unwrap().as_user_key() }

pub fn some_key(d: &Dump, r: &mut Rng) -> String {
    let ks: Vec<&Vec<u8>> = d.data.keys().collect();
    match r.below(8) {
        0 => key_of(r).as_user_key(),
        1 => "b".into(),
        2 => "x!".into(),
        3 => format!("/{}", r.pick(REFS)),
        4 if !ks.is_empty() => { let k = text_key(r.pick(&ks)); let n = 2 + r.below(6); k[..n].to_string() }
        5 if !d.log.is_empty() => text_key(&r.pick(&d.log).2.clone()),
        _ if !ks.is_empty() => text_key(r.pick(&ks)),
        _ => "baa".into(),
    }
}
pub const REFS: &[&str] = &["master", "a", "b/c", "é", "A", "master2"];
pub const MSGS: &[&str] = &["", "m", "first", "two\nlines", "é", "'", "-x", "m "];

pub fn command(d: &Dump, t: &T, r: &mut Rng) -> (Vec<String>, Want) {
    let f = flatten(t);
    let paths: Vec<String> = f.keys().filter_map(|p| p.to_str().map(|x| x.to_string())).collect();
    let path = |r: &mut Rng| if paths.is_empty() || r.chance(1, 4) { (*r.pick(&[".", "missing", "", "/nonexistent/x"])).to_string() } else { r.pick(&paths).clone() };
    let refname = |r: &mut Rng| r.pick(REFS).to_string();
    let remote = |r: &mut Rng| if r.chance(1, 2) { Some(r.pick(&["origin", "a"]).to_string()) } else { None };
    match r.below(17) {
        0 | 1 => (a(&["insert", "--", &path(r)]), Want::Prints("inserted hash ")),
        2 | 3 | 4 => {
            let mut c = a(&["commit", &format!("--message={}", r.pick(MSGS))]);
            if r.chance(1, 2) { c.push(format!("--path={}", path(r))); }
            let n = if r.chance(1, 2) { let n = refname(r); c.push("--".into()); c.push(n.clone()); n } else { d.head().unwrap_or_default() };
            (c, Want::Row(n, None, true))
        }
        5 => { let n = refname(r); (a(&["ref", "update", "--", &some_key(d, r), &n]), Want::Row(n, None, false)) }
        6 => (a(&["ref", "update", "--", &some_key(d, r)]), Want::Row(d.head().unwrap_or_default(), None, false)),
        7 => { let n = refname(r); let rm = remote(r); let mut c = a(&["debug", "reflog-push", "--", &some_key(d, r), &n]); if let Some(x) = &rm { c.push(x.clone()); } (c, Want::Row(n, rm, false)) }
        8 => { let n = refname(r); (a(&["debug", "set-head", "--", &n]), Want::Head(n)) }
        9 => { let mut c = a(&["debug", "commit-tree", "--", &some_key(d, r)]); for _ in 0..r.below(3) { c.push(some_key(d, r)); } (c, Want::Prints("")) }
        10 => (a(&["compare"]), Want::Nothing),
        11 => (a(&["status"]), Want::Nothing),
        12 => (a(&["fetch", "--", &some_key(d, r), &format!("../fetched/{}", r.below(3))]), Want::Nothing),
        13 => (a(&["show", "--", &some_key(d, r)]), Want::Nothing),
        14 => (a(&["log"]), Want::Nothing),
        15 => { let n = refname(r); (a(&["checkout-head", "--", &n]), Want::Cleanly(n)) }
        _ => (match r.below(4) { 0 => a(&["ref", "log"]), 1 => a(&["debug", "get-head"]), 2 => a(&["debug", "walk-tree", "--", &some_key(d, r)]), _ => a(&["debug", "pretty-print", "--", &some_key(d, r)]) }, Want::Nothing),
    }
}

/// What a command left behind, given how it ended.
pub fn judge(o: &Out, want: &Want, b: &Dump, e: &Dump) -> Result<(), String> {
    if o.failed {
        return ensure(b == e, || format!("it failed ({}) and changed the repository: {}", clip(&o.text.replace('\n', " "), 300), b.say(e)));
    }
    b.grew(e)?;
    ensure(b.schema == e.schema, || "the tables changed".into())?;
    let kept = |x: &str| format!("it succeeded and {}: {}", x, b.say(e));
    let mut st = b.state.clone();
    let mut log = b.log.clone();
    match want {
        Want::Nothing => {}
        Want::Prints(pre) => {
            let k = o.text.lines().find_map(|l| l.strip_prefix(pre)).ok_or(format!("no key is printed: {:?}", o.text))?;
            let found = e.data.keys().any(|x| text_key(x) == k.trim());
            ensure(found, || kept(&format!("the object {} it printed is not there", k)))?;
        }
        Want::Head(n) => { st.insert(b"HEAD".to_vec(), n.clone().into_bytes()); }
        Want::Cleanly(n) => { st.insert(b"HEAD".to_vec(), n.clone().into_bytes()); }
        Want::Row(n, rm, stored) => {
            ensure(e.log.len() == b.log.len() + 1, || kept("not one entry more is in the refs"))?;
            let l = e.log.last().unwrap().clone();
            ensure(l.0 == *n && l.1 == *rm, || kept(&format!("the entry is {} instead of {:?} on {:?}", row(&l), n, rm)))?;
            ensure(!*stored || e.data.contains_key(&l.2), || kept("the commit is not there"))?;
            log.push(l);
        }
    }
    ensure(e.state == st, || kept("the settings are not as they should be"))?;
    ensure(e.log == log, || kept("the refs are not as they should be"))
}

pub fn spoil(work: &Path, t: &T, r: &mut Rng) -> String {
    // Something a snapshot trips over half way.
    let dirs: Vec<PathBuf> = std::iter::once(PathBuf::new()).chain(flatten(t).into_iter().filter(|(_, v)| is_dir(v)).map(|(p, _)| p)).collect();
    let d = work.join(r.pick(&dirs));
    match r.below(3) {
        0 => { let l = std::os::unix::net::UnixListener::bind(d.join("zsock")).map(|_| ()); format!("a socket in {:?} ({:?})", d, l.is_ok()) }
        1 => { let _ = std::os::unix::fs::symlink("/nonexistent/target", d.join("zlink")); format!("a dangling link in {:?}", d) }
        _ => { use std::os::unix::ffi::OsStringExt; let _ = std::fs::write(d.join(OsString::from_vec(b"z\xff".to_vec())), b"x"); format!("a name that is not text in {:?}", d) }
    }
}

pub fn c15(c: &mut Ctx) {
    let mut x = Cli::new("c15");
    let t0 = c.left();
    let mut slow = false;
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        match r.below(6) {
            5 => kills(c, &mut x, seed),
            4 => faults(c, &mut x, seed),
            _ => { c.case("commands", &format!("seed {:#x}: a sequence of commands", seed), true, || sequence(&mut x, &mut r)); }
        }
        if !slow && (c.left() < t0 / 2.0 || c.only_some()) { slow = true; locks(c, &mut x); }
    }
    wipe(&x.root);
}

fn sequence(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    x.clear();
    let mut t = D(text_tree(r));
    x.lay(&t, r);
    let first = r.below(4);
    if first > 0 { x.must(&a(&["init"]))?; }
    let mut did = vec![];
    for _ in 0..2 + r.below(5) {
        let b = x.dump()?;
        let spoiled = if r.chance(1, 5) { Some(spoil(&x.work, &t, r)) } else { None };
        let (cmd, want) = if first == 0 && did.is_empty() { command(&b, &t, r) } else if !x.db().exists() { (a(&["init"]), Want::Nothing) } else { command(&b, &t, r) };
        let init = cmd[0] == "init";
        wipe(&x.root.join("fetched"));
        if r.chance(1, 2) { std::fs::create_dir_all(x.root.join("fetched")).unwrap(); }
        let o = x.run(&cmd);
        let e = x.dump()?;
        did.push(format!("{:?}{} -> {}", cmd, spoiled.as_ref().map(|s| format!(" with {}", s)).unwrap_or_default(), if o.failed { "failed" } else { "ok" }));
        let ok = if init { ensure(!o.failed && e.head().as_deref() == Some("master"), || format!("init: {}", o.text)) }
            else { judge(&o, &want, &b, &e) };
        ok.map_err(|m| format!("{}: {}", did.join(", then "), m))?;
        if spoiled.is_some() || r.chance(1, 3) { if let D(m) = &t { t = D(mutate(m, r, 0)); } x.lay(&t, r); }
    }
    Ok(())
}

fn big_tree(r: &mut Rng) -> T {
    let mut m = BTreeMap::new();
    for i in 0..3 + r.below(4) {
        let mut n = BTreeMap::new();
        for j in 0..r.below(12) { let k = *r.pick(&[10usize, 500, 9000, 70000]); n.insert(OsString::from(format!("f{}", j)), F(r.bytes(k))); }
        m.insert(OsString::from(format!("d{}", i)), D(n));
    }
    D(m)
}

/// The program killed at any time: what is there is what was before, or everything.
fn kills(c: &mut Ctx, x: &mut Cli, seed: u64) {
    let mut r = Rng(seed ^ 1);
    c.case("killed", &format!("seed {:#x}: commits of a large directory, killed", seed), true, || {
        x.clear();
        x.must(&a(&["init"]))?;
        if r.chance(1, 2) { x.lay(&D(text_tree(&mut r)), &mut r); x.must(&a(&["commit", "--message=0"]))?; }
        let mut span = 60_000u64;
        for i in 0..4 {
            let t = big_tree(&mut r);
            x.lay(&t, &mut r);
            let b = x.dump()?;
            if i == 0 { let at = std::time::Instant::now(); let o = x.run(&a(&["commit", "--message=m"])); span = at.elapsed().as_micros() as u64; judge(&o, &Want::Row("master".into(), None, true), &b, &x.dump()?)?; continue; }
            let us = r.next() % (span + span / 8 + 1);
            let o = x.run_killed(&a(&["commit", "--message=m"]), us);
            let e = x.dump()?;
            let msg = |m: String| format!("killed after {} us: {}", us, m);
            if o.signal.is_none() { judge(&o, &Want::Row("master".into(), None, true), &b, &e).map_err(msg)?; }
            if e != b {
                judge(&Out { failed: false, text: String::new(), stdout: vec![], signal: None, code: None }, &Want::Row("master".into(), None, true), &b, &e).map_err(|m| format!("killed after {} us, and only part of it is there: {}", us, m))?;
                let ds = SqliteDS::new(&x.db()).map_err(s)?;
                let k = ds.reflog_get("master", None).map_err(s)?;
                let to = x.root.join("back");
                wipe(&to);
                dir::get_fs_item(&ds, Commit::from_key(&ds, k).tree(), &to).map_err(|e| format!("killed after {} us, and the commit can not be fetched: {}", us, e))?;
                let got = read(&to).ok_or("nothing fetched")?;
                ensure(got == t, || format!("killed after {} us, and the commit is not the directory: {}", us, diffmsg(&t, &got)))?;
            }
        }
        Ok(())
    });
}

/// The disk full at any time (a limit on the size of the files it writes).
fn faults(c: &mut Ctx, x: &mut Cli, seed: u64) {
    let mut r = Rng(seed ^ 2);
    c.case("disk full", &format!("seed {:#x}: commands that can write only so much", seed), true, || {
        x.clear();
        wipe(&x.root.join("cache"));
        x.must(&a(&["init"]))?;
        x.lay(&D(text_tree(&mut r)), &mut r);
        x.must(&a(&["commit", "--message=0"]))?;
        for _ in 0..4 {
            let t = if r.chance(2, 3) { big_tree(&mut r) } else { D(text_tree(&mut r)) };
            x.lay(&t, &mut r);
            let b = x.dump()?;
            let blocks = std::fs::metadata(x.db()).unwrap().len() / 512;
            let lim = match r.below(3) { 0 => r.below(blocks as usize + 1) as u64, 1 => blocks + r.below(200) as u64, _ => blocks + r.below(2000) as u64 };
            let (cmd, want) = command(&b, &t, &mut r);
            let cmd = if r.chance(1, 2) { a(&["commit", "--message=m"]) } else { cmd };
            let want = if cmd[0] == "commit" && cmd.len() == 2 { Want::Row(b.head().unwrap_or_default(), None, true) } else { want };
            let o = x.run_at(&x.work, &cmd, Some(&format!("trap '' XFSZ; ulimit -f {}", lim)));
            let e = x.dump().map_err(|m| format!("{:?} with {} blocks: the repository can not be read: {}", cmd, lim, m))?;
            judge(&o, &want, &b, &e).map_err(|m| format!("{:?} with {} blocks: {}", cmd, lim, m))?;
        }
        Ok(())
    });
}

/// Somebody else has the repository or the cache locked (each takes the five seconds SQLite waits).
fn locks(c: &mut Ctx, x: &mut Cli) {
    for which in ["cache", "repository, for writing", "repository, read"] {
        c.case("locked", &format!("the {} is locked during a command", which), true, || {
            let mut r = Rng(5);
            x.clear();
            wipe(&x.root.join("cache"));
            x.must(&a(&["init"]))?;
            let t = D(text_tree(&mut r));
            x.lay(&t, &mut r);
            x.must(&a(&["commit", "--message=0"]))?;
            let b = x.dump()?;
            let p = if which == "cache" { x.root.join("cache/snapcd/cache.db") } else { x.db() };
            let l = rusqlite::Connection::open(&p).map_err(s)?;
            l.execute_batch(match which { "repository, read" => "BEGIN; SELECT count(*) FROM data;", _ => "BEGIN IMMEDIATE" }).map_err(s)?;
            if which == "repository, read" { let _: i64 = l.query_row("SELECT count(*) FROM data", rusqlite::params![], |r| r.get(0)).map_err(s)?; }
            let (cmd, want) = if which == "cache" { (a(&["checkout-head", "other"]), Want::Cleanly("other".into())) } else { (a(&["commit", "--message=m"]), Want::Row("master".into(), None, true)) };
            let o = x.run(&cmd);
            l.execute_batch("ROLLBACK").map_err(s)?;
            drop(l);
            let e = x.dump()?;
            judge(&o, &want, &b, &e).map_err(|m| format!("{:?}: {}", cmd, m))?;
            Ok(())
        });
    }
}

/// A run of commits and switches against a model.
pub struct Model { pub head: String, pub log: Vec<(String, Option<String>, Key, T)> }
impl Model {
    pub fn latest(&self, n: &str) -> Option<&(String, Option<String>, Key, T)> { self.log.iter().rev().find(|e| e.0 == n && e.1.is_none()) }
}

pub fn patterns(r: &mut Rng, base: &Path) -> Vec<String> {
    (0..if r.chance(1, 2) { 0 } else { 1 + r.below(2) }).map(|_| {
        let n = *r.pick(PLAIN);
        match r.below(5) { 0 => n.into(), 1 => format!("*/{}", n), 2 => format!("{}/{}", base.display(), n), 3 => "*.txt".into(), _ => format!("*/?{}", &n[1..]) }
    }).collect()
}
pub fn with_excl(mut v: Vec<String>, ps: &[String]) -> Vec<String> { for p in ps { v.insert(0, format!("--exclude={}", p)); } v }

/// Commit, and check that exactly the right thing happened.
fn checked_commit(x: &Cli, m: &mut Model, t: &T, r: &mut Rng) -> Result<String, String> {
    let dirs: Vec<PathBuf> = std::iter::once(PathBuf::new()).chain(flatten(t).into_iter().filter(|(_, v)| is_dir(v)).map(|(p, _)| p)).collect();
    let cwd = if r.chance(1, 3) { r.pick(&dirs).clone() } else { PathBuf::new() };
    let all = flatten(t);
    // The directory: the repository's, or a given one (or a file).
    let (rel, given): (PathBuf, Option<PathBuf>) = match r.below(5) {
        0 if !all.is_empty() => { let ks: Vec<&PathBuf> = all.keys().collect(); let q = (*r.pick(&ks)).clone(); let g = if cwd.as_os_str().is_empty() { q.clone() } else { x.work.join(&q) }; (q, Some(g)) }
        1 => (cwd.clone(), Some(PathBuf::from("."))),
        2 => (PathBuf::new(), Some(x.work.clone())),
        _ => (PathBuf::new(), None),
    };
    let base = given.clone().unwrap_or_else(|| x.work.clone());
    let ps = patterns(r, &base);
    let msg = r.pick(MSGS).to_string();
    let name = if r.chance(1, 2) { Some(r.pick(REFS).to_string()) } else { None };
    let mut cmd = with_excl(a(&["commit", &format!("--message={}", msg)]), &ps);
    if let Some(g) = &given { cmd.push(format!("--path={}", g.display())); }
    if let Some(n) = &name { cmd.push("--".into()); cmd.push(n.clone()); }
    let b = x.dump()?;
    let o = x.run_at(&x.work.join(&cwd), &cmd, None);
    let e = x.dump()?;
    let desc = format!("{:?} in {:?}", cmd, cwd);
    let fail = |w: String| format!("{}: {}", desc, w);
    if o.failed { return Err(fail(format!("failed: {}", clip(&o.text, 400)))); }
    let n = name.unwrap_or_else(|| m.head.clone());
    judge(&o, &Want::Row(n.clone(), None, true), &b, &e).map_err(fail)?;
    let ds = SqliteDS::new(&x.db()).map_err(s)?;
    let k = Key::from_db_key(&e.log.last().unwrap().2).map_err(s)?;
    let ob = ds.get_obj(k).map_err(s)?.into_owned();
    let cm: Commit = std::convert::TryInto::<Commit>::try_into(ob).map_err(|z| fail(format!("the entry is not a commit: {}", z)))?;
    ensure(cm.attrs().message() == msg, || fail(format!("the message is {:?}", cm.attrs().message())))?;
    let ps2: Vec<Key> = cm.parents().iter().map(|k| k.inner()).collect();
    let want: Vec<Key> = m.latest(&n).map(|l| l.2).into_iter().collect();
    ensure(ps2 == want, || fail(format!("its parents are {:?}, the latest of {:?} was {:?}", ps2, n, want)))?;
    let mut sub = t.clone();
    for q in rel.components() { sub = match sub { D(mut z) => z.remove(q.as_os_str()).unwrap(), f => f }; }
    let kept = keep(&sub, Path::new(""), &base, &None, &ps);
    let to = x.root.join("back");
    wipe(&to);
    dir::get_fs_item(&ds, cm.tree(), &to).map_err(|z| fail(format!("its tree can not be fetched: {}", z)))?;
    let got = read(&to).ok_or_else(|| fail("its tree is nothing".into()))?;
    ensure(got == kept, || fail(format!("its tree is not the directory: {}", diffmsg(&kept, &got))))?;
    let walk: Vec<Key> = ds.reflog_walk(&n, None).map_err(s)?.iter().map(|k| k.inner()).collect();
    let hist: Vec<Key> = std::iter::once(k).chain(m.log.iter().rev().filter(|l| l.0 == n && l.1.is_none()).map(|l| l.2)).collect();
    ensure(walk == hist, || fail(format!("the history of {:?} is not the old one and this commit", n)))?;
    m.log.push((n, None, k, kept));
    Ok(desc)
}

pub fn other_refs(x: &Cli, m: &mut Model, r: &mut Rng) -> Result<(), String> {
    // The same name on a remote, pointing elsewhere.
    let n = if r.chance(1, 2) { m.head.clone() } else { r.pick(REFS).to_string() };
    let (k, t) = if !m.log.is_empty() && r.chance(1, 2) { let l = r.pick(&m.log).clone(); (l.2, l.3) } else { (key_of(r), D(BTreeMap::new())) };
    let ds = SqliteDS::new(&x.db()).map_err(s)?;
    let rm = Some(r.pick(&["origin", ""]).to_string());
    ds.reflog_push(&Reflog { refname: n.clone(), key: k.into(), remote: rm.clone() }).map_err(s)?;
    m.log.push((n, rm, k, t));
    Ok(())
}

pub fn c21(c: &mut Ctx) {
    let mut x = Cli::new("c21");
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("commits", &format!("seed {:#x}: a sequence of commits", seed), true, || {
            x.clear();
            x.must(&a(&["init"]))?;
            let mut m = Model { head: "master".into(), log: vec![] };
            let mut t = D(text_tree(&mut r));
            x.lay(&t, &mut r);
            let mut did: Vec<String> = vec![];
            for _ in 0..2 + r.below(6) {
                if r.chance(1, 4) { other_refs(&x, &mut m, &mut r)?; did.push("an entry on a remote".into()); }
                if r.chance(1, 5) { let n = r.pick(REFS).to_string(); x.must(&a(&["debug", "set-head", "--", &n]))?; m.head = n; did.push(format!("HEAD {:?}", m.head)); }
                let d = checked_commit(&x, &mut m, &t, &mut r).map_err(|e| format!("after {}: {}", did.join(", "), e))?;
                did.push(d);
                if r.chance(2, 3) { if let D(z) = &t { t = D(mutate(z, &mut r, 0)); } x.lay(&t, &mut r); }
            }
            Ok(())
        });
        if r.chance(1, 5) {
            c.case("unreadable ref", &format!("seed {:#x}: the ref's latest entry is not a key", seed), true, || {
                x.clear();
                x.must(&a(&["init"]))?;
                let t = D(text_tree(&mut r));
                x.lay(&t, &mut r);
                if r.chance(1, 2) { x.must(&a(&["commit", "--message=0"]))?; }
                corrupt(&x, "master", &mut r)?;
                let b = x.dump()?;
                let o = x.run(&a(&["commit", "--message=m"]));
                ensure(o.failed && x.dump()? == b, || format!("a commit on top of an unreadable entry: {}", o.text))
            });
        }
    }
    wipe(&x.root);
}

pub fn corrupt(x: &Cli, n: &str, r: &mut Rng) -> Result<(), String> {
    let raw = rusqlite::Connection::open(&x.db()).map_err(s)?;
    let bad: Vec<u8> = match r.below(4) { 0 => vec![], 1 => vec![1], 2 => { let mut v = vec![2u8]; v.extend(r.bytes(32)); v } _ => { let mut v = vec![1u8]; v.extend(r.bytes(33)); v } };
    raw.execute("INSERT INTO reflog(refname, remote, key) VALUES (?, NULL, ?)", rusqlite::params![n, bad]).map_err(s)?;
    Ok(())
}

pub fn c18(c: &mut Ctx) {
    let mut x = Cli::new("c18");
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("switches", &format!("seed {:#x}: commits, changes and switches", seed), true, || {
            x.clear();
            if r.chance(1, 3) { wipe(&x.root.join("cache")); }
            x.must(&a(&["init"]))?;
            let mut m = Model { head: "master".into(), log: vec![] };
            let mut t = if r.chance(1, 4) { D(BTreeMap::new()) } else { D(text_tree(&mut r)) };
            x.lay(&t, &mut r);
            let mut did: Vec<String> = vec![];
            for _ in 0..3 + r.below(6) {
                if r.chance(1, 5) { other_refs(&x, &mut m, &mut r)?; did.push("an entry on a remote".into()); }
                if r.chance(2, 5) {
                    // A commit of the whole directory (commits are checked elsewhere).
                    let ps = patterns(&mut r, &x.work);
                    let n = if r.chance(1, 4) { Some(r.pick(REFS).to_string()) } else { None };
                    let mut cmd = with_excl(a(&["commit", "--message=m"]), &ps);
                    if let Some(n) = &n { cmd.push("--".into()); cmd.push(n.clone()); }
                    x.must(&cmd)?;
                    did.push(format!("{:?}", cmd));
                    let ds = SqliteDS::new(&x.db()).map_err(s)?;
                    let n = n.unwrap_or_else(|| m.head.clone());
                    let k = ds.reflog_get(&n, None).map_err(s)?.inner();
                    let kept = keep(&t, Path::new(""), &x.work, &None, &ps);
                    m.log.push((n, None, k, kept));
                }
                match r.below(6) {
                    0 => { if let D(z) = &t { t = D(mutate(z, &mut r, 0)); } x.lay(&t, &mut r); did.push("changes".into()); }
                    1 => { if let Some(l) = m.latest(&m.head) { t = l.3.clone(); x.lay(&t, &mut r); did.push("the latest commit laid out".into()); } }
                    2 => { t = D(BTreeMap::new()); x.lay(&t, &mut r); did.push("an empty directory".into()); }
                    3 => {
                        // One small change: an empty folder, one byte, one empty file.
                        if let D(z) = &mut t { let n = OsString::from(*r.pick(PLAIN)); match r.below(4) {
                            0 => { z.insert(n, D(BTreeMap::new())); }
                            1 => { z.insert(n, F(vec![])); }
                            2 => { z.remove(&n); }
                            _ => { let ks: Vec<OsString> = z.keys().cloned().collect(); if !ks.is_empty() { let k = r.pick(&ks).clone(); match z.get_mut(&k).unwrap() { F(b) if !b.is_empty() => { let i = r.below(b.len()); b[i] ^= 1; } d => { *d = D(BTreeMap::new()); } } } }
                        } }
                        x.lay(&t, &mut r); did.push("a small change".into());
                    }
                    _ => {}
                }
                let ps = patterns(&mut r, &x.work);
                let to = r.pick(REFS).to_string();
                let cwd = { let ds: Vec<PathBuf> = std::iter::once(PathBuf::new()).chain(flatten(&t).into_iter().filter(|(_, v)| is_dir(v)).map(|(p, _)| p)).collect(); if r.chance(1, 4) { r.pick(&ds).clone() } else { PathBuf::new() } };
                let cmd = with_excl(a(&["checkout-head", "--", &to]), &ps);
                let b = x.dump()?;
                let o = x.run_at(&x.work.join(&cwd), &cmd, None);
                let e = x.dump()?;
                let now = keep(&t, Path::new(""), &x.work, &None, &ps);
                let was = m.latest(&m.head).map(|l| l.3.clone()).unwrap_or(D(BTreeMap::new()));
                let clean = now == was;
                let desc = format!("{}, then {:?} in {:?} with HEAD {:?}", did.join(", "), cmd, cwd, m.head);
                ensure(!clean || !o.failed, || format!("{}: failed: {}", desc, clip(&o.text, 400)))?;
                b.grew(&e)?;
                ensure(b.log == e.log, || format!("{}: the refs changed: {}", desc, b.say(&e)))?;
                let mut st = b.state.clone();
                if clean { st.insert(b"HEAD".to_vec(), to.clone().into_bytes()); }
                ensure(e.state == st, || if clean { format!("{}: the directory is as committed, and HEAD was not switched: {}", desc, clip(&o.text, 300)) } else { format!("{}: the directory is not as committed ({}), and HEAD is {:?}", desc, diffmsg(&was, &now), e.head()) })?;
                if clean { m.head = to; }
                did.push(format!("{:?}", cmd));
            }
            Ok(())
        });
        if r.chance(1, 5) {
            c.case("unreadable ref", &format!("seed {:#x}: the head's latest entry is not a key, the directory is empty or not", seed), true, || {
                x.clear();
                x.must(&a(&["init"]))?;
                let t = if r.chance(1, 2) { D(BTreeMap::new()) } else { D(text_tree(&mut r)) };
                x.lay(&t, &mut r);
                if r.chance(1, 2) { x.must(&a(&["commit", "--message=0"]))?; }
                corrupt(&x, "master", &mut r)?;
                let b = x.dump()?;
                let o = x.run(&a(&["checkout-head", "other"]));
                let e = x.dump()?;
                ensure(e.state == b.state && e.log == b.log, || format!("HEAD is switched although the current commit can not be read: {}", o.text))
            });
        }
    }
    wipe(&x.root);
}

/// The commands that set and show HEAD.
pub fn c09(c: &mut Ctx) {
    let mut x = Cli::new("c09cli");
    for _ in 0..12 {
        if c.done() { break; }
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("head commands", &format!("seed {:#x}: init, set-head, get-head and others", seed), true, || {
            x.clear();
            x.lay(&D(text_tree(&mut r)), &mut r);
            x.must(&a(&["init"]))?;
            let mut head = "master".to_string();
            let mut did = vec!["init".to_string()];
            for _ in 0..2 + r.below(4) {
                let b = x.dump()?;
                match r.below(6) {
                    0 => { let o = x.must(&a(&["init"]))?; did.push("init".into()); let _ = o; ensure(x.dump()? == b, || format!("{}: init of an existing repository changed it: {}", did.join(", "), b.say(&x.dump().unwrap())))?; }
                    1 => { x.run(&a(&["commit", "--message=m"])); did.push("commit".into()); }
                    2 => { let n = r.pick(REFS).to_string(); x.run(&a(&["commit", "--message=m", "--", &n])); did.push(format!("commit to {:?}", n)); }
                    3 => { for q in [&["status"][..], &["log"], &["compare"], &["ref", "log"]] { x.run(&a(q)); } did.push("status, log, compare, ref log".into()); }
                    _ => { let n = r.pick(&["a", "b/c", "é", "Master", "x y", "", "HEAD", "\n"]).to_string(); x.must(&a(&["debug", "set-head", "--", &n]))?; did.push(format!("set-head {:?}", n)); head = n; }
                }
                let e = x.dump()?;
                ensure(e.head().as_deref() == Some(&head[..]), || format!("{}: HEAD is {:?} instead of {:?}", did.join(", "), e.head(), head))?;
                let o = x.must(&a(&["debug", "get-head"]))?;
                ensure(o.text.trim_end_matches('\n') == format!("head: {:?}", Some(&head)), || format!("{}: get-head prints {:?}", did.join(", "), o.text))?;
            }
            Ok(())
        });
    }
    wipe(&x.root);
}
