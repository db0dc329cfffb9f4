//! C28: checkout.  It removes files, so it is only ever run as an unprivileged user, inside a user and mount namespace
//! of its own, where /home (checkout is limited to a folder below it) is an empty file system in memory.
use crate::cli_cases::*;
use crate::db_cases::scratch;
use crate::fs_cases::{T::*, *};
use crate::util::*;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;

const NOBODY: u32 = 65534;
const AT: &str = "/home/jess/src/snapcd/repo";

/// Runs this program again, contained; gives what it printed, or None when that can not be done here.
pub fn contained(args: &[String]) -> Option<String> {
    if std::env::var("C28_INSIDE").is_ok() { return None; }
    let d = scratch("c28");
    let d = std::fs::canonicalize(&d).ok()?;
    std::fs::set_permissions(&d, std::fs::Permissions::from_mode(0o755)).ok()?;
    let w = d.join("w");
    std::fs::create_dir(&w).ok()?;
    std::os::unix::fs::chown(&w, Some(NOBODY), Some(NOBODY)).ok()?;
    for (f, t) in [(std::env::current_exe().ok()?, "replay"), (PathBuf::from(std::env::var("SNAPCD_BIN").ok()?), "snapcd")] {
        std::fs::copy(&f, d.join(t)).ok()?;
        std::fs::set_permissions(d.join(t), std::fs::Permissions::from_mode(0o755)).ok()?;
    }
    let mut a: Vec<String> = args[1..].to_vec();
    let out = w.join("out.json");
    a[3] = out.to_str()?.into();
    let sh = format!("mount -t tmpfs none /home && mkdir -p {} && exec \"$0\" \"$@\"", AT);
    let o = Command::new("unshare").args(&["-Urm", "sh", "-c", &sh]).arg(d.join("replay")).args(&a)
        .env("C28_INSIDE", "1").env("SNAPCD_BIN", d.join("snapcd")).env("REPLAY_SCRATCH", &w).env("HOME", &w).current_dir(&w)
        .uid(NOBODY).gid(NOBODY).output().ok()?;
    let text = std::fs::read_to_string(&out);
    let _ = std::fs::remove_dir_all(&d);
    match text {
        Ok(t) => { std::fs::write(&args[4], t).ok()?; Some(String::from_utf8_lossy(&o.stdout).into_owned()) }
        Err(_) => { eprintln!("C28: no namespace here: {}", String::from_utf8_lossy(&o.stderr)); None }
    }
}

fn kept(n: &OsString) -> bool { n.to_string_lossy().ends_with(".keep") }
/// Whether a stored file is where the disk has a folder, or the other way round.
fn conflict(t: &T, d: &T) -> bool {
    match (t, d) { (D(t), D(d)) => t.iter().any(|(k, v)| d.get(k).map_or(false, |w| conflict(v, w))), (F(_), F(_)) => false, _ => true }
}
/// What the disk has afterwards.
fn want(t: &T, d: Option<&T>) -> T {
    match (t, d) {
        (D(t), Some(D(d))) => {
            let mut m: BTreeMap<OsString, T> = d.iter().filter(|(k, _)| !t.contains_key(*k) && kept(k)).map(|(k, v)| (k.clone(), v.clone())).collect();
            for (k, v) in t { m.insert(k.clone(), want(v, d.get(k))); }
            D(m)
        }
        _ => t.clone(),
    }
}
/// Also when it fails, only what is not stored may go, only what is stored may come or be written.
fn safe(t: Option<&T>, d: Option<&T>, n: Option<&T>, free: bool, at: &Path) -> Result<(), String> {
    let (tm, dm, nm) = (match t { Some(D(m)) => Some(m), _ => None }, match d { Some(D(m)) => Some(m), _ => None }, match n { Some(D(m)) => Some(m), _ => None });
    let what = |x: Option<&T>| x.map_or("nothing".to_string(), |x| clip(&show(x), 200));
    match (t, d, n) {
        (_, None, None) => return Ok(()),
        (None, d, n) => return ensure(n == d || (free && n.is_none()), || format!("{:?}, which is not stored: {} became {}", at, what(d), what(n))),
        (Some(_), Some(d), None) => return Err(format!("{:?}, which is stored, went away: {}", at, what(Some(d)))),
        (Some(F(_)), Some(D(_)), n) | (Some(D(_)), Some(F(_)), n) => return ensure(n == d, || format!("{:?}: {} became {}", at, what(d), what(n))),
        (Some(F(_)), _, Some(n)) => return ensure(!is_dir(n), || format!("{:?}, which is a stored file, became a folder", at)),
        (Some(D(_)), _, Some(n)) => ensure(is_dir(n), || format!("{:?}, which is a stored folder, became a file", at))?,
    }
    let e = BTreeMap::new();
    let (tm, dm, nm) = (tm.unwrap_or(&e), dm.unwrap_or(&e), nm.unwrap_or(&e));
    let mut ks: Vec<&OsString> = tm.keys().chain(dm.keys()).chain(nm.keys()).collect();
    ks.sort();
    ks.dedup();
    for k in ks { safe(tm.get(k), dm.get(k), nm.get(k), !kept(k), &at.join(k))?; }
    Ok(())
}
fn keepers(t: &mut BTreeMap<OsString, T>, r: &mut Rng) {
    if r.chance(1, 3) { t.insert(OsString::from(["x.keep", "b.keep", ".keep"][r.below(3)]), if r.chance(1, 2) { D(plain_tree(r, 2)) } else { F(lines(r)) }); }
    for v in t.values_mut() { if let D(m) = v { if r.chance(1, 2) { keepers(m, r); } } }
}
/// The folder without the repository's own.
fn look(x: &Cli) -> T {
    match read(&x.work) { Some(D(mut m)) => { m.remove(&OsString::from(".snapcd")); D(m) } _ => D(BTreeMap::new()) }
}

pub fn c28(c: &mut Ctx) {
    if std::env::var("C28_INSIDE").is_err() { return; }
    let mut inn = Cli::at(Path::new(AT).join("c28"));
    let mut out = Cli::new("out");
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        if r.chance(1, 6) { c.case("refused", &format!("seed {:#x}: a checkout outside the folder that it is limited to", seed), true, || refused(&mut out, &mut r)); }
        else { c.case("checkout", &format!("seed {:#x}: a checkout", seed), true, || checkout(&mut inn, &mut r)); }
    }
    wipe(&out.root);
}

fn setup(x: &mut Cli, r: &mut Rng) -> Result<(T, T), String> {
    x.clear();
    let mut m = text_tree(r);
    if r.chance(1, 4) { keepers(&mut m, r); }
    let t = D(m);
    x.lay(&t, r);
    x.must(&a(&["init"]))?;
    x.must(&a(&["commit", "--message=1"]))?;
    let k = text_key(&x.dump()?.log.last().unwrap().2);
    let mut d = t.clone();
    if let D(m) = &t {
        for _ in 0..r.below(3) { if let D(q) = &d { d = D(mutate(q, r, 0)); } }
        if let D(q) = &mut d { keepers(q, r); }
        // Mostly, no file stands where a folder is stored.
        if r.chance(5, 6) { if let D(q) = &mut d { agree(m, q); } }
    }
    x.lay(&d, r);
    if r.chance(1, 2) { x.must(&a(&["commit", "--message=2"]))?; x.must(&a(&["ref", "update", &k]))?; }
    Ok((t, d))
}
fn agree(t: &BTreeMap<OsString, T>, d: &mut BTreeMap<OsString, T>) {
    for (k, v) in t {
        match (v, d.get_mut(k)) {
            (D(a), Some(D(b))) => agree(a, b),
            (F(_), Some(F(_))) | (_, None) => {}
            _ => { d.remove(k); }
        }
    }
}

fn checkout(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    let (t, d) = setup(x, r)?;
    let before = x.dump()?;
    let o = x.run(&with_excl(a(&["checkout"]), &["*.keep".to_string()]));
    let n = look(x);
    let tell = || format!("the tree {} checked out over {} gives {}", clip(&show(&t), 700), clip(&show(&d), 700), clip(&show(&n), 700));
    ensure(x.dump()? == before, || format!("checkout changed the repository: {}", before.say(&x.dump().unwrap())))?;
    safe(Some(&t), Some(&d), Some(&n), false, Path::new("")).map_err(|m| format!("{}: {}", tell(), m))?;
    if conflict(&t, &d) { ensure(o.failed, || format!("checkout ended well with a file in place of a folder: {}", tell())) }
    else {
        ensure(!o.failed, || format!("checkout failed: {}: {}", clip(&o.text, 300), tell()))?;
        let w = want(&t, Some(&d));
        ensure(n == w, || format!("{}, and should give {}", tell(), clip(&show(&w), 700)))
    }
}
fn refused(x: &mut Cli, r: &mut Rng) -> Result<(), String> {
    let (_, d) = setup(x, r)?;
    let before = x.dump()?;
    let o = x.run(&with_excl(a(&["checkout"]), &["*.keep".to_string()]));
    let n = look(x);
    ensure(n == d && x.dump()? == before, || format!("a checkout that is refused changed {} to {}", clip(&show(&d), 700), clip(&show(&n), 700)))?;
    ensure(o.code != Some(0), || "a checkout outside the folder that it is limited to ended with status 0".to_string())
}
