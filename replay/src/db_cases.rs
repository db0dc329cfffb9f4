//! C08 (ref histories), C09 (HEAD), C14 (file-hash cache), C20 (durable settings).
use crate::util::*;
use snapcd::cache::{Cache, CacheKey, SqliteCache};
use snapcd::commit::Commit;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::{GetReflogError, Transactional};
use snapcd::key::{Key, TypedKey};
use snapcd::{DataStore, Reflog};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};

pub static SYNCS: AtomicU64 = AtomicU64::new(0);
extern "C" { fn syscall(n: i64, ...) -> i64; }
/// Stand-ins that count; SQLite (linked in) calls these.
#[no_mangle]
pub extern "C" fn fsync(fd: i32) -> i32 { SYNCS.fetch_add(1, Ordering::SeqCst); unsafe { syscall(74, fd) as i32 } }
#[no_mangle]
pub extern "C" fn fdatasync(fd: i32) -> i32 { SYNCS.fetch_add(1, Ordering::SeqCst); unsafe { syscall(75, fd) as i32 } }

pub fn scratch(name: &str) -> PathBuf {
    let base = std::env::var("REPLAY_SCRATCH").expect("REPLAY_SCRATCH");
    let d = Path::new(&base).join(name);
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}
pub fn key_of(rng: &mut Rng) -> Key {
    let b = rng.bytes(32);
    let mut h = vec![1u8];
    h.extend(b);
    Key::from_db_key(&h).unwrap()
}
fn s<E: std::fmt::Display>(e: E) -> String { format!("{}", e) }

const NAMES: &[&str] = &["", "a", "A", "a ", " a", "master", "Master", "mast", "master2", "a/b", "a%", "a_b", "%", "*", "é", "e\u{301}", "NULL", "null", "'", "\"", "1", "01", "1.0", "HEAD", "😀"];
const REMOTES: &[Option<&str>] = &[None, Some(""), Some("a"), Some("A"), Some("origin"), Some("NULL"), Some("null"), Some("1"), Some("01")];

fn check_refs(ds: &SqliteDS, model: &[(String, Option<String>, Key)], names: &[String], remotes: &[Option<String>]) -> Result<(), String> {
    for n in names {
        for r in remotes {
            let want: Vec<Key> = model.iter().rev().filter(|x| x.0 == *n && x.1 == *r).map(|x| x.2).collect();
            let got: Vec<Key> = ds.reflog_walk(n, r.as_deref()).map_err(|e| format!("walk {:?} {:?}: {}", n, r, e))?.iter().map(|k| k.inner()).collect();
            ensure(got == want, || format!("history of {:?} on {:?}: {} entries, expected {}: got {:?}, want {:?}", n, r, got.len(), want.len(), got.iter().map(s).collect::<Vec<_>>(), want.iter().map(s).collect::<Vec<_>>()))?;
            match (ds.reflog_get(n, r.as_deref()), want.first()) {
                (Ok(k), Some(w)) => ensure(k.inner() == *w, || format!("latest of {:?} on {:?}: got {}, want {}", n, r, k, w))?,
                (Err(GetReflogError::NotFound), None) => {}
                (x, w) => return Err(format!("latest of {:?} on {:?}: got {:?}, want {:?}", n, r, x.map(|k| s(k)).map_err(s), w.map(s))),
            }
        }
    }
    Ok(())
}

pub fn c08(c: &mut Ctx) {
    let d = scratch("c08");
    let mut round = 0;
    while !c.done() {
        round += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let nn = 1 + r.below(4);
        let names: Vec<String> = (0..nn).map(|_| if r.chance(4, 5) { r.pick(NAMES).to_string() } else { let n = r.below(40); String::from_utf8_lossy(&r.bytes(n)).replace('\u{0}', "") }).collect();
        let remotes: Vec<Option<String>> = (0..1 + r.below(3)).map(|_| r.pick(REMOTES).map(|x| x.to_string())).collect();
        let file = r.chance(1, 4);
        let p = if file { d.join(format!("{}.db", round)) } else { PathBuf::from(":memory:") };
        let n = if r.chance(1, 12) { 300 } else { r.below(14) };
        let pool: Vec<Key> = (0..3).map(|_| key_of(&mut r)).collect();
        c.case("pushes", &format!("seed {:#x}: {} pushes to names {:?} remotes {:?} (file {})", seed, n, names, remotes, file), n > 0, || {
            let mut ds = SqliteDS::new(&p).map_err(s)?;
            let mut model: Vec<(String, Option<String>, Key)> = vec![];
            for i in 0..n {
                let e = (r.pick(&names).clone(), r.pick(&remotes).clone(), if r.chance(1, 2) { *r.pick(&pool) } else { key_of(&mut r) });
                let tr = r.chance(1, 5);
                let keep = r.chance(2, 3);
                if tr { ds.begin_trans().map_err(s)?; }
                ds.reflog_push(&Reflog { refname: e.0.clone(), key: e.2.into(), remote: e.1.clone() }).map_err(|x| format!("push: {}", x))?;
                if tr && !keep { ds.rollback().map_err(s)?; } else { model.push(e); if tr { ds.commit().map_err(s)?; } }
                if r.chance(1, 6) { ds.put_head(&names[0]).map_err(s)?; }
                if r.chance(1, 6) { ds.put(b"x".to_vec()).map_err(s)?; }
                if n < 20 || i % 60 == 0 { check_refs(&ds, &model, &names, &remotes)?; }
                if file && r.chance(1, 6) { drop(ds); ds = SqliteDS::new(&p).map_err(s)?; check_refs(&ds, &model, &names, &remotes)?; }
            }
            check_refs(&ds, &model, &names, &remotes)?;
            for nm in NAMES { for rm in REMOTES {
                if !model.iter().any(|x| x.0 == *nm && x.1.as_deref() == *rm) {
                    ensure(ds.reflog_walk(nm, *rm).map_err(s)?.is_empty(), || format!("{:?} on {:?} was never pushed to, but has a history", nm, rm))?;
                }
            } }
            Ok(())
        });
        if file { let _ = std::fs::remove_file(&p); }
    }
}

const HEADS: &[&str] = &["", "master", "Master", "a/b", "\u{0}", "a\u{0}b", "é", "😀", "HEAD", "1", " ", "a ", "'", "NULL", "\u{feff}x", "x\n", "\r\n"];

pub fn c09(c: &mut Ctx) {
    let d = scratch("c09");
    let mut round = 0;
    while !c.done() {
        round += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let file = r.chance(1, 3);
        let p = if file { d.join(format!("{}.db", round)) } else { PathBuf::from(":memory:") };
        let n = 1 + r.below(10);
        c.case("heads", &format!("seed {:#x}: {} steps (file {})", seed, n, file), true, || {
            let mut ds = SqliteDS::new(&p).map_err(s)?;
            let mut want: Option<String> = None;
            let mut objs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
            let mut st: std::collections::BTreeMap<Vec<u8>, Vec<u8>> = Default::default();
            let mut refs: Vec<Key> = vec![];
            let check = |ds: &SqliteDS, want: &Option<String>, objs: &Vec<(Vec<u8>, Vec<u8>)>, st: &std::collections::BTreeMap<Vec<u8>, Vec<u8>>, refs: &Vec<Key>| -> Result<(), String> {
                let h = ds.get_head().map_err(|e| format!("get_head: {}", e))?;
                ensure(h == *want, || format!("head read back {:?}, last set {:?}", h, want))?;
                for (k, v) in objs { ensure(&*ds.raw_get(k).map_err(s)? == &v[..], || "a stored object changed".into())?; }
                let all = ds.raw_between(&[], None).map_err(s)?;
                ensure(all.len() == objs.len(), || format!("{} objects stored, {} expected", all.len(), objs.len()))?;
                for (k, v) in st { ensure(ds.raw_get_state(k).map_err(s)?.as_ref() == Some(v), || format!("the setting {} changed", hex(k)))?; }
                let w: Vec<Key> = ds.reflog_walk("HEAD", None).map_err(s)?.iter().map(|k: &TypedKey<Commit>| k.inner()).collect();
                ensure(w == refs.iter().rev().cloned().collect::<Vec<_>>(), || "a ref's history changed".into())
            };
            check(&ds, &want, &objs, &st, &refs)?;
            for _ in 0..n {
                match r.below(8) {
                    0 | 1 | 2 | 3 => {
                        let h = if r.chance(3, 4) { r.pick(HEADS).to_string() } else { let m = if r.chance(1, 8) { 70000 } else { 60 }; let k = r.below(m); String::from_utf8_lossy(&r.bytes(k)).into_owned() };
                        ds.put_head(&h).map_err(|e| format!("put_head {:?}: {}", h, e))?;
                        want = Some(h);
                    }
                    4 => { let b = { let k = 1 + r.below(20); r.bytes(k) }; let k = ds.put(b.clone()).map_err(s)?; if !objs.iter().any(|x| x.0 == k.as_db_key()) { objs.push((k.as_db_key(), b)); } }
                    5 => { let k = match r.below(6) { 0 => b"head".to_vec(), 1 => b"HEAD ".to_vec(), 2 => b"HEA".to_vec(), 3 => vec![], 4 => b"HEAD\0".to_vec(), _ => { let n = r.below(6); r.bytes(n) } }; if k != b"HEAD" { let v = { let n = r.below(9); r.bytes(n) }; ds.raw_put_state(&k, &v).map_err(s)?; st.insert(k, v); } }
                    6 => { let k = key_of(&mut r); ds.reflog_push(&Reflog { refname: "HEAD".into(), key: k.into(), remote: None }).map_err(s)?; refs.push(k); }
                    _ => if file { drop(ds); ds = SqliteDS::new(&p).map_err(s)?; } else { ds.begin_trans().map_err(s)?; ds.put_head("undone").map_err(s)?; ds.rollback().map_err(s)?; }
                }
                check(&ds, &want, &objs, &st, &refs)?;
            }
            Ok(())
        });
        if file { let _ = std::fs::remove_file(&p); }
    }
}

fn ident(r: &mut Rng, pool: &[CacheKey]) -> CacheKey {
    let w = |r: &mut Rng| match r.below(6) { 0 => 0u64, 1 => r.next() % 3, 2 => 1u64 << r.below(64), 3 => u64::MAX - r.next() % 3, 4 => r.next() % 100000, _ => r.next() };
    if !pool.is_empty() && r.chance(1, 2) {
        let mut k = *r.pick(pool);
        match r.below(9) {
            0 => k.inode ^= 1 << r.below(64),
            1 => k.mtime ^= 1 << r.below(64),
            2 => k.size ^= 1 << r.below(64),
            3 => { let t = k.inode; k.inode = k.size; k.size = t; }
            4 => { let t = k.inode; k.inode = k.mtime as u64; k.mtime = t as i64; }
            5 => { let t = k.size; k.size = k.mtime as u64; k.mtime = t as i64; }
            6 => k.mtime = k.mtime.wrapping_neg(),
            7 => { k.inode = k.inode.swap_bytes(); }
            _ => {}
        }
        return k;
    }
    CacheKey { inode: w(r), mtime: w(r) as i64, size: w(r) }
}

pub fn c14(c: &mut Ctx) {
    let d = scratch("c14");
    let mut round = 0;
    while !c.done() {
        round += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let n = 1 + r.below(30);
        let file = r.chance(1, 4);
        let p = if file { d.join(format!("{}.db", round)) } else { PathBuf::from(":memory:") };
        c.case("identities", &format!("seed {:#x}: {} steps", seed, n), true, || {
            let mut ca = SqliteCache::new(&p).map_err(s)?;
            let mut pool: Vec<CacheKey> = vec![];
            let mut model: Vec<((u64, i64, u64), Key)> = vec![];
            let t = |k: &CacheKey| (k.inode, k.mtime, k.size);
            for _ in 0..n {
                let k = ident(&mut r, &pool);
                pool.push(k);
                if r.chance(2, 3) {
                    let v = key_of(&mut r);
                    let (tr, keep) = (r.chance(1, 6), r.chance(2, 3));
                    if tr { ca.begin_trans().map_err(s)?; }
                    ca.put(k, v).map_err(|e| format!("put: {}", e))?;
                    if tr && !keep { ca.rollback().map_err(s)?; }
                    else { if tr { ca.commit().map_err(s)?; } if !model.iter().any(|x| x.0 == t(&k)) { model.push((t(&k), v)); } }
                }
                if file && r.chance(1, 8) { drop(ca); ca = SqliteCache::new(&p).map_err(s)?; }
                for q in &pool {
                    let want = model.iter().find(|x| x.0 == t(q)).map(|x| x.1);
                    let got = ca.get(*q).map_err(|e| format!("get {:?}: {}", q, e))?;
                    ensure(got == want, || format!("{:?} gives {:?}, first stored {:?}", q, got.map(s), want.map(s)))?;
                }
            }
            Ok(())
        });
        if file { for x in ["", "-wal", "-shm"] { let _ = std::fs::remove_file(format!("{}{}", p.display(), x)); } }
        if round % 3 == 0 {
            // A malformed entry.
            let bad = match r.below(6) { 0 => vec![], 1 => vec![1u8], 2 => { let mut v = vec![1u8]; v.extend(r.bytes(31)); v } 3 => { let mut v = vec![1u8]; v.extend(r.bytes(33)); v } 4 => { let mut v = vec![2u8]; v.extend(r.bytes(32)); v } _ => { let mut v = vec![0u8]; v.extend(r.bytes(32)); v } };
            let k = ident(&mut r, &[]);
            let p = d.join(format!("bad{}.db", round));
            c.case("malformed entry", &format!("entry {} for {:?}", hex(&bad), k), true, || {
                let ca = SqliteCache::new(&p).map_err(s)?;
                let mut id: Vec<u8> = vec![];
                id.extend(&k.inode.to_le_bytes()); id.extend(&k.mtime.to_le_bytes()); id.extend(&k.size.to_le_bytes());
                ca.put(k, key_of(&mut r)).map_err(s)?;
                let raw = rusqlite::Connection::open(&p).map_err(s)?;
                let n = raw.execute("UPDATE cache SET value=?", rusqlite::params![bad]).map_err(s)?;
                ensure(n == 1, || "one entry expected".into())?;
                match ca.get(k) { Err(_) => Ok(()), Ok(x) => Err(format!("a malformed entry was read as {:?}", x.map(s))) }
            });
            for x in ["", "-wal", "-shm"] { let _ = std::fs::remove_file(format!("{}{}", p.display(), x)); }
        }
    }
}

fn dump(p: &Path) -> Result<Vec<String>, String> {
    let c = rusqlite::Connection::open(p).map_err(s)?;
    let mut out = vec![];
    let mut q = c.prepare("SELECT type, name, tbl_name, sql FROM sqlite_master ORDER BY name").map_err(s)?;
    let tabs: Vec<(String, String)> = q.query_map(rusqlite::params![], |r| Ok((r.get::<_, String>(1)?, format!("{:?}", (r.get::<_, String>(0)?, r.get::<_, String>(1)?, r.get::<_, Option<String>>(3)?))))).map_err(s)?.collect::<Result<_, _>>().map_err(s)?;
    for (n, t) in tabs {
        out.push(t);
        if n.starts_with("sqlite_") { continue; }
        let mut q = match c.prepare(&format!("SELECT * FROM \"{}\"", n)) { Ok(q) => q, Err(_) => continue };
        let k = q.column_count();
        let mut rows = q.query(rusqlite::params![]).map_err(s)?;
        let mut ls = vec![];
        while let Some(r) = rows.next().map_err(s)? {
            ls.push((0..k).map(|i| format!("{:?}", r.get_raw(i))).collect::<Vec<_>>().join("|"));
        }
        ls.sort();
        out.push(format!("{}: {:?}", n, ls));
    }
    Ok(out)
}

/// Copy a database as a crash would leave it.
fn crash_copy(p: &Path, to: &Path) {
    let _ = std::fs::remove_dir_all(to);
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(p.parent().unwrap()).unwrap() {
        let e = e.unwrap();
        if e.file_name().to_string_lossy().starts_with(&*p.file_name().unwrap().to_string_lossy()) { std::fs::copy(e.path(), to.join(e.file_name())).unwrap(); }
    }
}

pub fn c20(c: &mut Ctx) {
    let d = scratch("c20");
    let mut round = 0;
    while !c.done() && round < 4000 {
        round += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let dir = d.join(format!("{}", round));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("snapcd.db");
        let pre = r.below(4);
        c.case("opening", &format!("seed {:#x}: {}", seed, ["a new file", "a repository with contents", "a repository left in WAL mode", "a repository with an extra table"][pre]), true, || {
            if pre > 0 {
                let ds = SqliteDS::new(&p).map_err(s)?;
                for _ in 0..r.below(20) { let n = r.below(40000); ds.put(r.bytes(n)).map_err(s)?; }
                for i in 0..r.below(5) { ds.reflog_push(&Reflog { refname: format!("r{}", i), key: key_of(&mut r).into(), remote: None }).map_err(s)?; }
                ds.put_head("x").map_err(s)?;
                drop(ds);
                let raw = rusqlite::Connection::open(&p).map_err(s)?;
                if pre == 2 { let _: String = raw.query_row("PRAGMA journal_mode=WAL", rusqlite::params![], |r| r.get(0)).map_err(s)?; }
                if pre == 3 { raw.execute_batch("CREATE TABLE other (a); INSERT INTO other VALUES (1);").map_err(s)?; }
            }
            let before = if pre > 0 { Some(dump(&p)?) } else { None };
            let mut ds = SqliteDS::new(&p).map_err(s)?;
            if let Some(b) = &before { let a = dump(&p)?; ensure(a == *b, || format!("opening changed what is stored:\nbefore {:?}\nafter {:?}", b, a))?; }
            // Unique keys.
            for t in ["data", "state"] {
                let raw = rusqlite::Connection::open(&p).map_err(s)?;
                raw.execute_batch("BEGIN").map_err(s)?;
                let q = format!("INSERT INTO {} VALUES (?, ?)", t);
                raw.execute(&q, rusqlite::params![b"k-unique".to_vec(), b"1".to_vec()]).map_err(|e| format!("table {} cannot take a row: {}", t, e))?;
                ensure(raw.execute(&q, rusqlite::params![b"k-unique".to_vec(), b"2".to_vec()]).is_err(), || format!("table {} takes the same key twice", t))?;
                raw.execute_batch("ROLLBACK").map_err(s)?;
            }
            // A rollback journal on disk.
            let committed = dump(&p)?;
            ds.begin_trans().map_err(s)?;
            let n = 1 + r.below(6);
            for _ in 0..n { let k = r.below(30000); ds.put(r.bytes(k)).map_err(s)?; }
            let j = dir.join("snapcd.db-journal");
            ensure(j.metadata().map(|m| m.len() > 0).unwrap_or(false), || "no rollback journal on disk during a transaction".into())?;
            // What a crash at this point leaves.
            let crash = d.join("crash");
            crash_copy(&p, &crash);
            let got = dump(&crash.join("snapcd.db")).map_err(|e| format!("after a crash in a transaction: {}", e))?;
            ensure(got == committed, || "after a crash in a transaction, the database is not as it was before".into())?;
            // Full synchronisation: as many syncs as a connection set to FULL does.
            let rp = dir.join("ref.db");
            let raw = rusqlite::Connection::open(&rp).map_err(s)?;
            raw.execute_batch("PRAGMA page_size=16384;").map_err(s)?;
            let _: String = raw.query_row("PRAGMA journal_mode=TRUNCATE", rusqlite::params![], |r| r.get(0)).map_err(s)?;
            raw.execute_batch("PRAGMA synchronous=FULL; CREATE TABLE data (key BLOB NOT NULL UNIQUE PRIMARY KEY, value BLOB NOT NULL) WITHOUT ROWID;").map_err(s)?;
            let v = r.bytes(500);
            let a0 = SYNCS.load(Ordering::SeqCst);
            ds.commit().map_err(s)?;
            ds.put(v.clone()).map_err(s)?;
            let a1 = SYNCS.load(Ordering::SeqCst);
            ds.put(r.bytes(501)).map_err(s)?;
            let a2 = SYNCS.load(Ordering::SeqCst);
            raw.execute("INSERT INTO data VALUES (?, ?)", rusqlite::params![b"k".to_vec(), v]).map_err(s)?;
            let a3 = SYNCS.load(Ordering::SeqCst);
            ensure(a3 > a2, || "(internal) the reference connection does not sync".into())?;
            ensure(a2 - a1 >= a3 - a2 && a1 - a0 >= 2 * (a3 - a2), || format!("a write syncs {} times and a commit and a write {} times; with full synchronisation a write syncs {} times", a2 - a1, a1 - a0, a3 - a2))?;
            Ok(())
        });
        let _ = std::fs::remove_dir_all(&dir);
    }
    c.case("unusable path", "a folder", true, || { let q = d.join("folder"); std::fs::create_dir_all(&q).unwrap(); match SqliteDS::new(&q) { Err(_) => Ok(()), Ok(_) => Err("a folder was opened as a database".into()) } });
}
