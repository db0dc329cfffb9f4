//! C10, C11, C12, C13, C16, C17, C19: directories, their snapshots and their comparison.
use crate::db_cases::{key_of, scratch};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::cache::SqliteCache;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::{Key, TypedKey};
use snapcd::object::ObjType;
use snapcd::{diff, dir, filter, DataStore, Object};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::fs::DirEntry;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum T { F(Vec<u8>), D(BTreeMap<OsString, T>) }
use T::*;

const NAMES: &[&str] = &["a", "b", "c", "A", "a.txt", "b.rs", "a.txt.bak", " ", "a b", ".x", "..x", "x..", "...", "-r", "*", "?", "[ab]", "{a,b}", "\\", "\n", "\"", "é", "e\u{301}", "😀", "dir", "dir2", "db", "snapcd.db", "NULL", "~", "CON", "a:b", "%s", "#", "0"];

pub fn name(r: &mut Rng) -> OsString {
    match r.below(12) {
        0 => { let n = 1 + r.below(200); "n".repeat(n).into() }
        1 => { let n = 1 + r.below(6); String::from_utf8_lossy(&r.bytes(n)).replace(['/', '\0'], "_").into() }
        _ => OsString::from(*r.pick(NAMES)),
    }
}
fn ok_name(n: &OsString) -> bool { let b = n.to_string_lossy(); !b.is_empty() && b != "." && b != ".." && n.len() < 250 }

pub fn content(r: &mut Rng, big: bool) -> Vec<u8> {
    match r.below(8) {
        0 => vec![],
        1 => vec![*r.pick(&[b'\n', b'a', 0, 255])],
        2 | 3 => lines(r),
        4 => { let n = r.below(40); r.bytes(n) }
        5 if big => { let n = *r.pick(&[4096usize, 8191, 8192, 8193, 10000, 65536, 100_000, 300_000]); r.bytes(n) }
        _ => { let n = r.below(2000); r.bytes(n) }
    }
}
pub fn lines(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..r.below(12) {
        v.extend_from_slice(*r.pick(&[&b"a"[..], b"b", b"c", b"", b"long line with words", b"\xff\xfe", b"a\r", "ü".as_bytes()]));
        if r.chance(9, 10) { v.push(b'\n'); }
    }
    v
}
pub fn tree(r: &mut Rng, depth: usize, budget: &mut usize) -> BTreeMap<OsString, T> {
    let mut m = BTreeMap::new();
    for _ in 0..r.below(if depth == 0 { 7 } else { 4 }) {
        if *budget == 0 { break; }
        *budget -= 1;
        let n = name(r);
        if !ok_name(&n) { continue; }
        if depth < 4 && r.chance(2, 5) { let t = tree(r, depth + 1, budget); m.insert(n, D(t)); } else { let c = content(r, depth == 0); m.insert(n, F(c)); }
    }
    m
}
pub fn some_tree(r: &mut Rng) -> T { let mut b = 14; D(tree(r, 0, &mut b)) }

/// Create `t` at `p`, its entries in any order.
pub fn write(p: &Path, t: &T, r: &mut Rng) {
    match t {
        F(b) => std::fs::write(p, b).unwrap(),
        D(m) => {
            std::fs::create_dir_all(p).unwrap();
            let mut ks: Vec<&OsString> = m.keys().collect();
            for i in (1..ks.len()).rev() { let j = r.below(i + 1); ks.swap(i, j); }
            for k in ks { write(&p.join(k), &m[k], r); }
        }
    }
}
pub fn read(p: &Path) -> Option<T> {
    let m = std::fs::symlink_metadata(p).ok()?;
    if m.is_dir() {
        let mut t = BTreeMap::new();
        for e in std::fs::read_dir(p).unwrap() { let e = e.unwrap(); t.insert(e.file_name(), read(&e.path()).unwrap()); }
        Some(D(t))
    } else { Some(F(std::fs::read(p).unwrap())) }
}
pub fn wipe(p: &Path) { let _ = std::fs::remove_dir_all(p); let _ = std::fs::remove_file(p); }
pub fn show(t: &T) -> String {
    match t {
        F(b) => if b.len() <= 24 { format!("{:?}", String::from_utf8_lossy(b)) } else { format!("<{} bytes>", b.len()) },
        D(m) => format!("{{{}}}", m.iter().map(|(k, v)| format!("{:?}: {}", clip(&k.to_string_lossy(), 30), show(v))).collect::<Vec<_>>().join(", ")),
    }
}
/// Every item below the root, by relative path.
pub fn flat(t: &T, p: &Path, out: &mut BTreeMap<PathBuf, T>) {
    if let D(m) = t { for (k, v) in m { let q = p.join(k); out.insert(q.clone(), v.clone()); flat(v, &q, out); } }
}
pub fn flatten(t: &T) -> BTreeMap<PathBuf, T> {
    let mut o = BTreeMap::new();
    match t { D(_) => flat(t, Path::new(""), &mut o), F(_) => { o.insert(PathBuf::new(), t.clone()); } }
    o
}
pub fn is_dir(t: &T) -> bool { matches!(t, D(_)) }
pub fn any(_: &DirEntry) -> bool { true }

pub fn diffmsg(a: &T, b: &T) -> String {
    let (x, y) = (flatten(a), flatten(b));
    for (k, v) in &x { match y.get(k) { None => return format!("{:?} is missing", k), Some(w) if is_dir(v) != is_dir(w) || !is_dir(v) && v != w => return format!("{:?} is {} instead of {}", k, show(w), show(v)), _ => {} } }
    for k in y.keys() { if !x.contains_key(k) { return format!("{:?} should not be there", k); } }
    "they differ".into()
}

/// Store a tree without snapcd's directory code: item objects made by hand, children in any order.
pub fn store_by_hand(ds: &mut SqliteDS, t: &T, r: &mut Rng) -> Key {
    match t {
        F(b) => { let c = snapcd::file::put_data(ds, &b[..]).unwrap(); put_item(ds, b.len() as u64, "File", vec![], vec![c], ObjType::FSItemFile) }
        D(m) => {
            let mut ks: Vec<&OsString> = m.keys().collect();
            for i in (1..ks.len()).rev() { let j = r.below(i + 1); ks.swap(i, j); }
            let kids = ks.iter().map(|k| store_by_hand(ds, &m[*k], r)).collect();
            put_item(ds, m.len() as u64, "Dir", ks.iter().map(|k| k.to_str().unwrap().to_string()).collect(), kids, ObjType::FSItemDir)
        }
    }
}
pub fn put_item(ds: &mut SqliteDS, size: u64, ty: &str, names: Vec<String>, kids: Vec<Key>, ot: ObjType) -> Key {
    use serde_cbor::Value as V;
    let mut m = BTreeMap::new();
    m.insert(V::Text("size".into()), V::Integer(size as i128));
    m.insert(V::Text("itemtype".into()), V::Text(ty.into()));
    m.insert(V::Text("children_names".into()), V::Array(names.into_iter().map(V::Text).collect()));
    let b = serde_cbor::to_vec(&V::Map(m)).unwrap();
    ds.put_obj(&Object::new_owned(b, kids, ot)).unwrap()
}

pub fn c10(c: &mut Ctx) {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let root = scratch("c10");
    let mut n = 0;
    while !c.done() {
        n += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let t = match n % 17 { 0 => F(content(&mut r, true)), 1 => D(BTreeMap::new()), 2 => {
            // many entries, equal contents among them
            let cs: Vec<Vec<u8>> = (0..3).map(|_| content(&mut r, false)).collect();
            D((0..200).map(|i| (OsString::from(format!("f{}", (i * 7919) % 1000)), F(r.pick(&cs).clone()))).collect())
        } _ => some_tree(&mut r) };
        let hand = n % 3 == 0;
        c.case(if hand { "restore" } else { "snapshot" }, &format!("seed {:#x}: {}", seed, clip(&show(&t), 600)), true, || {
            let k = if hand { store_by_hand(&mut ds, &t, &mut r) } else {
                let src = root.join("src"); wipe(&src); write(&src, &t, &mut r);
                let k = dir::put_fs_item(&mut ds, &src, &any).map_err(s)?;
                let again = dir::put_fs_item(&mut ds, &src, &any).map_err(s)?;
                ensure(k == again, || "a second snapshot of the same directory has another key".into())?;
                ensure(read(&src).as_ref() == Some(&t), || "the directory changed while it was snapshotted".into())?;
                k
            };
            let dest = root.join(*r.pick(&["dest", "new/deep/dest"]));
            wipe(&root.join("dest")); wipe(&root.join("new"));
            dir::get_fs_item(&ds, k.into(), &dest).map_err(s)?;
            let got = read(&dest);
            ensure(got.as_ref() == Some(&t), || match &got { None => "nothing was restored".into(), Some(g) => diffmsg(&t, g) })
        });
        if n % 11 == 0 {
            let bad = OsString::from_vec(vec![b'x', 0xff, b'0' + (n % 10) as u8]);
            c.case("not text", &format!("seed {:#x}: a name that is not UTF-8", seed), true, || {
                let src = root.join("src"); wipe(&src); write(&src, &t, &mut r); let _ = std::fs::create_dir_all(&src);
                if src.is_dir() { std::fs::write(src.join(&bad), b"1").unwrap(); }
                if let Ok(k) = dir::put_fs_item(&mut ds, &src, &any) {
                    let dest = root.join("dest"); wipe(&dest);
                    dir::get_fs_item(&ds, k.into(), &dest).map_err(s)?;
                    ensure(read(&dest) == read(&src), || "the restored directory differs".into())?;
                }
                Ok(())
            });
        }
    }
    wipe(&root);
}

pub fn c11(c: &mut Ctx) {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let root = scratch("c11");
    std::env::set_current_dir(&root).unwrap();
    let mut n = 0;
    while !c.done() {
        n += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let box_ = root.join("box");
        wipe(&box_);
        std::fs::create_dir_all(&box_).unwrap();
        let dest = box_.join("in/dest");
        let t = some_tree(&mut r);
        // What is there already: parts of the tree itself, with other contents, other kinds, and other things.
        let mut pre = some_tree(&mut r);
        if let (D(p), D(q)) = (&mut pre, &t) {
            for (k, v) in q { if r.chance(1, 4) { let x = if r.chance(1, 2) { F(content(&mut r, false)) } else if r.chance(1, 2) { v.clone() } else { some_tree(&mut r) }; p.insert(k.clone(), x); } }
        }
        std::fs::create_dir_all(dest.parent().unwrap()).unwrap();
        let nopre = r.chance(1, 5);
        if !nopre { write(&dest, &pre, &mut r); }
        std::fs::write(box_.join("keep"), b"keep").unwrap();
        std::fs::write(box_.join("in/keep"), b"keep").unwrap();
        let before = read(&box_).unwrap();
        let hostile = n % 2 == 0;
        let key;
        let what;
        if hostile {
            let f = put_file(&mut ds, b"hostile");
            let nm = match r.below(12) { 0 => "../keep".to_string(), 1 => "../../keep".into(), 2 => "../new".into(), 3 => box_.join("abs").to_str().unwrap().into(), 4 => "".into(), 5 => ".".into(), 6 => "..".into(), 7 => "a/b".into(), 8 => "a/".into(), 9 => "./a".into(), 10 => "a/../../up".into(), _ => "a".into() };
            let kid = if r.chance(1, 3) { put_item(&mut ds, 0, "Dir", vec!["x".into()], vec![f], ObjType::FSItemDir) } else if r.chance(1, 6) { key_of(&mut r) } else { f };
            key = match r.below(7) {
                0 => put_item(&mut ds, 0, "File", vec![], vec![], ObjType::FSItemFile),
                1 => put_item(&mut ds, 0, "File", vec![nm.clone()], vec![f, f], ObjType::FSItemFile),
                2 => put_item(&mut ds, 2, "Dir", vec!["same".into(), "same".into()], vec![f, kid], ObjType::FSItemDir),
                3 => put_item(&mut ds, 1, "Dir", vec!["one".into(), nm.clone()], vec![f], ObjType::FSItemDir),
                _ => put_item(&mut ds, 1, "Dir", vec!["z".into(), nm.clone()], vec![f, kid], ObjType::FSItemDir),
            };
            what = format!("an object with the name {:?}", nm);
        } else { key = store_by_hand(&mut ds, &t, &mut r); what = clip(&show(&t), 300); }
        c.case(if hostile { "odd object" } else { "occupied" }, &format!("seed {:#x}: {} onto {}", seed, what, if nopre { "nothing".into() } else { clip(&show(&pre), 300) }), true, || {
            let res = dir::get_fs_item(&ds, key.into(), &dest);
            let after = read(&box_).unwrap();
            let (b, a) = (flatten(&before), flatten(&after));
            for (p, v) in &b {
                match (v, a.get(p)) {
                    (_, None) => return Err(format!("{:?} is gone", p)),
                    (F(x), Some(F(y))) if x == y => {}
                    (D(_), Some(D(_))) => {}
                    (x, Some(y)) => return Err(format!("{:?} was {} and is {}", p, show(x), show(y))),
                }
            }
            for p in a.keys() { if !b.contains_key(p) { ensure(p.starts_with("in/dest"), || format!("{:?} was created outside the destination", p))?; } }
            if !hostile {
                let clash = !nopre && flatten(&t).iter().any(|(p, v)| match flatten(&pre).get(p) { Some(F(_)) => true, Some(D(_)) => !is_dir(v), None => false }) || !nopre && !is_dir(&pre);
                if clash { ensure(res.is_err(), || "fetching onto an existing file did not fail".into())?; }
                else { res.map_err(s)?; for (p, v) in flatten(&t) { match (a.get(&Path::new("in/dest").join(&p)), &v) { (Some(F(x)), F(y)) if x == y => {}, (Some(D(_)), D(_)) => {}, (g, _) => return Err(format!("{:?} is {:?} after fetching", p, g.map(show))) } } }
            }
            Ok(())
        });
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&root);
}
fn put_file(ds: &mut SqliteDS, b: &[u8]) -> Key { let c = snapcd::file::put_data(ds, b).unwrap(); put_item(ds, b.len() as u64, "File", vec![], vec![c], ObjType::FSItemFile) }

/// A filter made of names, and what it leaves of a tree.
fn by_name(bad: &[OsString]) -> impl Fn(&DirEntry) -> bool + '_ { move |e| !bad.contains(&e.file_name()) }
fn prune(t: &T, bad: &[OsString]) -> T {
    match t { F(_) => t.clone(), D(m) => D(m.iter().filter(|(k, _)| !bad.contains(k)).map(|(k, v)| (k.clone(), prune(v, bad))).collect()) }
}
fn bad_names(t: &T, r: &mut Rng) -> Vec<OsString> {
    let mut v = vec![];
    for p in flatten(t).keys() { if r.chance(1, 4) { if let Some(n) = p.file_name() { v.push(n.to_owned()); } } }
    v
}

pub fn c16(c: &mut Ctx) {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let root = scratch("c16");
    std::env::set_current_dir(&root).unwrap();
    let mut n = 0;
    while !c.done() {
        n += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let t = if n % 13 == 0 { F(content(&mut r, false)) } else { some_tree(&mut r) };
        let k = store_by_hand(&mut ds, &t, &mut r);
        c.case("stored", &format!("seed {:#x}: {}", seed, clip(&show(&t), 600)), true, || {
            let got = dir::walk_fs_items(&ds, k.into()).map_err(s)?;
            let want = flatten(&t);
            for (p, v) in &want {
                let (kk, d) = got.get(p).ok_or_else(|| format!("{:?} is not listed", p))?;
                ensure(*d == is_dir(v), || format!("{:?} has the wrong kind", p))?;
                ensure(kk.inner() == store_by_hand_key(&mut ds, v, kk.inner()), || format!("{:?} is listed with the key of something else", p))?;
            }
            ensure(got.len() == want.len(), || format!("{:?} is listed and not there", got.keys().find(|p| !want.contains_key(*p))))
        });
        let bad = if r.chance(1, 2) { bad_names(&t, &mut r) } else { vec![] };
        let rel = r.chance(1, 3);
        c.case("real", &format!("seed {:#x}: {} without {:?}, {}", seed, clip(&show(&t), 500), bad, if rel { "relative" } else { "absolute" }), true, || {
            let src = root.join("src"); wipe(&src); write(&src, &t, &mut r);
            if !is_dir(&t) { return Ok(()); }
            let p = if rel { PathBuf::from(*r.pick(&["src", "./src", "src/", "src/../src"])) } else { src.clone() };
            let got = dir::walk_real_fs_items(&p, &by_name(&bad));
            let got = got.map_err(s)?;
            let want = flatten(&prune(&t, &bad));
            for (p, v) in &want { ensure(got.get(p) == Some(&is_dir(v)), || format!("{:?} is listed as {:?}", p, got.get(p)))?; }
            ensure(got.len() == want.len(), || format!("{:?} is listed and not there", got.keys().find(|p| !want.contains_key(*p))))
        });
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&root);
}
/// The key a listed item should have: reading it back gives the item (checked by content, any child order).
fn store_by_hand_key(ds: &mut SqliteDS, t: &T, k: Key) -> Key {
    fn same(ds: &SqliteDS, t: &T, k: Key) -> bool {
        let o = match ds.get_obj(k) { Ok(o) => o, Err(_) => return false };
        match t {
            F(b) => { let mut v = vec![]; snapcd::file::read_data(ds, k, &mut v).is_ok() && v == *b }
            D(m) => {
                let x: serde_cbor::Value = serde_cbor::from_slice(o.data()).unwrap();
                let ns: Vec<String> = match x { serde_cbor::Value::Map(mm) => match &mm[&serde_cbor::Value::Text("children_names".into())] { serde_cbor::Value::Array(a) => a.iter().map(|x| if let serde_cbor::Value::Text(t) = x { t.clone() } else { String::new() }).collect(), _ => vec![] }, _ => return false };
                ns.len() == m.len() && ns.iter().zip(o.keys()).all(|(n, k)| m.get(&OsString::from(n)).map_or(false, |t| same(ds, t, *k)))
            }
        }
    }
    if same(ds, t, k) { k } else { Key::from_db_key(&[&[1u8][..], &[0u8; 32]].concat()).unwrap() }
}

/// Shell pattern: * is any text (also with /), ? any one character, [..] one of a set.
fn glob(p: &[char], x: &[char]) -> bool {
    match p.first() {
        None => x.is_empty(),
        Some('*') => (0..=x.len()).any(|i| glob(&p[1..], &x[i..])),
        Some('?') => !x.is_empty() && glob(&p[1..], &x[1..]),
        Some('[') => { let j = p.iter().position(|c| *c == ']').unwrap(); !x.is_empty() && p[1..j].contains(&x[0]) && glob(&p[j + 1..], &x[1..]) }
        Some('\\') => !x.is_empty() && x[0] == p[1] && glob(&p[2..], &x[1..]),
        Some(c) => !x.is_empty() && x[0] == *c && glob(&p[1..], &x[1..]),
    }
}
pub fn matches_any(ps: &[String], path: &Path) -> bool {
    let x: Vec<char> = path.to_string_lossy().chars().collect();
    ps.iter().any(|p| glob(&p.chars().collect::<Vec<_>>(), &x))
}
pub const PLAIN: &[&str] = &["a", "b", "c", "a.txt", "b.rs", "a.txt.bak", ".x", "dir", "dir2", "db", "db2", "snapcd.db", "target", "ab", "tmp"];
pub fn plain_tree(r: &mut Rng, depth: usize) -> BTreeMap<OsString, T> {
    let mut m = BTreeMap::new();
    for _ in 0..r.below(7) {
        let n = OsString::from(*r.pick(PLAIN));
        if depth < 3 && r.chance(1, 2) { let t = plain_tree(r, depth + 1); m.insert(n, D(t)); } else { let b = r.bytes(3); m.insert(n, F(b)); }
    }
    m
}
/// What stays, decided entry by entry from the top.
pub fn keep(t: &T, rel: &Path, base: &Path, db: &Option<PathBuf>, ps: &[String]) -> T {
    match t { F(_) => t.clone(), D(m) => D(m.iter().filter(|(k, _)| {
        let q = rel.join(k);
        if let Some(d) = db { if q.starts_with(d) { return false; } }
        let full = base.join(&q);
        let full = full.strip_prefix("./").map(|x| x.to_path_buf()).unwrap_or(full);
        !matches_any(ps, &full)
    }).map(|(k, v)| (k.clone(), keep(v, &rel.join(k), base, db, ps))).collect()) }
}
pub fn c17(c: &mut Ctx) {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let root = scratch("c17");
    std::env::set_current_dir(&root).unwrap();
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let t = D(plain_tree(&mut r, 0));
        let src = root.join("src");
        wipe(&src); wipe(&root.join("else"));
        std::fs::create_dir_all(root.join("else")).unwrap();
        write(&src, &t, &mut r);
        let dirs: Vec<PathBuf> = flatten(&t).into_iter().filter(|(_, v)| is_dir(v)).map(|(p, _)| p).collect();
        // The database folder: in the tree, or elsewhere.
        let db = if !dirs.is_empty() && r.chance(2, 3) { Some(r.pick(&dirs).clone()) } else { None };
        let dbp = match &db { Some(d) => match r.below(3) { 0 => src.join(d), 1 => Path::new("src").join(d), _ => src.join("../src").join(d) }, None => root.join("else") };
        let base = match r.below(4) { 0 => src.clone(), 1 => PathBuf::from("src"), 2 => PathBuf::from("./src"), _ => { PathBuf::from(".") } };
        let dot = base == Path::new(".");
        if dot { std::env::set_current_dir(&src).unwrap(); }
        let dbp = if dot { std::fs::canonicalize(root.join(&dbp)).unwrap() } else { dbp };
        let mut pats: Vec<String> = vec![];
        for _ in 0..r.below(4) {
            let n = *r.pick(PLAIN);
            pats.push(match r.below(9) { 0 => n.into(), 1 => format!("*/{}", n), 2 => format!("src/{}", n), 3 => format!("{}/{}", src.display(), n), 4 => "*.txt".into(), 5 => "*.bak".into(), 6 => format!("*/{}*", &n[..1]), 7 => "[ab]".into(), _ => format!("*/?{}", &n[1..]) });
        }
        let want = keep(&t, Path::new(""), &base, &db, &pats);
        let dropped = flatten(&want).len() < flatten(&t).len();
        c.case("filtered", &format!("seed {:#x}: {} from {:?}, database {:?}, patterns {:?}", seed, clip(&show(&t), 400), base, dbp, pats), dropped, || {
            let f = filter::make_filter_fn(&pats, dbp.clone());
            let got = dir::walk_real_fs_items(&base, &f).map_err(s)?;
            let w = flatten(&want);
            for p in got.keys() { ensure(w.contains_key(p), || format!("{:?} is excluded and was listed", p))?; }
            for p in w.keys() { ensure(got.contains_key(p), || format!("{:?} is not excluded and was left out", p))?; }
            let k = dir::put_fs_item(&mut ds, &base, &f).map_err(s)?;
            let got = dir::walk_fs_items(&ds, k.into()).map_err(s)?;
            for p in got.keys() { ensure(w.contains_key(p), || format!("{:?} is excluded and was snapshotted", p))?; }
            for p in w.keys() { ensure(got.contains_key(p), || format!("{:?} is not excluded and was not snapshotted", p))?; }
            Ok(())
        });
        std::env::set_current_dir(&root).unwrap();
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&root);
}

/// Entries of a report: (path, is_dir, key, other key) per list, read from the Debug form.
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ent { pub path: String, pub dir: bool, pub keys: String }
pub fn report(d: &str) -> Result<[Vec<Ent>; 3], String> {
    let mut o: [Vec<Ent>; 3] = Default::default();
    for (i, nm) in ["DeletedDiffResult { ", "AddedDiffResult { ", "ModifiedDiffResult { "].iter().enumerate() {
        for part in d.split(nm).skip(1) {
            let p = part.split("path: \"").nth(1).ok_or("unreadable report")?;
            let path = p.split('"').next().unwrap().to_string();
            // Up to the closing brace of this entry (no path in these trees has a brace in it).
            let mut depth = 1;
            let end = part.find(|c| { if c == '{' { depth += 1 } else if c == '}' { depth -= 1 } depth == 0 }).unwrap_or(part.len());
            let dir = part[..end].contains("is_dir: true");
            o[i].push(Ent { path, dir, keys: part[..end].to_string() });
        }
    }
    Ok(o)
}
/// Change a tree.
pub fn mutate(t: &BTreeMap<OsString, T>, r: &mut Rng, depth: usize) -> BTreeMap<OsString, T> {
    let mut m = BTreeMap::new();
    for (k, v) in t {
        match r.below(10) {
            0 => {}
            1 => { m.insert(k.clone(), F(lines(r))); }
            2 => { m.insert(k.clone(), D(plain_tree(r, 2))); }
            3 => { if let F(b) = v { let mut b = b.clone(); if !b.is_empty() { let i = r.below(b.len()); b[i] = b[i].wrapping_add(1); } m.insert(k.clone(), F(b)); } else { m.insert(k.clone(), v.clone()); } }
            _ => { m.insert(k.clone(), match v { D(x) => D(mutate(x, r, depth + 1)), f => f.clone() }); }
        }
    }
    if r.chance(1, 3) { m.insert(OsString::from(*r.pick(PLAIN)), if r.chance(1, 2) { D(plain_tree(r, 2)) } else { F(lines(r)) }); }
    m
}
pub fn text_tree(r: &mut Rng) -> BTreeMap<OsString, T> {
    fn go(r: &mut Rng, depth: usize) -> BTreeMap<OsString, T> {
        let mut m = BTreeMap::new();
        for _ in 0..r.below(7) {
            let n = OsString::from(*r.pick(PLAIN));
            let v = if depth < 3 && r.chance(2, 5) { D(go(r, depth + 1)) } else { F(if r.chance(3, 4) { lines(r) } else { content(r, false) }) };
            m.insert(n, v);
        }
        m
    }
    go(r, 0)
}
pub type Lists = [std::collections::BTreeSet<(String, bool)>; 3];
/// The differences: what `new` has only, what `old` has only, files with other contents.
pub fn expected(new: &T, old: &T) -> Lists {
    let (a, b) = (flatten(new), flatten(old));
    let mut o: Lists = Default::default();
    for (p, v) in &a { let q = p.to_str().unwrap().to_string();
        match b.get(p) { Some(w) if is_dir(v) == is_dir(w) => if !is_dir(v) && v != w { o[2].insert((q, false)); }, _ => { o[1].insert((q, is_dir(v))); } } }
    for (p, v) in &b { let q = p.to_str().unwrap().to_string();
        match a.get(p) { Some(w) if is_dir(v) == is_dir(w) => {}, _ => { o[0].insert((q, is_dir(v))); } } }
    o
}
fn same_lists(got: &[Vec<Ent>; 3], want: &Lists) -> Result<(), String> {
    for (i, nm) in ["deleted", "added", "modified"].iter().enumerate() {
        let mut seen = std::collections::BTreeSet::new();
        for e in &got[i] {
            let x = (e.path.clone(), e.dir);
            ensure(want[i].contains(&x), || format!("{:?} is listed as {}{}", e.path, nm, if e.dir { " (a directory)" } else { "" }))?;
            ensure(seen.insert(x), || format!("{:?} is listed twice as {}", e.path, nm))?;
        }
        for (p, d) in &want[i] { ensure(seen.contains(&(p.clone(), *d)), || format!("{:?} is not listed as {}", p, nm))?; }
    }
    Ok(())
}
pub fn touch_all(p: &Path, tick: &mut u64) {
    for e in std::fs::read_dir(p).unwrap() {
        let e = e.unwrap();
        if e.path().is_dir() { touch_all(&e.path(), tick); } else {
            *tick += 1;
            let f = std::fs::OpenOptions::new().append(true).open(e.path()).unwrap();
            f.set_modified(std::time::UNIX_EPOCH + std::time::Duration::new(1_700_000_000, 0) + std::time::Duration::from_nanos(*tick * 1000)).unwrap();
        }
    }
}
struct Cmp { ds: SqliteDS, cache: SqliteCache, root: PathBuf, tick: u64 }
impl Cmp {
    fn new(nm: &str) -> Cmp { let root = scratch(nm); std::fs::create_dir_all(root.join("db")).unwrap(); Cmp { ds: SqliteDS::new(":memory:").unwrap(), cache: SqliteCache::new(":memory:").unwrap(), root, tick: 0 } }
    fn real(&mut self, to: Option<Key>) -> Result<diff::DiffResult, String> {
        let p = self.root.join("src");
        diff::compare(&mut self.ds, diff::DiffTarget::FileSystem(p, vec![], self.root.join("db")), to.map(|k| k.into()), &mut self.cache).map_err(s)
    }
    fn stored(&mut self, from: Key, to: Option<Key>) -> Result<diff::DiffResult, String> {
        diff::compare(&mut self.ds, diff::DiffTarget::Database(from.into()), to.map(|k| -> TypedKey<_> { k.into() }), None).map_err(s)
    }
    fn lay(&mut self, t: &T, r: &mut Rng) { let p = self.root.join("src"); wipe(&p); write(&p, t, r); touch_all(&p, &mut self.tick); }
}
/// Two versions and the report of their differences, in one of the ways a report can be had.
fn a_report(x: &mut Cmp, r: &mut Rng) -> (T, T, u8, String) {
    let old = text_tree(r);
    let new = match r.below(6) { 0 => old.clone(), 1 => text_tree(r), _ => mutate(&old, r, 0) };
    let _ = &x;
    let how = r.below(4) as u8;
    let (old, new) = (if how == 3 { D(BTreeMap::new()) } else { D(old) }, D(new));
    let txt = format!("{} -> {} ({})", clip(&show(&old), 400), clip(&show(&new), 400), ["directory and snapshot", "two snapshots", "directory and snapshot of a directory, twice", "nothing before"][how as usize]);
    (old, new, how, txt)
}
impl Cmp {
    fn run(&mut self, old: &T, new: &T, how: u8, r: &mut Rng) -> Result<diff::DiffResult, String> {
        match how {
            0 => { let k = store_like_snapcd(self, old, r)?; self.lay(new, r); self.real(Some(k)) }
            1 => { let a = store_like_snapcd(self, old, r)?; let b = store_like_snapcd(self, new, r)?; self.stored(b, Some(a)) }
            2 => { let k = store_like_snapcd(self, old, r)?; self.real(Some(k))?; self.lay(new, r); self.real(Some(k))?; self.real(Some(k)) }
            _ => if r.chance(1, 2) { self.lay(new, r); self.real(None) } else { let b = store_like_snapcd(self, new, r)?; self.stored(b, None) },
        }
    }
}
fn store_like_snapcd(x: &mut Cmp, t: &T, r: &mut Rng) -> Result<Key, String> { x.lay(t, r); let p = x.root.join("src"); dir::put_fs_item(&mut x.ds, &p, &any).map_err(s) }

pub fn c12(c: &mut Ctx) {
    let mut x = Cmp::new("c12");
    std::env::set_current_dir(&x.root).unwrap();
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let (old, new, how, txt) = a_report(&mut x, &mut r);
        c.case("differences", &format!("seed {:#x}: {}", seed, txt), old != new, || {
            let d = x.run(&old, &new, how, &mut r)?;
            let want = expected(&new, &old);
            same_lists(&report(&format!("{:?}", d))?, &want)?;
            ensure(diff::diff_result_empty(&d) == want.iter().all(|l| l.is_empty()), || "the report says wrongly whether there are differences".into())
        });
        if r.chance(1, 4) {
            // A change that keeps size and time to the second, right after a comparison.
            c.case("same second", &format!("seed {:#x}: {}", seed, clip(&show(&new), 500)), true, || {
                let k = store_like_snapcd(&mut x, &new, &mut r)?;
                same_lists(&report(&format!("{:?}", x.real(Some(k))?))?, &Default::default())?;
                let mut t2 = flatten(&new);
                let mut want: Lists = Default::default();
                for (p, v) in t2.iter_mut() { if let F(b) = v { if !b.is_empty() && r.chance(1, 2) { let i = r.below(b.len()); b[i] ^= 1;
                    let f = x.root.join("src").join(p); let mt = std::fs::metadata(&f).unwrap().modified().unwrap();
                    { use std::io::Write; let mut h = std::fs::OpenOptions::new().write(true).open(&f).unwrap(); h.write_all(b).unwrap(); h.set_modified(mt + std::time::Duration::from_millis(5)).unwrap(); }
                    want[2].insert((p.to_str().unwrap().into(), false)); } } }
                same_lists(&report(&format!("{:?}", x.real(Some(k))?))?, &want)
            });
        }
        if r.chance(1, 8) {
            // Another repository that uses the same cache.
            c.case("shared cache", &format!("seed {:#x}: {}", seed, txt), true, || {
                x.lay(&new, &mut r);
                x.real(None)?;
                let keep = std::mem::replace(&mut x.ds, SqliteDS::new(":memory:").unwrap());
                let k = store_by_hand(&mut x.ds, &old, &mut r);
                let res = (|| { let d = x.real(Some(k))?; let d2 = x.real(Some(k))?; same_lists(&report(&format!("{:?}", d))?, &expected(&new, &old))?; let _ = diff::line_stat(&x.ds, d2); Ok(()) })();
                x.ds = keep;
                res
            });
        }
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&x.root);
}

pub fn c13(c: &mut Ctx) {
    let mut x = Cmp::new("c13");
    std::env::set_current_dir(&x.root).unwrap();
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let (old, new, how, txt) = a_report(&mut x, &mut r);
        let full = match x.run(&old, &new, how, &mut r) { Ok(f) => f, Err(_) => continue };
        let a = match report(&format!("{:?}", full)) { Ok(a) => a, Err(_) => continue };
        let nontrivial = a[0].iter().chain(a[1].iter()).any(|e| e.path.contains('/'));
        c.case("shortened", &format!("seed {:#x}: {}", seed, txt), nontrivial, || {
            let b = report(&format!("{:?}", diff::simplify(full)))?;
            ensure(b[2] == a[2], || "the modified entries changed".into())?;
            for (i, nm) in ["deleted", "added"].iter().enumerate() {
                let below = |e: &Ent| b[i].iter().any(|k| k.path != e.path && Path::new(&e.path).starts_with(&k.path));
                for e in &b[i] {
                    ensure(a[i].contains(e), || format!("{:?} is listed as {} and was not", e.path, nm))?;
                    ensure(b[i].iter().filter(|k| *k == e).count() == 1, || format!("{:?} is listed twice as {}", e.path, nm))?;
                    ensure(a[0].len() + a[1].len() > 200 || !below(e), || format!("{:?} is listed although a folder above it is", e.path))?;
                }
                for e in &a[i] { ensure(b[i].contains(e) || below(e), || format!("{:?} is left out as {} although no folder above it is listed", e.path, nm))?; }
            }
            Ok(())
        });
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&x.root);
}

pub fn c19(c: &mut Ctx) {
    let mut x = Cmp::new("c19");
    std::env::set_current_dir(&x.root).unwrap();
    let nl = |b: &Vec<u8>| b.iter().filter(|c| **c == 10).count() as i64;
    let parts = |b: &Vec<u8>| if b.is_empty() { 0 } else { b.iter().filter(|c| **c == 10).count() as i64 + 1 };
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let (old, new, how, txt) = a_report(&mut x, &mut r);
        let d = match x.run(&old, &new, how, &mut r) { Ok(f) => f, Err(_) => continue };
        c.case("counts", &format!("seed {:#x}: {}", seed, txt), old != new, || {
            let lst = format!("{:?}", diff::line_stat(&x.ds, d));
            let (a, b) = (flatten(&new), flatten(&old));
            let want = expected(&new, &old);
            let mut n = 0;
            let mut seen = std::collections::BTreeSet::new();
            for part in lst.split("FileStatResult { fname: \"").skip(1) {
                n += 1;
                let path = part.split('"').next().unwrap();
                let num = |k: &str| -> i64 { part.split(k).nth(1).unwrap().chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().unwrap() };
                let (ad, rm) = (num("added: "), num("removed: "));
                let p = Path::new(path);
                let f = |m: &BTreeMap<PathBuf, T>| -> Option<Vec<u8>> { match m.get(p) { Some(F(b)) => Some(b.clone()), _ => None } };
                let e = (path.to_string(), false);
                match (f(&a), f(&b)) {
                    (Some(y), None) => ensure(want[1].contains(&e) && ad == nl(&y) && rm == 0, || format!("{}: +{} -{} for an added file with {} newlines", path, ad, rm, nl(&y)))?,
                    (None, Some(y)) => ensure(want[0].contains(&e) && rm == nl(&y) && ad == 0, || format!("{}: +{} -{} for a deleted file with {} newlines", path, ad, rm, nl(&y)))?,
                    (Some(y), Some(z)) => ensure(want[2].contains(&e) && ad - rm == parts(&y) - parts(&z) && ad <= parts(&y) && rm <= parts(&z), || format!("{}: +{} -{} for {} lines that were {}", path, ad, rm, parts(&y), parts(&z)))?,
                    _ => return Err(format!("{} is counted", path)),
                }
                ensure(seen.insert(path.to_string()), || format!("{} is counted twice", path))?;
            }
            let w = want.iter().map(|l| l.iter().filter(|x| !x.1).count()).sum::<usize>();
            ensure(n == w, || format!("{} files are counted of {}", n, w))
        });
    }
    std::env::set_current_dir("/").unwrap();
    wipe(&x.root);
}
