//! C27: the patch that show prints turns the old files into the new ones.
use crate::fs_cases::{T::*, *};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::{diff, dir, ds::sqlite::SqliteDS};
use std::collections::{BTreeMap, BTreeSet};

pub type Files = BTreeMap<String, String>;

fn unquote(n: &str) -> String {
    if !(n.len() >= 2 && n.starts_with('"') && n.ends_with('"')) { return n.to_string(); }
    let mut out = String::new();
    let mut it = n[1..n.len() - 1].chars();
    while let Some(c) = it.next() { if c != '\\' { out.push(c); } else { out.push(match it.next() { Some('n') => '\n', Some('r') => '\r', Some('t') => '\t', Some('0') => '\0', Some(x) => x, None => '\\' }); } }
    out
}
fn range(t: &str) -> Option<(usize, usize)> { let (a, b) = t.split_once(',')?; Some((a.parse().ok()?, b.parse().ok()?)) }
/// The lines, each with the newline that ends it.
fn lines(t: &str) -> Vec<&str> { t.split_inclusive('\n').collect() }

/// What the files become when the patches are applied: the names patched, and their new content.
pub fn apply(text: &str, old: &Files) -> Result<Files, String> {
    let ls: Vec<&str> = text.split('\n').collect();
    let mut out = Files::new();
    let mut i = 0;
    while i < ls.len() && !(i + 1 == ls.len() && ls[i].is_empty()) {
        let p = ls[i].strip_prefix("--- ").ok_or_else(|| format!("a patch should start at the line {:?}", ls[i]))?;
        let q = ls.get(i + 1).and_then(|l| l.strip_prefix("+++ ")).ok_or_else(|| format!("no name follows --- {:?}", p))?;
        ensure(p == q, || format!("a patch is about {:?} and {:?}", p, q))?;
        let name = unquote(p);
        ensure(!out.contains_key(&name), || format!("two patches are shown for {:?}", name))?;
        let bad = |m: String| format!("the patch of {:?}: {}", name, m);
        let before = old.get(&name).map(|t| lines(t)).unwrap_or_default();
        let mut after: Vec<String> = vec![];
        let mut at = 0;
        i += 2;
        while i < ls.len() && ls[i].starts_with("@@ ") {
            let head = ls[i];
            i += 1;
            let (a, b) = head.strip_prefix("@@ -").and_then(|h| h.strip_suffix(" @@")).and_then(|h| h.split_once(" +")).and_then(|(a, b)| Some((range(a)?, range(b)?))).ok_or_else(|| bad(format!("the header {:?}", head)))?;
            let start = |r: (usize, usize)| if r.1 == 0 { Some(r.0) } else { r.0.checked_sub(1) };
            let (sa, sb) = match (start(a), start(b)) { (Some(x), Some(y)) => (x, y), _ => return Err(bad(format!("{:?} starts before the first line", head))) };
            ensure(sa >= at && sa <= before.len(), || bad(format!("{:?} starts at line {}, and the file has {}, {} of them already patched", head, sa + 1, before.len(), at)))?;
            after.extend(before[at..sa].iter().map(|l| l.to_string()));
            at = sa;
            ensure(after.len() == sb, || bad(format!("{:?}: {} lines come before it in the new file", head, after.len())))?;
            let (mut m, mut n) = (a.1, b.1);
            while m > 0 || n > 0 {
                let l = ls.get(i).ok_or_else(|| bad(format!("{:?}: {} old and {} new lines are missing", head, m, n)))?;
                i += 1;
                let kind = l.chars().next();
                let mut t = l.get(1..).unwrap_or("").to_string();
                if ls.get(i).map_or(false, |l| l.starts_with('\\')) { i += 1; } else { t.push('\n'); }
                if matches!(kind, Some(' ') | Some('-')) {
                    ensure(m > 0 && before.get(at) == Some(&&t[..]), || bad(format!("{:?}: the line {:?} is not line {} of the old file", head, l, at + 1)))?;
                    m -= 1;
                    at += 1;
                }
                if matches!(kind, Some(' ') | Some('+')) { ensure(n > 0, || bad(format!("{:?} does not count the line {:?}", head, l)))?; n -= 1; after.push(t); }
                ensure(matches!(kind, Some(' ') | Some('-') | Some('+')), || bad(format!("{:?}: the line {:?} is none of a patch ({} old and {} new lines are missing)", head, l, m, n)))?;
            }
        }
        after.extend(before[at..].iter().map(|l| l.to_string()));
        out.insert(name, after.concat());
    }
    Ok(out)
}

/// Every file that differs has one patch, and it turns the old file into the new one. A file that is not there counts as empty.
pub fn check(text: &str, new: &Files, old: &Files, all: &BTreeSet<String>) -> Result<(), String> {
    let got = apply(text, old)?;
    for p in got.keys() { ensure(all.contains(p), || format!("a patch is shown for {:?}, which does not differ", p))?; }
    for p in all {
        let g = got.get(p).ok_or_else(|| format!("no patch is shown for {:?}, which differs", p))?;
        let w = new.get(p).cloned().unwrap_or_default();
        ensure(*g == w, || format!("the patch of {:?} makes {:?} of {:?}, and the new file is {:?}", p, clip(g, 400), clip(old.get(p).map_or("", |t| t), 400), clip(&w, 400)))?;
    }
    Ok(())
}

pub fn files(t: &T) -> Files { flatten(t).into_iter().filter_map(|(p, v)| match v { F(b) => Some((p.to_string_lossy().into_owned(), String::from_utf8_lossy(&b).into_owned())), _ => None }).collect() }

const LINES: &[&str] = &["", "", "a", "b", "c", "d", "e", "-- a", "++ b", "@@ -1,1 +1,1 @@", "--- x", "+++ x", "\\ No newline at end of file", " ", "\t", "x\r", "é\u{2028}", "\u{0}", "}", "    return;"];
fn some_lines(r: &mut Rng, n: usize) -> Vec<String> { let few = r.chance(1, 3); (0..n).map(|i| if few { r.pick(&["a", "b", "c"]).to_string() } else if r.chance(1, 2) { format!("line {}", i) } else { r.pick(LINES).to_string() }).collect() }
fn text(v: &[String], end: bool) -> String { let mut t = v.join("\n"); if end && !v.is_empty() { t.push('\n'); } t }
fn pair(r: &mut Rng) -> (String, String) {
    let n = if r.chance(1, 6) { 0 } else if r.chance(1, 2) { r.below(6) } else { r.below(60) };
    let a = some_lines(r, n);
    let mut b = if r.chance(1, 8) { let n = r.below(8); some_lines(r, n) } else { a.clone() };
    // Edits near and far from each other, at the ends and in the middle.
    for _ in 0..r.below(5) {
        let k = r.below(4);
        let at = match r.below(4) { 0 => 0, 1 => b.len(), _ => r.below(b.len() + 1) };
        match r.below(3) { 0 => { for l in some_lines(r, k) { b.insert(at, l); } } 1 => { for _ in 0..k { if at < b.len() { b.remove(at); } } } _ => { for i in at..(at + k).min(b.len()) { b[i] = r.pick(LINES).to_string(); } } }
    }
    let e = r.chance(3, 4);
    (text(&a, e), text(&b, if r.chance(4, 5) { e } else { !e }))
}

pub fn c27(c: &mut Ctx) {
    while !c.done() {
        let seed = c.rng.next();
        let mut r = Rng(seed);
        c.case("patches", &format!("seed {:#x}: two folders of texts", seed), true, || {
            let (mut old, mut new) = (BTreeMap::new(), BTreeMap::new());
            for i in 0..1 + r.below(4) {
                let (a, b) = pair(&mut r);
                let n = if r.chance(1, 4) { format!("f {}.txt", i) } else { r.pick(&["a", "b", "c.rs", "d\"q", "é", "z\\"]).to_string() + &i.to_string() };
                let which = r.below(8);
                if which != 0 { old.insert(n.clone().into(), F(a.into_bytes())); }
                if which != 1 { new.insert(n.into(), F(b.into_bytes())); }
            }
            let wrap = |m: BTreeMap<std::ffi::OsString, T>, r: &mut Rng| { let mut m = m; if r.chance(1, 3) { let mut o = BTreeMap::new(); let inner = std::mem::take(&mut m); o.insert("sub".into(), D(inner)); m = o; } D(m) };
            let deep = r.next();
            let (old, new) = (wrap(old, &mut Rng(deep)), wrap(new, &mut Rng(deep)));
            let x = crate::db_cases::scratch("c27");
            let (pa, pb) = (x.join("old"), x.join("new"));
            write(&pa, &old, &mut r);
            write(&pb, &new, &mut r);
            let mut ds = SqliteDS::new(":memory:").map_err(s)?;
            let ka = dir::put_fs_item(&mut ds, &pa, &|_| true).map_err(s)?;
            let kb = dir::put_fs_item(&mut ds, &pb, &|_| true).map_err(s)?;
            wipe(&x);
            let d = diff::compare(&mut ds, diff::DiffTarget::Database(kb.into()), Some(ka.into()), None).map_err(s)?;
            let t = diff::create_diff_patch_result(&ds, d).map_err(s)?;
            let (fa, fb) = (files(&old), files(&new));
            let all = fa.keys().chain(fb.keys()).filter(|p| fa.get(*p) != fb.get(*p)).cloned().collect();
            check(&t, &fb, &fa, &all).map_err(|e| format!("{}; the patch is {:?}", e, clip(&t, 1500)))
        });
    }
}
