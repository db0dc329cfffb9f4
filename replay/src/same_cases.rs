//! C24: the same content always gets the same key.
use crate::db_cases::scratch;
use crate::fs_cases::*;
use crate::store_cases::{content as bytes_of, crafted, Split, SplitReader};
use crate::tree_cases::s;
use crate::util::*;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::{dir, file};
use std::ffi::OsString;

fn key_in(ds: &mut SqliteDS, d: &[u8], sp: Split) -> Result<Key, String> { file::put_data(ds, SplitReader { d, s: sp, n: 0 }).map_err(s) }

fn streams(d: &[u8], seed: u64) -> Result<(), String> {
    let mut r = Rng(seed);
    let mut one = SqliteDS::new(":memory:").map_err(s)?;
    let want = key_in(&mut one, d, Split::Whole)?;
    let mut two = SqliteDS::new(":memory:").map_err(s)?;
    let n = r.below(3000);
    file::put_data(&mut two, &r.bytes(n)[..]).map_err(s)?;
    let mut ways = vec![("parts of any size", Split::Random(seed)), ("interrupted parts", Split::Interrupt(seed)), ("parts of one size", Split::Fixed(1 + r.below(70_000))), ("small parts", Split::Fixed(1 + r.below(300))), ("one part", Split::Whole)];
    if d.len() < 40_000 { ways.push(("single bytes", Split::One)); }
    for (how, sp) in ways {
        let k = key_in(if r.chance(1, 2) { &mut one } else { &mut two }, d, sp)?;
        ensure(k == want, || format!("{} bytes read in {} get another key than read at once", d.len(), how))?;
    }
    Ok(())
}

/// The same directory with entries more that a filter takes out again.
fn more(t: &T, extra: &[OsString], r: &mut Rng) -> T {
    match t {
        T::F(_) => t.clone(),
        T::D(m) => {
            let mut m: std::collections::BTreeMap<OsString, T> = m.iter().map(|(k, v)| (k.clone(), more(v, extra, r))).collect();
            for e in extra { if r.chance(1, 2) { m.insert(e.clone(), some_tree(r)); } }
            T::D(m)
        }
    }
}

pub fn c24(c: &mut Ctx) {
    let root = scratch("c24");
    for &n in &[0usize, 1, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 131072, 200_000, 300_000] {
        let seed = c.rng.next();
        c.case("stream", &format!("size {} seed {:#x}", n, seed), n > 1, || streams(&bytes_of(0, n, &mut Rng(seed)), seed));
    }
    let mut n = 0;
    while !c.done() {
        n += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        if n % 3 == 0 {
            if r.chance(1, 2) {
                let k = 1 + r.below(6);
                let p: Vec<u32> = (0..k).map(|_| *r.pick(&[13u32, 20, 21, 28, 35, 42, 48])).collect();
                let tail = r.below(70_000);
                let d = crafted(&p, tail, &mut r);
                c.case("cut levels", &format!("leading zeros {:?}, {} bytes more, seed {:#x}", p, tail, seed), true, || streams(&d, seed));
            } else {
                let (len, kind) = (r.below(250_000), r.below(4));
                let d = bytes_of(kind, len, &mut r);
                c.case("stream", &format!("size {} content kind {} seed {:#x}", len, kind, seed), true, || streams(&d, seed));
            }
            continue;
        }
        let t = if n % 13 == 0 { T::D((0..150).map(|i| (OsString::from(format!("f{}", (i * 7919) % 1000)), T::F(vec![i as u8]))).collect()) } else { some_tree(&mut r) };
        c.case("folder", &format!("seed {:#x}: {}", seed, clip(&show(&t), 600)), true, || {
            let mut one = SqliteDS::new(":memory:").map_err(s)?;
            let mut two = SqliteDS::new(":memory:").map_err(s)?;
            let (a, b, d) = (root.join("a"), root.join("elsewhere/b"), root.join("d"));
            for p in &[&a, &b, &d] { wipe(p); }
            std::fs::create_dir_all(root.join("elsewhere")).map_err(s)?;
            write(&a, &t, &mut r);
            let extra: Vec<OsString> = vec!["left out".into(), "0 left out".into()];
            let u = more(&t, &extra, &mut r);
            write(&b, &u, &mut r);
            let k = dir::put_fs_item(&mut one, &a, &any).map_err(s)?;
            let other = some_tree(&mut r);
            write(&d, &other, &mut r);
            dir::put_fs_item(&mut two, &d, &any).map_err(s)?;
            wipe(&d);
            let l = dir::put_fs_item(&mut two, &b, &|e: &std::fs::DirEntry| !extra.contains(&e.file_name())).map_err(s)?;
            ensure(k == l, || "another folder with the same content gets another key".into())?;
            dir::get_fs_item(&two, l.into(), &d).map_err(s)?;
            let m = dir::put_fs_item(&mut two, &d, &any).map_err(s)?;
            ensure(k == m, || "restored and stored again, the content gets another key".into())
        });
    }
    wipe(&root);
}
