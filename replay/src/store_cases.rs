//! C01 (stored bytes read back exactly), C02 (objects never change, keys are hashes).
use crate::util::*;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::file::{put_data, read_data};
use snapcd::DataStore;
use std::io::Read;

/// Sixty-four bytes after which the rolling hash has at least `z` leading zero bits
/// (z up to 48): the byte at age a decides bit a of the hash.
fn magic(z: u32, rng: &mut Rng) -> Vec<u8> {
    let t = &gearhash::DEFAULT_TABLE;
    let mut by_age = vec![0u8; 64];
    let mut sum = 0u64;
    let lo = 64 - z.min(48) as usize;
    for a in 0..64usize {
        let mut b = rng.next() as u8;
        if a >= lo {
            while ((sum.wrapping_add(t[b as usize] << a)) >> a) & 1 != 0 { b = b.wrapping_add(1); }
        } else if a + 1 == lo && z < 48 && rng.chance(1, 2) {
            // make the zero count exact now and then
            while ((sum.wrapping_add(t[b as usize] << a)) >> a) & 1 == 0 { b = b.wrapping_add(1); }
        }
        sum = sum.wrapping_add(t[b as usize] << a);
        by_age[a] = b;
    }
    by_age.reverse();
    by_age
}

pub enum Split { Whole, One, Fixed(usize), Random(u64), Interrupt(u64) }
pub struct SplitReader<'a> { pub d: &'a [u8], pub s: Split, pub n: u64 }
impl<'a> Read for SplitReader<'a> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.n += 1;
        let max = self.d.len().min(b.len());
        let k = match &mut self.s {
            Split::Whole => max,
            Split::One => max.min(1),
            Split::Fixed(k) => max.min(*k),
            Split::Random(s) => { let mut r = Rng(*s ^ self.n); let v = 1 + r.below(b.len().max(1)); max.min(v) }
            Split::Interrupt(s) => {
                let mut r = Rng(*s ^ self.n);
                if r.chance(1, 3) { return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")); }
                max.min(1 + r.below(b.len().max(1)))
            }
        };
        b[..k].copy_from_slice(&self.d[..k]);
        self.d = &self.d[k..];
        Ok(k)
    }
}

pub fn content(kind: usize, n: usize, rng: &mut Rng) -> Vec<u8> {
    match kind {
        0 => rng.bytes(n),
        1 => vec![0; n],
        2 => (0..n).map(|i| (i % 251) as u8).collect(),
        _ => { let p = rng.bytes(1 + rng.0 as usize % 97); (0..n).map(|i| p[i % p.len()]).collect() }
    }
}

/// A stream whose chunks end with the given numbers of leading zeros.
pub fn crafted(levels: &[u32], tail: usize, rng: &mut Rng) -> Vec<u8> {
    let mut v = Vec::new();
    for z in levels {
        let base = v.len();
        v.resize(base + 32768, 7);
        v[base..base + 8].copy_from_slice(&rng.next().to_le_bytes());
        v.extend(magic(*z, rng));
    }
    v.extend(rng.bytes(tail));
    v
}

fn round_trip(data: &[u8], split: Split) -> Result<(), String> {
    let mut ds = SqliteDS::new(":memory:").map_err(|e| format!("open: {}", e))?;
    let key = put_data(&mut ds, SplitReader { d: data, s: split, n: 0 }).map_err(|e| format!("put_data failed: {}", e))?;
    let mut out = Vec::new();
    read_data(&ds, key, &mut out).map_err(|e| format!("read_data failed: {}", e))?;
    if out != data {
        let i = out.iter().zip(data.iter()).position(|(a, b)| a != b).unwrap_or(out.len().min(data.len()));
        return Err(format!("{} bytes stored, {} read back, first difference at {}", data.len(), out.len(), i));
    }
    Ok(())
}

pub fn c01(c: &mut Ctx) {
    // Fixed sizes around every boundary of the chunker.
    let mut sizes = vec![0usize, 1, 2, 63, 64, 65, 4096, 8191, 8192, 32767, 32768, 32769, 65535, 65536, 65537, 98304, 131072, 200_000, 262144, 1 << 20];
    sizes.sort();
    for &n in &sizes {
        for kind in 0..4 {
            let mut r = Rng(c.rng.next());
            let d = content(kind, n, &mut r);
            let s = c.rng.next();
            let sp = match c.rng.below(4) { 0 => Split::Fixed(1 + (s as usize % 5000)), 1 => Split::Random(s), 2 => Split::Interrupt(s), _ => Split::Whole };
            c.case("stream", &format!("size {} content kind {} split seed {}", n, kind, s), n > 0, || round_trip(&d, sp));
            if c.done() { return; }
        }
    }
    // Crafted carry patterns: which tree levels are cut at each chunk.
    let pats: Vec<Vec<u32>> = vec![
        vec![48], vec![13], vec![21], vec![28], vec![35], vec![42], vec![13, 48], vec![48, 13], vec![48, 48], vec![42, 21], vec![35, 28, 21, 13],
        vec![13, 21, 28, 35, 42, 48], vec![13, 13, 13], vec![48, 13, 48], vec![42, 42, 13, 42], vec![21, 21, 21], vec![28, 28], vec![35, 35, 13],
    ];
    for p in &pats {
        for tail in [0usize, 1, 40000] {
            let mut r = Rng(c.rng.next());
            let d = crafted(p, tail, &mut r);
            c.case("cut levels", &format!("leading zeros at the chunk ends {:?}, {} bytes more", p, tail), true, || round_trip(&d, Split::Whole));
            if c.done() { return; }
        }
    }
    // Wide nodes: more keys on one level than a node may hold.
    for n in [511usize, 512, 513, 1030] {
        if c.left() < 3.0 { break; }
        let mut r = Rng(c.rng.next());
        let d = crafted(&vec![13; n], 5, &mut r);
        c.case("wide node", &format!("{} chunks without a level cut", n), true, || round_trip(&d, Split::Whole));
    }
    while !c.done() {
        let s = c.rng.next();
        let mut r = Rng(s);
        if r.chance(1, 2) {
            let k = 1 + r.below(7);
            let p: Vec<u32> = (0..k).map(|_| *r.pick(&[13u32, 20, 21, 22, 27, 28, 29, 34, 35, 36, 41, 42, 48])).collect();
            let tail = r.below(70000);
            let d = crafted(&p, tail, &mut r);
            c.case("cut levels", &format!("leading zeros {:?}, {} bytes more, seed {}", p, tail, s), true, || round_trip(&d, Split::Random(s)));
        } else {
            let n = r.below(300_000);
            let kind = r.below(4);
            let d = content(kind, n, &mut r);
            c.case("stream", &format!("size {} content kind {} seed {}", n, kind, s), true, || round_trip(&d, Split::Interrupt(s)));
        }
    }
}

/// Every object of a store file.
pub fn dump(path: &std::path::Path) -> Result<std::collections::BTreeMap<Vec<u8>, Vec<u8>>, String> {
    let c = rusqlite::Connection::open(path).map_err(|e| e.to_string())?;
    let mut st = c.prepare("SELECT key, value FROM data").map_err(|e| e.to_string())?;
    let mut rows = st.query(rusqlite::NO_PARAMS).map_err(|e| e.to_string())?;
    let mut m = std::collections::BTreeMap::new();
    while let Some(r) = rows.next().map_err(|e| e.to_string())? {
        m.insert(r.get(0).map_err(|e| e.to_string())?, r.get(1).map_err(|e| e.to_string())?);
    }
    Ok(m)
}

pub struct Scratch(pub std::path::PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let base = std::env::var_os("REPLAY_SCRATCH").map(std::path::PathBuf::from).unwrap_or_else(std::env::temp_dir);
        let p = base.join(format!("replay-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

pub fn c02(c: &mut Ctx) {
    while !c.done() {
        let s = c.rng.next();
        c.case("history", &format!("seed {}", s), true, || {
            let mut r = Rng(s);
            let dir = Scratch::new();
            let p = dir.0.join("s.db");
            let mut ds = SqliteDS::new(&p).map_err(|e| e.to_string())?;
            let mut want = std::collections::BTreeMap::new();
            for step in 0..6 + r.below(10) {
                let what;
                match r.below(4) {
                    0 => {
                        let n = r.below(400); let b = r.bytes(n);
                        what = format!("put {} bytes", b.len());
                        let k = ds.put(b.clone()).map_err(|e| format!("put failed: {}", e))?;
                        let h: [u8; 32] = *blake3::hash(&b).as_bytes();
                        ensure(k == snapcd::key::Key::Blake3B(h), || format!("step {}: put returned a key that is not the hash of the bytes", step))?;
                        ensure(k.as_db_key() == db_key(&h), || "wrong storage key".into())?;
                        want.entry(db_key(&h)).or_insert(b);
                    }
                    1 => {
                        // A second value under a key that is taken.
                        let keys: Vec<Vec<u8>> = want.keys().cloned().collect();
                        if keys.is_empty() { continue; }
                        let k = r.pick(&keys).clone();
                        what = format!("raw_put of other bytes under a stored key");
                        let n = r.below(60); let b = r.bytes(n);
                        let _ = ds.raw_put(&k, &b);
                    }
                    2 => {
                        let n = r.below(90000); let b = r.bytes(n);
                        what = format!("put_data of {} bytes", n);
                        let _ = put_data(&mut ds, &b[..]).map_err(|e| format!("put_data failed: {}", e))?;
                        for (k, v) in dump(&p)? {
                            if !want.contains_key(&k) {
                                let h: [u8; 32] = *blake3::hash(&v).as_bytes();
                                ensure(k == db_key(&h), || format!("step {}: object stored under {} which is not the key of its bytes", step, hex(&k)))?;
                                want.insert(k, v);
                            }
                        }
                    }
                    _ => {
                        let ty = *r.pick(&[snapcd::object::ObjType::FileBlob, snapcd::object::ObjType::FSItemDir, snapcd::object::ObjType::Commit]);
                        let nk = r.below(4);
                        let keys: Vec<snapcd::key::Key> = (0..nk).map(|_| { let mut h = [0u8; 32]; h.copy_from_slice(&r.bytes(32)); snapcd::key::Key::Blake3B(h) }).collect();
                        let n = r.below(50); let b = r.bytes(n);
                        what = format!("put_obj");
                        let k = ds.put_obj(&snapcd::Object::new(&b, &keys, ty)).map_err(|e| format!("put_obj failed: {}", e))?;
                        let raw = ds.get(k).map_err(|e| format!("get after put_obj: {}", e))?.to_vec();
                        let h: [u8; 32] = *blake3::hash(&raw).as_bytes();
                        ensure(k == snapcd::key::Key::Blake3B(h), || "put_obj: the key is not the hash of the stored encoding".into())?;
                        let o = ds.get_obj(k).map_err(|e| format!("get_obj: {}", e))?;
                        ensure(o.data() == &b[..] && o.keys() == &keys[..] && format!("{:?}", o.objtype()) == format!("{:?}", ty), || "put_obj: object does not decode to what was stored".into())?;
                        want.entry(db_key(&h)).or_insert(raw);
                    }
                }
                let got = dump(&p)?;
                for (k, v) in &want {
                    ensure(got.get(k) == Some(v), || format!("step {} ({}): object {} changed or vanished", step, what, hex(k)))?;
                    let via = ds.raw_get(k).map_err(|e| format!("raw_get: {}", e))?;
                    ensure(&via[..] == &v[..], || format!("step {} ({}): raw_get of {} gives other bytes", step, what, hex(k)))?;
                }
                ensure(got.len() == want.len(), || format!("step {} ({}): {} objects stored, expected {}", step, what, got.len(), want.len()))?;
            }
            Ok(())
        });
    }
}
