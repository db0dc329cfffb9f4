//! C03 storage keys, C04 printed keys, C05 abbreviations, C06 resolution.
use crate::util::*;
use snapcd::ds::sqlite::SqliteDS;
use snapcd::ds::CanonicalizeError;
use snapcd::key::Key;
use snapcd::{DataStore, Keyish};
use std::str::FromStr;

fn key_of(r: &mut Rng) -> [u8; 32] {
    let mut h = [0u8; 32];
    match r.below(6) {
        0 => {}
        1 => h = [0xff; 32],
        2 => { h[r.below(32)] = 1 << r.below(8); }
        3 => { h = [0xff; 32]; h[r.below(32)] ^= 1 << r.below(8); }
        _ => h.copy_from_slice(&r.bytes(32)),
    }
    h
}

pub fn c03(c: &mut Ctx) {
    let mut n = 0u64;
    while !c.done() && n < 400_000 {
        n += 1;
        let mut r = Rng(c.rng.next());
        let h = key_of(&mut r);
        c.case("encode", &hex(&h), true, || {
            let k = Key::Blake3B(h);
            let d = k.as_db_key();
            ensure(d == db_key(&h), || format!("storage form {}", hex(&d)))?;
            match Key::from_db_key(&d) { Ok(k2) if k2 == k => Ok(()), x => Err(format!("decodes to {:?}", x.map(|k| hex(&k.as_db_key())).map_err(|e| e.to_string()))) }
        });
        // Arbitrary byte strings: accepted exactly when they are 33 bytes with id 1.
        let len = match r.below(6) { 0 => 33, 1 => 32, 2 => 34, 3 => r.below(4), 4 => 33, _ => r.below(70) };
        let mut b = r.bytes(len);
        if len > 0 { if r.chance(2, 3) { b[0] = 1 } else { b[0] = r.next() as u8 } }
        c.case("decode", &hex(&b), true, || {
            let ok = b.len() == 33 && b[0] == 1;
            match Key::from_db_key(&b) {
                Ok(k) => ensure(ok && k.as_db_key() == b, || format!("{} bytes accepted as key {}", b.len(), hex(&k.as_db_key()))),
                Err(e) => ensure(!ok, || format!("a valid storage key was rejected: {}", e)),
            }
        });
    }
    for first in 0..=255u8 {
        for len in 0..40usize {
            let mut b = vec![0xabu8; len];
            if len > 0 { b[0] = first; }
            c.case("decode", &hex(&b), true, || {
                let ok = b.len() == 33 && b[0] == 1;
                ensure(Key::from_db_key(&b).is_ok() == ok, || format!("{} bytes, first {}: accepted = {}", len, first, !ok))
            });
            if c.done() { return; }
        }
    }
}

fn parse(s: &str) -> Result<Keyish, String> { Keyish::from_str(s).map_err(|e| e.to_string()) }

pub fn c04(c: &mut Ctx) {
    let mut n = 0;
    while !c.done() && n < 40_000 {
        n += 1;
        let mut r = Rng(c.rng.next());
        let h = key_of(&mut r);
        let up = r.below(3);
        c.case("print and parse", &format!("{} case {}", hex(&h), up), true, || {
            let t = Key::Blake3B(h).as_user_key();
            ensure(t == format!("b{}", ref_base32(&h)), || format!("printed as {}", t))?;
            ensure(format!("{}", Key::Blake3B(h)) == t, || "Display differs".into())?;
            let mut s: Vec<u8> = t.into_bytes();
            for i in 1..s.len() { if up == 1 || (up == 2 && i % 3 == 0) { s[i] = s[i].to_ascii_uppercase(); } }
            let s = String::from_utf8(s).unwrap();
            match parse(&s)? {
                Keyish::Key(o, b) => ensure(b == db_key(&h) && o == s, || format!("{} parses to key {}", s, hex(&b))),
                k => Err(format!("{} parses to {:?}", s, k)),
            }
        });
        // Byte strings of any length through the base32 functions.
        let m = r.below(45);
        let b = r.bytes(m);
        c.case("base32", &hex(&b), m > 0, || {
            let t = snapcd::base32::to_base32(&b);
            ensure(t == ref_base32(&b), || format!("encoded as {}", t))?;
            let d = snapcd::base32::from_base32(&t, b.len() * 8).map_err(|e| format!("own output rejected: {}", e))?;
            ensure(d.into_vec() == b, || format!("{} does not decode to the input", t))
        });
        // Strings that are not base32 are rejected, everything else is accepted.
        let l = r.below(12);
        let s: String = (0..l).map(|_| *r.pick(&['a', 'Z', 'z', 'A', '2', '7', '0', '1', '8', '9', '=', ' ', 'é', '@', '[', '`', '{', 'b', 'q', 'Q', '\u{0}', '/'])).collect();
        c.case("reject", &s, l > 0, || {
            let ok = s.bytes().all(|x| x.is_ascii_alphabetic() || (b'2'..=b'7').contains(&x));
            ensure(snapcd::base32::from_base32(&s, 5 * s.len()).is_ok() == ok, || format!("base32 accepts: {}", !ok))?;
            if s.contains('/') { return Ok(()); }
            let f = format!("b{}", s);
            ensure(parse(&f).is_ok() == ok, || format!("key parser accepts {:?}: {}", f, !ok))
        });
    }
}

/// Does the bit string of `h` start with the bits `p` stands for?
fn extends(h: &[u8; 32], p: &str) -> bool {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
    let mut i = 0usize;
    for ch in p.bytes() {
        let v = A.iter().position(|x| *x == ch.to_ascii_lowercase()).unwrap();
        for k in 0..5 {
            if i >= 256 { return true; }
            let bit = (v >> (4 - k)) & 1;
            if (h[i / 8] >> (7 - i % 8) & 1) as usize != bit { return false; }
            i += 1;
        }
    }
    true
}

fn in_range(k: &[u8], a: &[u8], b: &Option<Vec<u8>>) -> bool { k >= a && b.as_ref().map_or(true, |e| k < &e[..]) }

pub fn c05(c: &mut Ctx) {
    c05_prefixes(c);
    c05_other(c);
}
fn c05_prefixes(c: &mut Ctx) {
    // Every prefix length, with neighbours on both sides of both ends.
    let mut n = 0;
    while !c.done() && n < 30_000 {
        n += 1;
        let mut r = Rng(c.rng.next());
        let h = key_of(&mut r);
        let full = ref_base32(&h);
        let l = r.below(52);
        let mut p = full[..l].to_string();
        if r.chance(1, 4) { p = p.to_uppercase(); }
        if r.chance(1, 6) { p = (0..l).map(|_| '7').collect(); }
        if r.chance(1, 10) { p = (0..l).map(|i| if i + 1 == l { *r.pick(&['7', '3', 'h', 'p', 'a']) } else { '7' }).collect(); }
        c.case("prefix", &p, true, || {
            match parse(&format!("b{}", p))? {
                Keyish::Range(_, a, b) => {
                    let mut probes: Vec<[u8; 32]> = vec![[0; 32], [0xff; 32], h];
                    // first and last key with the prefix, and the keys next to them
                    let bits = 5 * p.len();
                    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
                    let mut lo = [0u8; 32];
                    for (j, ch) in p.bytes().enumerate() {
                        let v = A.iter().position(|x| *x == ch.to_ascii_lowercase()).unwrap();
                        for k in 0..5 { let i = 5 * j + k; if i < 256 && (v >> (4 - k)) & 1 == 1 { lo[i / 8] |= 1 << (7 - i % 8); } }
                    }
                    let mut hi = lo;
                    for i in bits..256 { hi[i / 8] |= 1 << (7 - i % 8); }
                    let dec = |mut x: [u8; 32]| { for i in (0..32).rev() { let (y, bo) = x[i].overflowing_sub(1); x[i] = y; if !bo { break; } } x };
                    let inc = |mut x: [u8; 32]| { for i in (0..32).rev() { let (y, bo) = x[i].overflowing_add(1); x[i] = y; if !bo { break; } } x };
                    probes.extend([lo, hi, dec(lo), inc(hi), inc(lo), dec(hi)]);
                    for _ in 0..6 { probes.push(key_of(&mut r)); }
                    for q in probes {
                        let want = extends(&q, &p);
                        ensure(in_range(&db_key(&q), &a, &b) == want, || format!("key {} in range [{}, {:?}) should be {}", hex(&q), hex(&a), b.as_ref().map(|x| hex(x)), want))?;
                    }
                    Ok(())
                }
                k => Err(format!("parses to {:?}", k)),
            }
        });
    }
}

const ALPHA: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
/// Text that is no key and no prefix of one is rejected; every full key denotes itself.
fn c05_other(c: &mut Ctx) {
    let mut n = 0;
    while !c.done() && n < 40_000 {
        n += 1;
        let mut r = Rng(c.rng.next());
        let h = key_of(&mut r);
        let full = format!("b{}", ref_base32(&h));
        let mut t: Vec<char> = full.chars().collect();
        let kind = r.below(9);
        match kind {
            0 => { for _ in 0..1 + r.below(4) { t.push(*r.pick(ALPHA) as char); } }
            1 => { let x = t.len() - 1; t[x] = *r.pick(ALPHA) as char; }
            2 => { let x = r.below(t.len()); t[x] = *r.pick(&['0', '1', '8', '9', '=', ' ', '-', 'é', 'ſ', '\u{212a}', '@', '[', '`', '{', '\u{0}']); }
            3 => { t[0] = *r.pick(&['B', 'a', 'c', '2', 'é', ' ']); }
            4 => { let l = r.below(53); t.truncate(l); t.push(*r.pick(&['0', '=', '1', ' ', 'é'])); }
            5 => { t.clear(); for _ in 0..r.below(4) { t.push(*r.pick(&['b', 'é', '0', ' ', 'B', 'a'])); } }
            6 => { t = (0..1 + 5 * 52 * r.below(2)).map(|_| 'b').collect(); }
            7 => { for x in t.iter_mut().skip(1) { if r.chance(1, 2) { *x = x.to_ascii_uppercase(); } } }
            _ => { let l = r.below(130); while t.len() < l { t.push('a'); } }
        }
        let s: String = t.iter().collect();
        c.case("any text", &s, true, || {
            // The reference: tag, alphabet, and the bits of at most one whole key.
            let b = s.as_bytes();
            let alpha = b.len() > 0 && b[0] == b'b' && b[1..].iter().all(|x| x.is_ascii_alphabetic() || (b'2'..=b'7').contains(x));
            let n = b.len().saturating_sub(1);
            let key = if alpha && n == 52 && (ALPHA.iter().position(|x| *x == b[52].to_ascii_lowercase()).unwrap() & 15) == 0 {
                let mut k = [0u8; 32];
                for i in 0..256 { let v = ALPHA.iter().position(|x| *x == b[1 + i / 5].to_ascii_lowercase()).unwrap(); if v >> (4 - i % 5) & 1 == 1 { k[i / 8] |= 1 << (7 - i % 8); } }
                Some(k)
            } else { None };
            match (parse(&s), alpha && n < 52, key) {
                (Ok(Keyish::Range(..)), true, None) => Ok(()),
                (Ok(Keyish::Key(o, v)), false, Some(k)) if v == db_key(&k) && o == s => Ok(()),
                (Err(_), false, None) => Ok(()),
                (g, a, k) => Err(format!("{:?} parsed as {:?}; it is {}", s, g, if a { "a prefix" } else if k.is_some() { "a key" } else { "neither a key nor a prefix of one" })),
            }
        });
    }
}

pub fn c22(c: &mut Ctx) {
    let parts = ["", "a", "origin", "é", "/", "//", "b", "x/y", "日本", " ", "HEAD", "\u{0}", "ba", "😀/"];
    let mut n = 0;
    while !c.done() && n < 60_000 {
        n += 1;
        let mut r = Rng(c.rng.next());
        let mut s = String::new();
        for _ in 0..r.below(5) { s.push_str(*r.pick(&parts[..])); }
        if !s.contains('/') { s.push('/'); }
        for _ in 0..r.below(4) { s.push_str(*r.pick(&parts[..])); }
        c.case("ref text", &s, true, || {
            let i = s.bytes().position(|x| x == b'/').unwrap();
            let remote = if i == 0 { None } else { Some(s[..i].to_string()) };
            let name = s[i + 1..].to_string();
            match parse(&s)? {
                Keyish::Reflog { orig, remote: rm, keyname } if orig == s && rm == remote && keyname == name => Ok(()),
                k => Err(format!("{:?} parses to {:?}, expected name {:?} on {:?}", s, k, name, remote)),
            }
        });
    }
}

fn show(r: &Result<Key, CanonicalizeError>) -> String {
    match r { Ok(k) => format!("key {}", hex(&k.as_db_key())), Err(e) => format!("error {}", e) }
}

pub fn c06(c: &mut Ctx) {
    while !c.done() {
        let s = c.rng.next();
        c.case("store and requests", &format!("seed {}", s), true, || {
            let mut r = Rng(s);
            let ds = SqliteDS::new(":memory:").map_err(|e| e.to_string())?;
            let mut keys: Vec<[u8; 32]> = vec![];
            let n = r.below(12);
            for _ in 0..n {
                let mut h = key_of(&mut r);
                if !keys.is_empty() && r.chance(2, 3) {
                    // share a prefix of some length with an earlier key
                    let o = *r.pick(&keys);
                    let cut = r.below(256);
                    for i in 0..cut { let m = 1u8 << (7 - i % 8); h[i / 8] = (h[i / 8] & !m) | (o[i / 8] & m); }
                    if r.chance(1, 4) { h = o; h[31] ^= 1; }
                }
                if !keys.contains(&h) { keys.push(h); }
                ds.raw_put(&db_key(&h), &h).map_err(|e| e.to_string())?;
            }
            // refs
            let names = ["master", "x", "a/b", ""];
            let mut refs: Vec<(String, Option<String>, [u8; 32])> = vec![];
            for _ in 0..r.below(6) {
                let h = if keys.is_empty() || r.chance(1, 5) { key_of(&mut r) } else { *r.pick(&keys) };
                let nm = r.pick(&names).to_string();
                let rm = if r.chance(1, 2) { None } else { Some(r.pick(&["origin", "", "x"]).to_string()) };
                ds.reflog_push(&snapcd::Reflog { refname: nm.clone(), remote: rm.clone(), key: Key::Blake3B(h).into() }).map_err(|e| e.to_string())?;
                refs.push((nm, rm, h));
            }
            for _ in 0..12 {
                if r.chance(1, 4) {
                    let nm = r.pick(&names).to_string();
                    let rm = if r.chance(1, 2) { None } else { Some(r.pick(&["origin", "", "x"]).to_string()) };
                    let want = refs.iter().rev().find(|x| x.0 == nm && x.1 == rm).map(|x| x.2);
                    let got = ds.canonicalize(Keyish::Reflog { orig: "o".into(), remote: rm.clone(), keyname: nm.clone() });
                    match (&got, want) {
                        (Ok(k), Some(h)) if *k == Key::Blake3B(h) => {}
                        (Err(CanonicalizeError::NotFound(_)), None) => {}
                        _ => return Err(format!("ref {:?} {:?}: got {}, expected {:?}", nm, rm, show(&got), want.map(|h| hex(&h)))),
                    }
                    continue;
                }
                let base = if keys.is_empty() || r.chance(1, 4) { key_of(&mut r) } else { *r.pick(&keys) };
                let full = ref_base32(&base);
                let l = if r.chance(1, 3) { 52 } else { r.below(53) };
                let text = format!("b{}", &full[..l]);
                let want: Vec<[u8; 32]> = keys.iter().filter(|k| extends(k, &full[..l])).cloned().collect();
                let got = ds.canonicalize(parse(&text)?);
                let ok = match &got {
                    Ok(k) => want.len() == 1 && *k == Key::Blake3B(want[0]),
                    Err(CanonicalizeError::NotFound(_)) => want.is_empty(),
                    Err(CanonicalizeError::Ambigious(_, ks)) => {
                        let mut a: Vec<Vec<u8>> = ks.iter().map(|k| k.as_db_key()).collect();
                        let mut b: Vec<Vec<u8>> = want.iter().map(|k| db_key(k)).collect();
                        a.sort(); b.sort();
                        want.len() >= 2 && a == b
                    }
                    Err(_) => false,
                };
                ensure(ok, || format!("{}: got {}, {} stored keys match", text, show(&got), want.len()))?;
            }
            Ok(())
        });
    }
}
