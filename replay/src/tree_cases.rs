//! C07 (commits), C10, C11, C16, C17 (directory snapshots).
use crate::db_cases::{key_of, scratch};
use crate::util::*;
use snapcd::commit::{commit_tree, Commit, CommitAttrs};
use snapcd::ds::sqlite::SqliteDS;
use snapcd::key::Key;
use snapcd::object::ObjType;
use snapcd::{DataStore, Object};
use std::convert::TryInto;

pub fn s<E: std::fmt::Display>(e: E) -> String { format!("{}", e) }

pub fn some_text(r: &mut Rng) -> String {
    match r.below(7) {
        0 => String::new(),
        1 => "message".into(),
        2 => "two\nlines\r\n\n".into(),
        3 => "\u{0}\u{1}\u{7f}".into(),
        4 => "ünïcode 😀 e\u{301}".into(),
        5 => { let n = r.below(70000); "x".repeat(n) }
        _ => { let n = r.below(60); String::from_utf8_lossy(&r.bytes(n)).to_string() }
    }
}

pub fn c07(c: &mut Ctx) {
    let mut ds = SqliteDS::new(":memory:").unwrap();
    let mut n = 0;
    while !c.done() {
        n += 1;
        let seed = c.rng.next();
        let mut r = Rng(seed);
        let tree = key_of(&mut r);
        let pool: Vec<Key> = (0..4).map(|_| { let mut k = key_of(&mut r); if r.chance(1, 3) { k = tree; } k }).collect();
        let np = *r.pick(&[0usize, 1, 1, 2, 2, 3, 5, 40]);
        let parents: Vec<Key> = (0..np).map(|_| if r.chance(1, 3) { *r.pick(&pool) } else { key_of(&mut r) }).collect();
        let msg = some_text(&mut r);
        c.case("commit", &format!("seed {:#x}: {} parents, message {:?}", seed, np, clip(&msg, 200)), true, || {
            let mut a = CommitAttrs::default();
            if n % 5 != 0 { a.set_message(msg.clone()); }
            let want_msg = if n % 5 != 0 { msg.clone() } else { String::new() };
            let k = commit_tree(&mut ds, tree.into(), parents.iter().map(|&p| p.into()).collect(), a).map_err(s)?;
            let mut want = parents.clone();
            want.sort();
            for round in 0..2 {
                let b = if round == 0 { Commit::from_key(&ds, k) } else { ds.get_obj(k.inner()).map_err(s)?.try_into().map_err(|e: serde_cbor::Error| s(e))? };
                ensure(b.tree().inner() == tree, || format!("tree {} instead of {}", b.tree(), tree))?;
                ensure(b.attrs().message() == want_msg, || format!("message {:?} instead of {:?}", b.attrs().message(), want_msg))?;
                let got: Vec<Key> = b.parents().iter().map(|p| p.inner()).collect();
                ensure(got == want, || format!("parents {:?} instead of {:?}", got.iter().map(s).collect::<Vec<_>>(), want.iter().map(s).collect::<Vec<_>>()))?;
            }
            // Bytes of the object, read without snapcd's conversions.
            let o = ds.get_obj(k.inner()).map_err(s)?;
            ensure(matches!(o.objtype(), ObjType::Commit), || format!("stored as {:?}", o.objtype()))?;
            ensure(o.keys().len() == np + 1 && o.keys()[0] == tree && o.keys()[1..] == want[..], || "the stored object's keys are not the tree and the sorted parents".to_string())?;
            Ok(())
        });
        // Objects of any shape.
        let mut good = std::collections::BTreeMap::new();
        good.insert("message".to_string(), serde_cbor::Value::Text(msg.clone()));
        let ex: std::collections::BTreeMap<serde_cbor::Value, serde_cbor::Value> = if r.chance(1, 2) { Default::default() } else { vec![(serde_cbor::Value::Text("k".into()), serde_cbor::Value::Bool(true))].into_iter().collect() };
        good.insert("extra".to_string(), serde_cbor::Value::Map(ex));
        let well = r.chance(1, 2);
        let data = if well { serde_cbor::to_vec(&good).unwrap() } else {
            match r.below(5) {
                0 => { let k = r.below(40); r.bytes(k) }
                1 => vec![],
                2 => serde_cbor::to_vec(&serde_cbor::Value::Text(msg.clone())).unwrap(),
                3 => { good.remove("message"); serde_cbor::to_vec(&good).unwrap() }
                _ => { let mut d = serde_cbor::to_vec(&good).unwrap(); let k = r.below(d.len()); d.truncate(k); d }
            }
        };
        let ty = *r.pick(&[ObjType::Commit, ObjType::Commit, ObjType::Commit, ObjType::FileBlob, ObjType::FileBlobTree, ObjType::FSItemDir, ObjType::FSItemFile, ObjType::Unknown]);
        let keys: Vec<Key> = (0..r.below(4)).map(|_| key_of(&mut r)).collect();
        let o = Object::new_owned(data.clone(), keys.clone(), ty);
        c.case("shape", &format!("seed {:#x}: object of type {:?}, {} keys, data {}", seed, ty, keys.len(), clip(&hex(&data), 120)), true, || {
            let res: Result<Commit, serde_cbor::Error> = o.try_into();
            match res {
                Ok(b) => {
                    ensure(matches!(ty, ObjType::Commit), || format!("an object of type {:?} was read as a commit", ty))?;
                    ensure(!keys.is_empty(), || "a commit without a tree was read".into())?;
                    ensure(b.tree().inner() == keys[0] && b.parents().iter().map(|p| p.inner()).eq(keys[1..].iter().copied()), || "the commit read has other keys than the object".into())?;
                    if well { ensure(b.attrs().message() == msg, || "the message read is not the object's".into())?; }
                    else { let v: serde_cbor::Value = serde_cbor::from_slice(&data).map_err(|_| "undecodable data was read as a commit".to_string())?; ensure(matches!(v, serde_cbor::Value::Map(_) | serde_cbor::Value::Array(_)), || "the data is not a commit's".into())?; }
                    Ok(())
                }
                Err(_) => ensure(!(well && matches!(ty, ObjType::Commit) && !keys.is_empty()), || "a well-formed commit was refused".into()),
            }
        });
    }
}
