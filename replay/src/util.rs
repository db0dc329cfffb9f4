use std::collections::{BTreeMap, HashSet};
use std::time::{Duration, Instant};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n { v.extend_from_slice(&self.next().to_le_bytes()); }
        v.truncate(n);
        v
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

pub struct Failure { pub class: String, pub case: String, pub detail: String }

pub struct Ctx {
    pub prop: String,
    pub rng: Rng,
    deadline: Instant,
    only: Option<String>,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub counts: BTreeMap<String, u64>,
}

pub fn h64(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    h
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(prop: &str, seed: u64, secs: f64, only: Option<String>) -> Ctx {
        Ctx { prop: prop.into(), rng: Rng(seed ^ h64(prop.as_bytes())), deadline: Instant::now() + Duration::from_secs_f64(secs), only,
              evals: 0, distinct: HashSet::new(), samples: vec![], failures: vec![], counts: BTreeMap::new() }
    }
    /// Out of time, or enough failures seen.
    pub fn done(&self) -> bool { Instant::now() >= self.deadline || self.failures.len() >= 8 }
    pub fn left(&self) -> f64 { self.deadline.saturating_duration_since(Instant::now()).as_secs_f64() }
    pub fn only_some(&self) -> bool { self.only.is_some() }
    /// Run one case; `f` returns Err(what went wrong) or panics.  `class` names the kind of case.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, class: &str, case: &str, nontrivial: bool, f: F) -> bool {
        self.case_c(class, case, nontrivial, || f().map_err(|e| (class.to_string(), e)))
    }
    /// As `case`, where the failure carries its own class.
    pub fn case_c<F: FnOnce() -> Result<(), (String, String)>>(&mut self, class: &str, case: &str, nontrivial: bool, f: F) -> bool {
        if let Some(o) = &self.only { if o != case { return true; } }
        self.evals += 1;
        *self.counts.entry(class.to_string()).or_default() += 1;
        if nontrivial { self.distinct.insert(h64(format!("{}|{}", class, case).as_bytes())); }
        if self.samples.len() < 6 && self.counts[class] == 1 { self.samples.push(format!("{}: {}", class, clip(case, 300))); }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let (cl, detail) = match r {
            Ok(Ok(())) => return true,
            Ok(Err((cl, e))) => (cl, e),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("(no message)".into());
                (format!("{}:panic", class), format!("the program stopped: {}", m))
            }
        };
        if self.failures.iter().filter(|x| x.class == cl).count() < 3 {
            self.failures.push(Failure { class: cl, case: case.into(), detail });
        }
        false
    }
    pub fn report(&self) -> String {
        let mut s = String::from("{\"failures\":[");
        for (i, f) in self.failures.iter().enumerate() {
            if i > 0 { s.push(','); }
            s.push_str(&format!("{{\"class\":{},\"case\":{},\"detail\":{}}}", esc(&f.class), esc(&clip(&f.case, 20000)), esc(&clip(&f.detail, 4000))));
        }
        s.push_str("]}");
        s
    }
    pub fn summary(&self) -> String {
        let c: Vec<String> = self.counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let sm: Vec<String> = self.samples.iter().map(|x| esc(x)).collect();
        format!("{{\"evaluations\":{},\"distinct\":{},\"failures\":{},\"counts\":{{{}}},\"samples\":[{}]}}",
                self.evals, self.distinct.len(), self.failures.len(), c.join(","), sm.join(","))
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n { return s.into(); }
    let mut k = n;
    while !s.is_char_boundary(k) { k -= 1; }
    format!("{}... ({} bytes)", &s[..k], s.len())
}
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn ensure(b: bool, msg: impl FnOnce() -> String) -> Result<(), String> { if b { Ok(()) } else { Err(msg()) } }

/// Independent reference: base32 text of a byte string (RFC 4648 alphabet, lower case, no padding).
pub fn ref_base32(b: &[u8]) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
    let n = b.len() * 8;
    let bit = |i: usize| -> u8 { if i < n { b[i / 8] >> (7 - i % 8) & 1 } else { 0 } };
    (0..(n + 4) / 5).map(|j| {
        let v = (0..5).fold(0u8, |v, k| v << 1 | bit(5 * j + k));
        A[v as usize] as char
    }).collect()
}
pub fn db_key(h: &[u8; 32]) -> Vec<u8> { let mut v = vec![1u8]; v.extend_from_slice(h); v }
