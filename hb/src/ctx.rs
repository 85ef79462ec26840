//! Case runner: counts cases, catches panics, watches for non-termination and
//! stops at the first case that breaks the property.
use std::collections::HashSet;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9abc_def1)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.u64() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(n + 8);
        while v.len() < n {
            v.extend_from_slice(&self.u64().to_le_bytes());
        }
        v.truncate(n);
        v
    }
}

static INCASE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
static BEAT: AtomicU64 = AtomicU64::new(0);
static CUR: Mutex<String> = Mutex::new(String::new());
static OUT: Mutex<Option<OutInfo>> = Mutex::new(None);

struct OutInfo {
    prop: String,
    tier: String,
    seed: u64,
    out: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub rng: Rng,
    /// integers and strings that occur literally in the sources
    pub ints: Vec<u64>,
    pub strs: Vec<String>,
    pub evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    pub groups: Vec<(String, u64)>,
    t0: Instant,
    pub limit: Duration,
}

pub fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

pub fn hex(b: &[u8]) -> String {
    fn put(s: &mut String, b: &[u8]) {
        for x in b {
            s.push(b"0123456789abcdef"[(x >> 4) as usize] as char);
            s.push(b"0123456789abcdef"[(x & 15) as usize] as char);
        }
    }
    let mut s = String::with_capacity(b.len().min(320) * 2 + 24);
    if b.len() > 400 {
        write!(s, "[{} bytes] ", b.len()).unwrap();
        put(&mut s, &b[..200]);
        s.push_str("..");
        put(&mut s, &b[b.len() - 100..]);
    } else {
        put(&mut s, b)
    }
    s
}

pub fn short(s: &str) -> String {
    if s.len() > 900 {
        let mut a = 600;
        while !s.is_char_boundary(a) {
            a -= 1
        }
        let mut b = s.len() - 200;
        while !s.is_char_boundary(b) {
            b += 1
        }
        format!("{:?}..[{} bytes]..{:?}", &s[..a], s.len(), &s[b..])
    } else {
        quoted(s)
    }
}
fn quoted(s: &str) -> String {
    if s.bytes().all(|c| (32..127).contains(&c) && c != b'"' && c != b'\\') {
        let mut t = String::with_capacity(s.len() + 2);
        t.push('"');
        t.push_str(s);
        t.push('"');
        t
    } else {
        format!("{s:?}")
    }
}

fn report(case: &str, why: &str) {
    let o = OUT.lock().unwrap();
    if let Some(o) = o.as_ref() {
        let v = serde_json::json!({
            "property": o.prop, "tier": o.tier, "seed": o.seed, "violation": true,
            "case": case, "why": why,
            "reproduce": format!("cargo run --offline --manifest-path hb/Cargo.toml -- {} {} {} /repo out.json", o.prop, o.tier, o.seed),
        });
        std::fs::write(&o.out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }
    println!("FAIL {case}\n  {why}");
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut last = BEAT.load(Ordering::Relaxed);
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != last {
                last = b;
                since = Instant::now();
            } else if since.elapsed() > Duration::from_secs(60) {
                let c = CUR.lock().unwrap().clone();
                report(&c, "the operation does not return within 60 s");
                std::process::exit(1);
            }
        }
    });
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, out: &str, ints: Vec<u64>, strs: Vec<String>) -> Ctx {
        *OUT.lock().unwrap() = Some(OutInfo {
            prop: prop.to_string(),
            tier: tier.to_string(),
            seed,
            out: out.to_string(),
        });
        std::panic::set_hook(Box::new(|i| {
            if !INCASE.load(Ordering::Relaxed) {
                eprintln!("harness: {i}")
            }
        }));
        watchdog();
        let thorough = tier == "thorough";
        Ctx {
            prop: prop.to_string(),
            thorough,
            rng: Rng::new(seed),
            ints,
            strs,
            evals: 0,
            distinct: HashSet::new(),
            samples: vec![],
            groups: vec![],
            t0: Instant::now(),
            limit: Duration::from_secs(if thorough { 420 } else { 25 }),
        }
    }

    /// number of random cases: a deterministic budget
    pub fn n(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 12
        } else {
            quick
        }
    }

    pub fn group(&mut self, name: &str) {
        self.groups.push((name.to_string(), 0));
    }

    /// time is up: random exploration stops (structured enumeration never consults this)
    pub fn over(&self) -> bool {
        self.t0.elapsed() > self.limit
    }

    /// run one case; `desc` is evaluated for every case so that a hang can be reported
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, f: F) {
        self.evals += 1;
        if let Some(g) = self.groups.last_mut() {
            g.1 += 1;
        }
        BEAT.fetch_add(1, Ordering::Relaxed);
        let mut h = std::collections::hash_map::DefaultHasher::new();
        desc.hash(&mut h);
        let new = self.distinct.insert(h.finish());
        if new && self.samples.len() < 12 && (self.evals.is_power_of_two() || self.evals % 5000 == 0) {
            self.samples.push(desc.chars().take(300).collect());
        }
        {
            let mut c = CUR.lock().unwrap();
            c.clear();
            c.push_str(&desc);
        }
        INCASE.store(true, Ordering::Relaxed);
        let r = catch_unwind(AssertUnwindSafe(f));
        INCASE.store(false, Ordering::Relaxed);
        match r {
            Ok(Ok(())) => (),
            Ok(Err(why)) => {
                report(&desc, &why);
                std::process::exit(1);
            }
            Err(e) => {
                let m = if let Some(s) = e.downcast_ref::<&str>() {
                    s.to_string()
                } else if let Some(s) = e.downcast_ref::<String>() {
                    s.clone()
                } else {
                    "?".to_string()
                };
                report(&desc, &format!("panic: {m}"));
                std::process::exit(1);
            }
        }
    }

    pub fn finish(self) {
        let o = OUT.lock().unwrap();
        let o = o.as_ref().unwrap();
        let v = serde_json::json!({
            "property": o.prop, "tier": o.tier, "seed": o.seed, "violation": false,
            "evaluations": self.evals, "distinct": self.distinct.len(),
            "samples": self.samples,
            "groups": self.groups.iter().map(|(a, b)| format!("{a}: {b}")).collect::<Vec<_>>(),
            "wall_s": self.t0.elapsed().as_secs_f64(),
        });
        std::fs::write(&o.out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    }

    /// an integer near something interesting
    pub fn int(&mut self, max: u64) -> u64 {
        let r = &mut self.rng;
        let x = match r.below(6) {
            0 => r.below(70) as u64,
            1 => {
                let k = r.below(64);
                (1u64 << k).wrapping_add(r.below(5) as u64).wrapping_sub(2)
            }
            2 => {
                let k = r.below(10) as u32;
                64u64.pow(k).wrapping_add(r.below(5) as u64).wrapping_sub(2)
            }
            3 if !self.ints.is_empty() => {
                let i = r.below(self.ints.len());
                self.ints[i].wrapping_add(r.below(3) as u64).wrapping_sub(1)
            }
            4 => r.u64() >> r.below(64),
            _ => r.u64(),
        };
        if max == u64::MAX {
            x
        } else if x > max {
            x % (max + 1)
        } else {
            x
        }
    }
}

/// literals of the sources (test modules excluded), so that inputs a change singles out are tried
pub fn harvest(repo: &str) -> (Vec<u64>, Vec<String>) {
    let mut ints: Vec<u64> = vec![];
    let mut strs: Vec<String> = vec![];
    let mut files = vec![];
    let mut dirs = vec![format!("{repo}/src"), format!("{repo}/wasm/src")];
    while let Some(d) = dirs.pop() {
        if let Ok(rd) = std::fs::read_dir(&d) {
            for e in rd.flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p.to_string_lossy().to_string())
                } else if p.extension().map_or(false, |x| x == "rs") {
                    files.push(p)
                }
            }
        }
    }
    files.sort();
    for f in files {
        let s = std::fs::read_to_string(&f).unwrap_or_default();
        let s = match s.find("#[cfg(test)]\nmod ") {
            Some(i) => s[..i].to_string(),
            None => s,
        };
        scan(&s, &mut ints, &mut strs);
    }
    ints.sort();
    ints.dedup();
    strs.sort();
    strs.dedup();
    strs.retain(|s| s.len() <= 40 && !s.is_empty());
    (ints, strs)
}

fn scan(s: &str, ints: &mut Vec<u64>, strs: &mut Vec<String>) {
    let c: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1
            }
        } else if c[i] == '"' {
            let mut j = i + 1;
            let mut t = String::new();
            while j < c.len() && c[j] != '"' {
                if c[j] == '\\' {
                    j += 1;
                    match c.get(j) {
                        Some('n') => t.push('\n'),
                        Some('t') => t.push('\t'),
                        Some('0') => t.push('\0'),
                        Some('x') => {
                            let h: String = c[j + 1..(j + 3).min(c.len())].iter().collect();
                            if let Ok(x) = u8::from_str_radix(&h, 16) {
                                t.push(x as char);
                                ints.push(x as u64);
                            }
                            j += 2;
                        }
                        Some(x) => t.push(*x),
                        None => (),
                    }
                } else {
                    t.push(c[j])
                }
                j += 1;
            }
            strs.push(t);
            i = j + 1;
        } else if c[i] == '\'' && i + 2 < c.len() && c[i + 2] == '\'' {
            strs.push(c[i + 1].to_string());
            ints.push(c[i + 1] as u64);
            i += 3;
        } else if c[i].is_ascii_digit()
            && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_'))
        {
            let mut j = i;
            let mut t = String::new();
            while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') {
                t.push(c[j]);
                j += 1
            }
            let t = t.replace('_', "");
            let mut t = t.as_str();
            for suf in ["usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "isize"] {
                if !t.starts_with("0x") || suf.starts_with(|c| c == 'u' || c == 'i') {
                    if let Some(x) = t.strip_suffix(suf) {
                        t = x;
                        break;
                    }
                }
            }
            let v = if let Some(h) = t.strip_prefix("0x") {
                u64::from_str_radix(h, 16).ok()
            } else if let Some(h) = t.strip_prefix("0b") {
                u64::from_str_radix(h, 2).ok()
            } else {
                t.parse::<u64>().ok()
            };
            if let Some(v) = v {
                ints.push(v)
            }
            i = j;
        } else {
            i += 1
        }
    }
}
