//! Independent CESR codec, written from the CESR tables, used as the oracle.

const ALPHA: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

pub fn b64enc(d: &[u8]) -> String {
    let mut s = String::with_capacity(d.len() * 4 / 3 + 4);
    for c in d.chunks(3) {
        let n = (c[0] as u32) << 16
            | (*c.get(1).unwrap_or(&0) as u32) << 8
            | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..(c.len() + 1) {
            s.push(ALPHA[(n >> (18 - 6 * k)) as usize & 63] as char)
        }
    }
    s
}
pub fn sx(c: u8) -> Option<u32> {
    Some(match c {
        b'A'..=b'Z' => c - b'A',
        b'a'..=b'z' => c - b'a' + 26,
        b'0'..=b'9' => c - b'0' + 52,
        b'-' => 62,
        b'_' => 63,
        _ => return None,
    } as u32)
}
pub fn ch(n: u32) -> char {
    ALPHA[n as usize] as char
}
/// whole quadlets only
pub fn b64dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut v = Vec::with_capacity(b.len() / 4 * 3);
    for c in b.chunks(4) {
        let mut n = 0u32;
        for x in c {
            n = n << 6 | sx(*x)?
        }
        v.extend_from_slice(&n.to_be_bytes()[1..]);
    }
    Some(v)
}
pub fn digits(n: u64, len: usize) -> String {
    let mut s = vec![];
    let mut n = n;
    for _ in 0..len {
        s.push(ALPHA[(n % 64) as usize]);
        n /= 64
    }
    s.reverse();
    String::from_utf8(s).unwrap()
}
pub fn value(s: &str) -> Option<u64> {
    let mut n = 0u64;
    for c in s.bytes() {
        n = n.checked_mul(64)? + sx(c)? as u64
    }
    Some(n)
}

pub struct M {
    pub code: &'static str,
    pub hs: usize,
    pub ss: usize,
    /// 0: variable
    pub fs: usize,
    pub ls: usize,
}
const fn m(code: &'static str, hs: usize, ss: usize, fs: usize, ls: usize) -> M {
    M { code, hs, ss, fs, ls }
}
pub const MATTER: &[M] = &[
    m("A", 1, 0, 44, 0),
    m("B", 1, 0, 44, 0),
    m("C", 1, 0, 44, 0),
    m("D", 1, 0, 44, 0),
    m("E", 1, 0, 44, 0),
    m("F", 1, 0, 44, 0),
    m("G", 1, 0, 44, 0),
    m("H", 1, 0, 44, 0),
    m("I", 1, 0, 44, 0),
    m("J", 1, 0, 44, 0),
    m("K", 1, 0, 76, 0),
    m("L", 1, 0, 76, 0),
    m("M", 1, 0, 4, 0),
    m("N", 1, 0, 12, 0),
    m("O", 1, 0, 44, 0),
    m("P", 1, 0, 124, 0),
    m("Q", 1, 0, 44, 0),
    m("0A", 2, 0, 24, 0),
    m("0B", 2, 0, 88, 0),
    m("0C", 2, 0, 88, 0),
    m("0D", 2, 0, 88, 0),
    m("0E", 2, 0, 88, 0),
    m("0F", 2, 0, 88, 0),
    m("0G", 2, 0, 88, 0),
    m("0H", 2, 0, 8, 0),
    m("0I", 2, 0, 88, 0),
    m("1AAA", 4, 0, 48, 0),
    m("1AAB", 4, 0, 48, 0),
    m("1AAC", 4, 0, 80, 0),
    m("1AAD", 4, 0, 80, 0),
    m("1AAE", 4, 0, 56, 0),
    m("1AAF", 4, 0, 8, 0),
    m("1AAG", 4, 0, 36, 0),
    m("1AAH", 4, 0, 100, 0),
    m("1AAI", 4, 0, 48, 0),
    m("1AAJ", 4, 0, 48, 0),
    m("2AAA", 4, 0, 8, 1),
    m("3AAA", 4, 0, 8, 2),
    m("4A", 2, 2, 0, 0),
    m("5A", 2, 2, 0, 1),
    m("6A", 2, 2, 0, 2),
    m("7AAA", 4, 4, 0, 0),
    m("8AAA", 4, 4, 0, 1),
    m("9AAA", 4, 4, 0, 2),
    m("4B", 2, 2, 0, 0),
    m("5B", 2, 2, 0, 1),
    m("6B", 2, 2, 0, 2),
    m("7AAB", 4, 4, 0, 0),
    m("8AAB", 4, 4, 0, 1),
    m("9AAB", 4, 4, 0, 2),
];
pub fn mat(code: &str) -> Option<&'static M> {
    MATTER.iter().find(|m| m.code == code)
}
/// raw size of a fixed size code
pub fn mraw(m: &M) -> usize {
    (m.fs - m.hs - m.ss) * 3 / 4 - m.ls
}
/// the code that variable material of this length gets; None if it cannot be represented
pub fn mcode(code: &str, n: usize) -> Option<(String, usize)> {
    let m = mat(code)?;
    if m.fs != 0 {
        return Some((code.to_string(), 0));
    }
    let kind = code.chars().last().unwrap();
    let ls = (3 - n % 3) % 3;
    let q = (n + ls) / 3;
    let small = matches!(code.as_bytes()[0], b'4' | b'5' | b'6');
    if small && q < 4096 {
        Some((format!("{}{kind}", ["4", "5", "6"][ls]), q))
    } else if q < 16777216 {
        Some((format!("{}AA{kind}", ["7", "8", "9"][ls]), q))
    } else {
        None
    }
}
/// text of (code, size, raw); raw must have the size the code declares
pub fn mtext(code: &str, size: usize, raw: &[u8]) -> Option<String> {
    let m = mat(code)?;
    let cs = m.hs + m.ss;
    if m.fs == 0 {
        if raw.len() + m.ls != size * 3 || size >= 64usize.pow(m.ss as u32) {
            return None;
        }
    } else if raw.len() != mraw(m) || size != 0 {
        return None;
    }
    let pad = cs % 4 + m.ls;
    let mut b = vec![0u8; pad];
    b.extend_from_slice(raw);
    let e = b64enc(&b);
    Some(format!("{code}{}{}", digits(size as u64, m.ss), &e[cs % 4..]))
}
#[derive(Debug, Clone, PartialEq)]
pub struct MP {
    pub code: String,
    pub size: usize,
    pub raw: Vec<u8>,
    pub fs: usize,
}
fn hard(text: &[u8]) -> Option<&'static M> {
    MATTER.iter().find(|m| text.starts_with(m.code.as_bytes()))
}
/// strict parse of the front of a text stream
pub fn mparse(text: &[u8]) -> Option<MP> {
    let m = hard(text)?;
    let cs = m.hs + m.ss;
    let soft = std::str::from_utf8(text.get(m.hs..cs)?).ok()?;
    let size = value(soft)? as usize;
    let fs = if m.fs == 0 { cs + size * 4 } else { m.fs };
    let t = std::str::from_utf8(text.get(..fs)?).ok().filter(|s| s.is_ascii())?;
    let pad = cs % 4 + m.ls;
    let body = format!("{}{}", "A".repeat(cs % 4), &t[cs..]);
    let d = b64dec(&body)?;
    if d.len() < pad || d[..pad].iter().any(|x| *x != 0) {
        return None;
    }
    Some(MP { code: m.code.to_string(), size, raw: d[pad..].to_vec(), fs })
}
pub fn mbparse(b: &[u8]) -> Option<MP> {
    // no code needs more than the first eight characters
    let n = b.len() / 3 * 3;
    let t = b64enc(&b[..n]);
    mparse(t.as_bytes())
}

pub struct I {
    pub code: &'static str,
    pub hs: usize,
    pub ss: usize,
    pub os: usize,
    pub fs: usize,
    pub ls: usize,
}
const fn i(code: &'static str, hs: usize, ss: usize, os: usize, fs: usize, ls: usize) -> I {
    I { code, hs, ss, os, fs, ls }
}
pub const INDEXER: &[I] = &[
    i("A", 1, 1, 0, 88, 0),
    i("B", 1, 1, 0, 88, 0),
    i("C", 1, 1, 0, 88, 0),
    i("D", 1, 1, 0, 88, 0),
    i("E", 1, 1, 0, 88, 0),
    i("F", 1, 1, 0, 88, 0),
    i("0A", 2, 2, 1, 156, 0),
    i("0B", 2, 2, 1, 156, 0),
    i("2A", 2, 4, 2, 92, 0),
    i("2B", 2, 4, 2, 92, 0),
    i("2C", 2, 4, 2, 92, 0),
    i("2D", 2, 4, 2, 92, 0),
    i("2E", 2, 4, 2, 92, 0),
    i("2F", 2, 4, 2, 92, 0),
    i("3A", 2, 6, 3, 160, 0),
    i("3B", 2, 6, 3, 160, 0),
    i("0z", 2, 2, 0, 0, 0),
    i("1z", 2, 2, 1, 76, 1),
    i("4z", 2, 6, 3, 80, 1),
];
pub const ICURRENT: &[&str] = &["B", "D", "F", "0B", "2B", "2D", "2F", "3B"];
pub const IBOTH: &[&str] = &["A", "C", "E", "0A", "2A", "2C", "2E", "3A"];
pub fn idx(code: &str) -> Option<&'static I> {
    INDEXER.iter().find(|m| m.code == code)
}
pub fn iraw(m: &I, index: u64) -> usize {
    let fs = if m.fs == 0 { m.hs + m.ss + 4 * index as usize } else { m.fs };
    (fs - m.hs - m.ss) * 3 / 4 - m.ls
}
pub fn itext(code: &str, index: u64, ondex: u64, raw: &[u8]) -> Option<String> {
    let m = idx(code)?;
    let (ms, cs) = (m.ss - m.os, m.hs + m.ss);
    if index >= 64u64.pow(ms as u32) || (m.os > 0 && ondex >= 64u64.pow(m.os as u32)) {
        return None;
    }
    if raw.len() != iraw(m, index) {
        return None;
    }
    let pad = cs % 4 + m.ls;
    let mut b = vec![0u8; pad];
    b.extend_from_slice(raw);
    let e = b64enc(&b);
    Some(format!("{code}{}{}{}", digits(index, ms), digits(ondex, m.os), &e[cs % 4..]))
}
#[derive(Debug, Clone, PartialEq)]
pub struct IP {
    pub code: String,
    pub index: u64,
    pub ondex: u64,
    pub raw: Vec<u8>,
    pub fs: usize,
}
pub fn iparse(text: &[u8]) -> Option<IP> {
    let m = INDEXER.iter().find(|m| text.starts_with(m.code.as_bytes()))?;
    let (ms, cs) = (m.ss - m.os, m.hs + m.ss);
    let s = std::str::from_utf8(text.get(..cs)?).ok().filter(|s| s.is_ascii())?;
    let index = value(&s[m.hs..m.hs + ms])?;
    let od = value(&s[m.hs + ms..])?;
    let ondex = if ICURRENT.contains(&m.code) {
        if od != 0 {
            return None;
        }
        0
    } else if m.os == 0 {
        index
    } else {
        od
    };
    let fs = if m.fs == 0 { cs + 4 * index as usize } else { m.fs };
    let t = std::str::from_utf8(text.get(..fs)?).ok().filter(|s| s.is_ascii())?;
    let pad = cs % 4 + m.ls;
    let d = b64dec(&format!("{}{}", "A".repeat(cs % 4), &t[cs..]))?;
    if d.len() < pad || d[..pad].iter().any(|x| *x != 0) {
        return None;
    }
    Some(IP { code: m.code.to_string(), index, ondex, raw: d[pad..].to_vec(), fs })
}
pub fn ibparse(b: &[u8]) -> Option<IP> {
    let n = b.len() / 3 * 3;
    iparse(b64enc(&b[..n]).as_bytes())
}

pub const COUNTER: &[(&str, usize)] = &[
    ("-A", 2),
    ("-B", 2),
    ("-C", 2),
    ("-D", 2),
    ("-E", 2),
    ("-F", 2),
    ("-G", 2),
    ("-H", 2),
    ("-I", 2),
    ("-J", 2),
    ("-K", 2),
    ("-L", 2),
    ("-V", 2),
    ("-0V", 5),
    ("--AAA", 3),
];
pub fn cparse(text: &[u8]) -> Option<(String, u64, usize)> {
    let (code, ss) = COUNTER.iter().find(|c| text.starts_with(c.0.as_bytes()))?;
    let s = std::str::from_utf8(text.get(code.len()..code.len() + ss)?).ok().filter(|s| s.is_ascii())?;
    Some((code.to_string(), value(s)?, code.len() + ss))
}
pub fn cbparse(b: &[u8]) -> Option<(String, u64, usize)> {
    let n = b.len() / 3 * 3;
    cparse(b64enc(&b[..n]).as_bytes())
}
