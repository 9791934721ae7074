//! Workload generators shared by the monitors.

use crate::refhpack::*;
use crate::rng::Rng;

pub const BOUNDARY: [usize; 34] = [
    0, 1, 2, 3, 5, 7, 8, 9, 14, 15, 16, 29, 30, 31, 32, 33, 62, 63, 64, 65, 94, 95, 126, 127, 128, 129, 158, 159, 160, 253, 254, 255, 256, 257,
];

/// A string length: mostly short, often on a boundary of the integer or table arithmetic.
pub fn len(r: &mut Rng) -> usize {
    match r.below(16) {
        0..=6 => r.us(12),
        7..=9 => *r.pick(&BOUNDARY),
        10..=13 => r.us(48),
        14 => r.us(400),
        _ => match r.below(12) {
            0 => r.range(4050, 4100) as usize,
            1 => r.range(16380, 16390) as usize,
            2 => r.range(16509, 16514) as usize,
            _ => r.us(1500),
        },
    }
}

/// Cases of a sweep over lengths at quick and thorough tier.
pub const SHARES: [u64; 2] = [256, 2048];

/// This case's share of: every length below some bound, the neighbourhood of every power
/// of two and of some multiples of it beyond that, and round decimal numbers.
pub fn lengths(c: &crate::rt::Case) -> Vec<usize> {
    lengths_to(c, usize::MAX, usize::MAX)
}
/// This case's share of the distances between an operation and its repetition.
pub fn distances(c: &crate::rt::Case) -> Vec<usize> {
    let (parts, below, top) = if cfg!(miri) {
        (256, 64, 300)
    } else if c.tier == crate::rt::Tier::Thorough {
        (SHARES[1], 3000, 1 << 19)
    } else {
        (SHARES[0], 530, 1 << 16)
    };
    let part = c.idx % parts;
    let mut v: Vec<usize> = (part as usize..below).step_by(parts as usize).collect();
    let mut far = vec![1000];
    let mut k = 1024;
    while k <= top {
        far.extend([k - 1, k, k + 1]);
        k *= 2;
    }
    v.extend(far.into_iter().filter(|k| *k >= below).enumerate().filter(|(i, _)| *i as u64 % parts == part).map(|(_, x)| x));
    v
}
/// What `n` operations between an operation and its repetition may be.
pub fn between(r: &mut Rng, how: usize, n: usize, size: u64) -> Vec<Op> {
    let salt = r.u8();
    (0..n)
        .map(|k| {
            let name = vec![b'#', salt, k as u8, (k >> 8) as u8, (k >> 16) as u8];
            match how {
                0 | 1 => Op::Lit(name, vec![k as u8; k % 3], 4),
                2 => match k % 4 {
                    0 => Op::Lit(name, b"v".to_vec(), [0, 8, 0x10, 0x18][k / 4 % 4]),
                    1 => Op::Idx(1 + k as u32 % 61),
                    2 => Op::IdxName(1 + k as u32 % 61, name, [0, 8][k / 4 % 2]),
                    _ => Op::Lit(b"age".to_vec(), name, [0u8, 0x10][k / 4 % 2]),
                },
                _ => Op::Size((size - (k as u64 + 1) % 2) as u32),
            }
        })
        .collect()
}
/// The same with tighter bounds, for what is costly.
pub fn lengths_to(c: &crate::rt::Case, all: usize, most: usize) -> Vec<usize> {
    let (parts, below, top) = if cfg!(miri) {
        (256, 300, 2000)
    } else if c.tier == crate::rt::Tier::Thorough {
        (SHARES[1], 70_000, 1 << 22)
    } else {
        (SHARES[0], 20_000, 1 << 21)
    };
    let (below, top) = (below.min(all), top.min(most));
    let part = c.idx % parts;
    let mut v: Vec<usize> = (part as usize..below).step_by(parts as usize).collect();
    let mut far = vec![];
    let mut k = 1024usize;
    while k <= top {
        for m in [k, k / 4 * 5, k / 2 * 3, k / 4 * 7] {
            far.extend([m - 1, m, m + 1]);
        }
        far.extend([k + 126, k + 127, k + 128, k - 32, k - 33, k - 31]);
        k *= 2;
    }
    let mut d = 1000usize;
    while d <= top {
        far.extend([d, 2 * d, 3 * d, 4 * d, 5 * d, 6 * d, 7 * d, 8 * d, 9 * d]);
        d *= 10;
    }
    far.retain(|&x| x >= below && x <= top);
    far.sort();
    far.dedup();
    v.extend(far.into_iter().enumerate().filter(|(i, _)| *i as u64 % parts == part).map(|(_, x)| x));
    v
}

/// A source of strings of any length up to `n`.
pub struct Base(Vec<u8>, usize);
impl Base {
    pub fn new(r: &mut Rng, n: usize) -> Base {
        let mut v = Vec::with_capacity(n + 4096);
        while v.len() < n + 2048 {
            let k = r.range(1, 2000) as usize;
            v.extend(content(r, k));
        }
        Base(v, 0)
    }
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        self.1 = (self.1 + 331) % (self.0.len() - n);
        self.0[self.1..self.1 + n].to_vec()
    }
}

const SHORT: &[u8] = b"012aceiost";
const LONG30: [u8; 12] = [10, 13, 22, 2, 3, 127, 220, 249, 255, 192, 193, 0];

/// What real traffic is made of, and what a library might be tempted to treat specially.
#[rustfmt::skip]
const WORDS: &[&str] = &[
    "cookie", "set-cookie", "authorization", "proxy-authorization", "x-api-key", "x-auth-token", "x-csrf-token", "password", "secret", "token", "session", "sessionid",
    "connection", "keep-alive", "proxy-connection", "transfer-encoding", "chunked", "upgrade", "http2-settings", "te", "trailers", "trailer", "close", "h2", "h2c", "websocket",
    "x-request-id", "x-forwarded-for", "x-forwarded-proto", "x-real-ip", "forwarded", "origin", "dnt", "pragma", "priority", "u=1, i", "sec-fetch-mode", "cors", "sec-ch-ua",
    "grpc-status", "grpc-message", "grpc-timeout", "grpc-encoding", "grpc-accept-encoding", "application/grpc", "application/json", "application/grpc+proto", "content-security-policy",
    "custom-key", "custom-value", "custom-header", "x-custom", "Content-Type", "Content-Length", "Cookie", "HOST", "User-Agent", "ACCEPT", ":protocol", ":unknown", ":", ":path ", "::",
    "GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "CONNECT", "TRACE", "http", "https", "/", "/index.html", "/sample/path", "*", "/a/b?c=d&e=f#g", "//",
    "100", "101", "200", "201", "204", "206", "301", "302", "304", "307", "400", "401", "403", "404", "405", "500", "502", "503", "999", "0", "1", "-1", "00", "65536", "4294967296",
    "www.example.com", "localhost:8080", "127.0.0.1", "[::1]", "no-cache", "private", "max-age=0", "public, max-age=31536000", "gzip", "gzip, deflate", "gzip, deflate, br", "identity", "utf-8",
    "Mon, 21 Oct 2013 20:13:21 GMT", "foo=ASDJKHQKBZXOQWEOPIUAXQWEOIU; max-age=3600; version=1", "a=b; c=d", "a=b", ";", ", ", " ", "  ", "\t", " leading", "trailing ", " both ", "\r\n", "\n", "\0", "a\0b",
    "text/html; charset=utf-8", "Mozilla/5.0 (X11; Linux x86_64)", "Basic dXNlcjpwYXNz", "Bearer eyJhbGciOiJIUzI1NiJ9", "W/\"67ab43\"", "\"etag\"", "true", "false", "null", "none", "undefined", "NaN",
    "caf\u{e9}", "\u{feff}bom", "\u{1f600}", "\u{0}", "\u{7f}", "\u{80}", "%20", "%00", "+", "=", "==", "AAAA", "aaaa", "zzzz", "0000000000", "eos", "EOS", "name", "value", "key", "id",
];

/// Words, alone or strung together.
fn words(r: &mut Rng, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 64);
    while v.len() < n {
        v.extend_from_slice(r.pick(WORDS).as_bytes());
        if r.chance(1, 3) {
            v.push(*r.pick(b" ,;=&:/-\n"));
        }
    }
    v.truncate(n);
    v
}

pub fn word(r: &mut Rng) -> Vec<u8> {
    r.pick(WORDS).as_bytes().to_vec()
}

pub fn content(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(9) {
        8 => words(r, n),
        0 => r.bytes(n),
        1 => (0..n).map(|_| *r.pick(SHORT)).collect(),
        2 => (0..n).map(|_| *r.pick(&LONG30)).collect(),
        3 => {
            let b = r.u8();
            vec![b; n]
        }
        4 => (0..n).map(|_| r.range(32, 126) as u8).collect(),
        5 => (0..n).map(|_| r.range(b'a' as u64, b'z' as u64) as u8).collect(),
        6 => {
            let (a, b) = (r.u8(), r.u8());
            (0..n).map(|_| if r.bool() { a } else { b }).collect()
        }
        _ => (0..n).map(|i| (i as u8).wrapping_mul(7)).collect(),
    }
}

pub fn text(r: &mut Rng) -> Vec<u8> {
    let n = len(r);
    content(r, n)
}

pub fn name(r: &mut Rng) -> Vec<u8> {
    match r.below(11) {
        10 => word(r),
        0..=3 => r.pick(&STATIC).0.as_bytes().to_vec(),
        4 => {
            // almost a static name
            let mut n = r.pick(&STATIC).0.as_bytes().to_vec();
            match r.below(4) {
                0 => n.push(b'x'),
                1 => {
                    n.pop();
                }
                2 => n[0] ^= 0x20,
                _ => {
                    let k = n.len() - 1;
                    n[k] = n[k].wrapping_add(1)
                }
            }
            n
        }
        5..=7 => {
            let n = r.range(1, 6) as usize;
            (0..n).map(|_| r.range(b'a' as u64, b'd' as u64) as u8).collect()
        }
        _ => text(r),
    }
}

pub fn value(r: &mut Rng) -> Vec<u8> {
    match r.below(11) {
        10 => word(r),
        0..=1 => r.pick(&STATIC).1.as_bytes().to_vec(),
        2 => vec![],
        3..=5 => {
            let n = r.range(0, 4) as usize;
            (0..n).map(|_| r.range(b'0' as u64, b'3' as u64) as u8).collect()
        }
        _ => text(r),
    }
}

/// Change a string by as little as possible.
pub fn near(r: &mut Rng, s: &mut Vec<u8>) {
    let at = |r: &mut Rng, n: usize| match r.below(4) {
        0 => 0,
        1 => n - 1,
        2 => n / 2,
        _ => r.us(n),
    };
    if s.is_empty() || r.chance(1, 6) {
        s.push(*r.pick(&[0, b' ', b'x', 0xff]));
    } else if r.chance(1, 6) {
        s.pop();
    } else {
        let k = at(r, s.len());
        s[k] = match r.below(4) {
            0 => s[k] ^ 0x20,
            1 => s[k].wrapping_add(1),
            2 => s[k] ^ 0x80,
            _ => r.u8(),
        };
    }
}

/// Lengths at which texts which resemble one another are tried.
const KIN: [usize; 22] = [2, 3, 4, 6, 8, 9, 10, 12, 12, 16, 16, 20, 20, 24, 32, 33, 48, 64, 100, 128, 200, 300];
const KIN_FAR: [usize; 10] = [255, 256, 257, 400, 512, 600, 1000, 1024, 2000, 5000];

/// Texts of one length that agree in whatever a careless comparison looks at: all but one or
/// two octets (anywhere), the multiset, the sum, the exclusive or, weak polynomial hashes.
/// Neighbours are related, and earlier ones return.
pub fn relatives(r: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let len = if r.chance(1, 8) { *r.pick(&KIN_FAR) } else { *r.pick(&KIN) };
    let how = r.below(10);
    let alphabet: &[u8] = *r.pick(&[&b"0123456789"[..], b"012", b"abcdefghijklmnopqrstuvwxyz", b"aA-_ ;=", b"\x00\xff\x80"]);
    let mut base: Vec<u8> = (0..len).map(|_| *r.pick(alphabet)).collect();
    if r.chance(1, 6) {
        base = r.bytes(len);
    }
    let mut all: Vec<Vec<u8>> = vec![base.clone()];
    while all.len() < n {
        let mut s = match r.below(3) {
            0 => base.clone(),
            1 => all[all.len() - 1].clone(),
            _ => all[r.us(all.len())].clone(),
        };
        let (mut i, mut j) = (r.us(len), r.us(len));
        match r.below(4) {
            0 => i = len / 2,
            1 => j = (i + 1) % len,
            _ => {}
        }
        match how {
            0 => s[i] = *r.pick(alphabet),
            1 => s[i] ^= 1 << r.below(8),
            2 => s.swap(i, j),
            3 => {
                s[i] = s[i].wrapping_add(1);
                s[j] = s[j].wrapping_sub(1);
            }
            4 => {
                let m = r.u8();
                s[i] ^= m;
                s[j] ^= m;
            }
            5 => {
                // the same under h * 31 + c and h * 33 + c, where it does not wrap
                let m = *r.pick(&[31u8, 33]);
                let i = r.us(len - 1);
                if s[i] < 255 && s[i + 1] >= m {
                    s[i] += 1;
                    s[i + 1] -= m;
                }
            }
            6 => {
                // ends kept
                let k = (len / 3).min(16);
                for b in &mut s[k..len - k] {
                    *b = *r.pick(alphabet);
                }
            }
            7 => {
                // heads or tails changed
                let k = (len / 2).min(8);
                let at = if r.bool() { 0 } else { len - k };
                for b in &mut s[at..at + k] {
                    *b = *r.pick(alphabet);
                }
            }
            8 => s.rotate_left(i),
            _ => s.iter_mut().for_each(|b| *b = *r.pick(alphabet)),
        }
        all.push(s);
        if r.chance(1, 5) {
            let k = r.us(all.len());
            all.push(all[k].clone());
        }
    }
    all
}
/// One of few families of texts, the same in every instance, thread and process.
pub fn family(r: &mut Rng) -> Vec<u8> {
    let len = *r.pick(&[5usize, 12, 16, 40, 100, 300, 300, 1000]);
    let mut s: Vec<u8> = (0..len).map(|i| b'a' + (i * 7 % 26) as u8).collect();
    for _ in 0..r.below(3) {
        let at = if r.bool() { len / 2 } else { r.us(len) };
        s[at] = *r.pick(b"0123xyz");
    }
    s
}

/// A pool of headers small enough that repeats, name-only matches and evictions are frequent.
pub struct Pool {
    pub names: Vec<Vec<u8>>,
    pub values: Vec<Vec<u8>>,
    /// Pairs handed out lately; asking again is where stale state shows.
    pub recent: std::cell::RefCell<Vec<Pair>>,
}

impl Pool {
    pub fn new(r: &mut Rng) -> Pool {
        let nn = r.range(2, 8) as usize;
        let nv = r.range(2, 10) as usize;
        Pool { names: (0..nn).map(|_| name(r)).collect(), values: (0..nv).map(|_| value(r)).collect(), recent: Default::default() }
    }
    /// Next to nothing in names and values: as many entries as a table can hold.
    pub fn hollow(r: &mut Rng) -> Pool {
        let mut names = vec![vec![]; r.range(1, 4) as usize];
        let mut values = vec![vec![]; r.range(1, 4) as usize];
        if r.chance(1, 3) {
            names.push(vec![r.u8()]);
        }
        if r.chance(1, 3) {
            values.push(vec![r.u8()]);
        }
        Pool { names, values, recent: Default::default() }
    }
    pub fn tiny(r: &mut Rng) -> Pool {
        if r.chance(1, 8) {
            return Pool::hollow(r);
        }
        let t = |r: &mut Rng| {
            if r.chance(1, 8) {
                return word(r);
            }
            let n = r.range(0, 9) as usize;
            content(r, n)
        };
        let nn = r.range(2, 8) as usize;
        let nv = r.range(2, 10) as usize;
        Pool { names: (0..nn).map(|_| t(r)).collect(), values: (0..nv).map(|_| t(r)).collect(), recent: Default::default() }
    }
    pub fn name(&self, r: &mut Rng) -> Vec<u8> {
        if r.chance(1, 12) {
            name(r)
        } else if r.chance(1, 5) {
            r.pick(&STATIC).0.as_bytes().to_vec()
        } else {
            r.pick(&self.names).clone()
        }
    }
    pub fn value(&self, r: &mut Rng) -> Vec<u8> {
        if r.chance(1, 12) {
            value(r)
        } else {
            r.pick(&self.values).clone()
        }
    }
    pub fn pair(&self, r: &mut Rng, t: &RefTable) -> Pair {
        let mut recent = self.recent.borrow_mut();
        if !recent.is_empty() && r.chance(1, 8) {
            return if r.bool() { recent[recent.len() - 1].clone() } else { r.pick(&recent[..]).clone() };
        }
        let p = self.fresh_pair(r, t);
        if recent.len() == 6 {
            recent.remove(0);
        }
        recent.push(p.clone());
        p
    }
    fn fresh_pair(&self, r: &mut Rng, t: &RefTable) -> Pair {
        match r.below(10) {
            9 => {
                let n = self.name(r);
                match fitted(r, t, n.len()) {
                    Some(v) => (n, v),
                    None => {
                        let v = self.value(r);
                        (n, v)
                    }
                }
            }
            8 => {
                // next to one that is there
                let (mut n, mut v) = if t.dynamic.is_empty() || r.chance(1, 4) { (self.name(r), self.value(r)) } else { t.dynamic[r.us(t.dynamic.len())].clone() };
                let which = r.bool();
                near(r, if which { &mut n } else { &mut v });
                (n, v)
            }
            0 => {
                let e = r.pick(&STATIC);
                (e.0.as_bytes().to_vec(), e.1.as_bytes().to_vec())
            }
            1 if !t.dynamic.is_empty() => t.dynamic[r.us(t.dynamic.len())].clone(),
            2 if !t.dynamic.is_empty() => (t.dynamic[r.us(t.dynamic.len())].0.clone(), self.value(r)),
            _ => (self.name(r), self.value(r)),
        }
    }
}

/// A table with many entries: what to put in first, and the pool to go on with.
pub struct Deep {
    pub max: u32,
    pub fill: Vec<Pair>,
    pub pool: Pool,
}

pub fn deep(r: &mut Rng, most: u64) -> Deep {
    let lo = 40f64.ln();
    let n = (lo + ((most as f64).ln() - lo) * (r.below(1 << 20) as f64 / (1u64 << 20) as f64)).exp() as usize;
    let k = r.us(4);
    let own = content(r, k);
    let stat = r.pick(&STATIC).0.as_bytes().to_vec();
    let few: Vec<Vec<u8>> = (0..4).map(|_| name(r)).map(|mut n| { n.truncate(12); n }).collect();
    let style = r.below(9);
    let vlen = *r.pick(&[2usize, 2, 3, 3, 6, 20]);
    let value = |i: usize| -> Vec<u8> {
        let mut v = vec![b'.'; vlen];
        v[0] = i as u8;
        v[1] = (i >> 8) as u8;
        if vlen > 2 {
            v[2] = (i >> 16) as u8;
        }
        v
    };
    let fill: Vec<Pair> = (0..n)
        .map(|i| match style {
            0 => (own.clone(), value(i)),
            1 => (stat.clone(), value(i)),
            2 => (value(i), vec![]),
            3 => (value(i), own.clone()),
            4 => (r.pick(&few).clone(), value(i)),
            5 => {
                // two names, one of them only at the deep end
                let deep = n - i > n * 9 / 10;
                (if deep { own.clone() } else { b"other".to_vec() }, value(i))
            }
            6 => (own.clone(), value(i % 5)),
            7 => (vec![], vec![]),
            _ => (own.clone(), if i % 3 == 0 { vec![i as u8] } else { vec![] }),
        })
        .collect();
    let total: u64 = fill.iter().map(|e| 32 + e.0.len() as u64 + e.1.len() as u64).sum();
    let max = match r.below(6) {
        0 => total,
        1 => total + r.below(100),
        2 => total - r.below(total / 4 + 1),
        3 => total * 2,
        4 => u32::MAX as u64,
        _ => total + r.below(40) * 34,
    };
    let some = |r: &mut Rng, f: &dyn Fn(&Pair) -> Vec<u8>| -> Vec<Vec<u8>> {
        let mut v: Vec<Vec<u8>> = vec![f(&fill[0]), f(&fill[n - 1]), f(&fill[n / 2])];
        for _ in 0..6 {
            v.push(f(&fill[r.us(n)]));
        }
        v
    };
    let mut names = some(r, &|e| e.0.clone());
    names.push(own.clone());
    names.push(b"other".to_vec());
    names.push(few[0].clone());
    let mut values = some(r, &|e| e.1.clone());
    values.push(vec![]);
    values.push(b"fresh".to_vec());
    values.push(vec![b'w'; 200]);
    values.push(vec![b'x'; r.us(3000)]);
    if r.chance(1, 3) {
        // one that takes the place of very many
        values.push(vec![b'y'; r.below(1 + total.min(300_000) * 6 / 10) as usize]);
    }
    Deep { max: max.min(u32::MAX as u64) as u32, pool: Pool { names, values, recent: Default::default() }, fill }
}

pub fn table_size(r: &mut Rng) -> u32 {
    match r.below(12) {
        0 => 0,
        1 => *r.pick(&[1, 31, 32, 33, 34, 40, 63, 64, 65, 66]),
        2..=3 => r.range(32, 160) as u32,
        4..=6 => r.range(100, 700) as u32,
        7..=8 => 4096,
        9 => *r.pick(&[4095, 4097, 16384, 65535, 65536, 1 << 20]),
        10 => *r.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, (1 << 28) + 30, (1 << 28) + 31]),
        _ => r.range(0, 3000) as u32,
    }
}

/// Largest size-update value that fits five octets.
pub const MAX_SIZE5: u64 = 31 + (1 << 28) - 1;

#[derive(Clone, Debug)]
pub enum Op {
    /// name, value, flags
    Lit(Vec<u8>, Vec<u8>, u8),
    Idx(u32),
    IdxName(u32, Vec<u8>, u8),
    Size(u32),
}

pub fn index(r: &mut Rng, t: &RefTable) -> u32 {
    let n = t.len();
    let last = t.touched.get();
    let i = match r.below(6) {
        5 if (1..=n).contains(&last) => last,
        0 => r.range(1, 61),
        1 if n > 61 => n,
        2 if n > 61 => 62,
        3 if n > 61 => r.range(62, n),
        _ => r.range(1, n),
    };
    t.touched.set(i);
    i as u32
}

pub fn flags(r: &mut Rng, best: bool) -> u8 {
    let mut f = r.u8() & 3;
    f |= *r.pick(&[0, 4, 4, 4, 8, 0]);
    if best && r.chance(3, 5) {
        f |= 0x10;
    }
    f
}

pub fn size_within(r: &mut Rng, limit: u64) -> u32 {
    let lim = limit.min(MAX_SIZE5);
    (match r.below(6) {
        0 => 0,
        1 => lim,
        2 => lim.saturating_sub(r.below(3)),
        3 => r.range(0, lim.min(200)),
        4 => r.range(0, lim.min(4096)),
        _ => r.range(0, lim),
    }) as u32
}

/// The size the table has once the oldest so many entries are gone: none, one, some, all.
fn boundary(r: &mut Rng, t: &RefTable) -> u64 {
    let n = t.dynamic.len();
    let k = match r.below(5) {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => r.us(n + 1),
        _ => n,
    };
    if k >= n {
        return 0;
    }
    t.size - t.dynamic.iter().rev().take(k).map(|e| 32 + e.0.len() as u64 + e.1.len() as u64).sum::<u64>()
}

/// A value for a name of that length with which the new entry exactly takes the place of some old
/// ones, or misses it by one octet.
fn fitted(r: &mut Rng, t: &RefTable, name: usize) -> Option<Vec<u8>> {
    let keep = boundary(r, t);
    let want = (t.max + r.below(4)).checked_sub(keep + 32 + name as u64 + 1)?; // -1, 0, 1 or 2 off
    let most = match r.below(40) {
        0 => 300_000,
        1..=5 => 9_000,
        _ => 600, // long ones cost time
    };
    if want > most {
        return None;
    }
    Some(content(r, want as usize))
}

/// A size for an update: often one at which an entry more or less remains.
fn size_for(r: &mut Rng, t: &RefTable, limit: u64) -> u32 {
    if !t.dynamic.is_empty() && r.chance(1, 3) {
        let s = (boundary(r, t) + r.below(3)).saturating_sub(1);
        if s <= limit.min(MAX_SIZE5) {
            return s as u32;
        }
    }
    size_within(r, limit)
}

pub fn op(r: &mut Rng, pool: &Pool, t: &RefTable, limit: u64) -> Op {
    match r.below(20) {
        0..=10 => {
            let (n, v) = pool.pair(r, t);
            Op::Lit(n, v, flags(r, true))
        }
        11..=13 => Op::Idx(index(r, t)),
        14..=18 => {
            let i = index(r, t);
            let n = t.get(i as u64).map_or(0, |e| e.0.len());
            let v = if r.chance(1, 6) { fitted(r, t, n) } else { None };
            Op::IdxName(i, v.unwrap_or_else(|| pool.value(r)), flags(r, false))
        }
        _ if r.chance(1, 5) && t.max <= limit.min(MAX_SIZE5) => Op::Size(t.max as u32), // unchanged
        _ => Op::Size(size_for(r, t, limit)),
    }
}

/// What RFC 7541 and the documentation say an operation amounts to.
pub struct Expect {
    pub kind: Kind,
    pub header: Option<(Vec<u8>, Vec<u8>, u8)>,
}

pub fn kind_of_flags(f: u8) -> Kind {
    if f & 4 != 0 {
        Kind::Incremental
    } else if f & 8 != 0 {
        Kind::Never
    } else {
        Kind::Without
    }
}

/// Apply an operation to the model of the sender's table.
pub fn apply(t: &mut RefTable, op: &Op) -> Expect {
    let lit = |t: &mut RefTable, n: &[u8], v: &[u8], f: u8| {
        let kind = kind_of_flags(f);
        if kind == Kind::Incremental {
            t.insert(n, v);
        }
        Expect { kind, header: Some((n.to_vec(), v.to_vec(), kind.mark())) }
    };
    match op {
        Op::Size(s) => {
            t.set_max(*s as u64);
            Expect { kind: Kind::SizeUpdate, header: None }
        }
        Op::Idx(i) => {
            let (n, v) = t.get(*i as u64).expect("generated index is valid");
            Expect { kind: Kind::Indexed, header: Some((n.to_vec(), v.to_vec(), 0)) }
        }
        Op::IdxName(i, v, f) => {
            let n = t.get(*i as u64).expect("generated index is valid").0.to_vec();
            lit(t, &n, v, *f)
        }
        Op::Lit(n, v, f) => {
            if f & 0x10 != 0 && kind_of_flags(*f) != Kind::Never && t.full_match(n, v) {
                Expect { kind: Kind::Indexed, header: Some((n.clone(), v.clone(), 0)) }
            } else {
                lit(t, n, v, *f)
            }
        }
    }
}

/// Is `b` an acceptable encoding of `op` given the sender's table before it?
pub fn check_emitted(t: &RefTable, op: &Op, b: &[u8]) -> Result<(), String> {
    let mut want = vec![];
    match op {
        Op::Size(s) => put_int(&mut want, 0x20, 5, *s as u64, 0),
        Op::Idx(i) => put_int(&mut want, 0x80, 7, *i as u64, 0),
        Op::IdxName(i, v, f) => {
            let (p, w) = kind_of_flags(*f).literal_prefix();
            put_int(&mut want, p, w, *i as u64, 0);
            put_str(&mut want, v, f & 2 != 0, 0);
        }
        Op::Lit(n, v, f) => {
            let kind = kind_of_flags(*f);
            if f & 0x10 != 0 && kind != Kind::Never && t.full_match(n, v) {
                let i = read_int(b, 7).ok_or("not an indexed field")?;
                if t.get(i) != Some((&n[..], &v[..])) {
                    return Err(format!("an identical entry exists but the output does not refer to one (index {})", i));
                }
                put_int(&mut want, 0x80, 7, i, 0);
            } else {
                let (p, w) = kind.literal_prefix();
                if f & 0x10 != 0 && t.name_match(n) {
                    let i = read_int(b, w).ok_or("no name index")?;
                    if t.get(i).map(|e| e.0) != Some(&n[..]) {
                        return Err(format!("an entry with the name exists but the output does not refer to one (index {})", i));
                    }
                    put_int(&mut want, p, w, i, 0);
                } else {
                    want.push(p);
                    put_str(&mut want, n, f & 1 != 0, 0);
                }
                put_str(&mut want, v, f & 2 != 0, 0);
            }
        }
    }
    if b != &want[..] {
        return Err(format!("emitted {} but RFC 7541 requires {}", crate::rt::hex(b), crate::rt::hex(&want)));
    }
    Ok(())
}

fn read_int(b: &[u8], prefix: u32) -> Option<u64> {
    let mask = (1u64 << prefix) - 1;
    let x = *b.first()? as u64 & mask;
    if x < mask {
        return Some(x);
    }
    let (mut v, mut s) = (mask, 0);
    for y in &b[1..] {
        if s > 28 {
            return None;
        }
        v += ((y & 127) as u64) << s;
        s += 7;
        if y & 128 == 0 {
            return Some(v);
        }
    }
    None
}

pub fn show_op(o: &Op) -> String {
    use crate::rt::show;
    match o {
        Op::Lit(n, v, f) => format!("literal({}, {}, flags {:#x})", show(n), show(v), f),
        Op::Idx(i) => format!("indexed({})", i),
        Op::IdxName(i, v, f) => format!("indexed_name({}, {}, flags {:#x})", i, show(v), f),
        Op::Size(s) => format!("size_update({})", s),
    }
}

pub fn hash_op(h: u64, o: &Op) -> u64 {
    use crate::rng::hash_bytes as hb;
    match o {
        Op::Lit(n, v, f) => hb(hb(h ^ (*f as u64) << 8 ^ 1, n), v),
        Op::Idx(i) => crate::rng::mix(h ^ 2 ^ (*i as u64) << 8),
        Op::IdxName(i, v, f) => hb(h ^ 3 ^ (*i as u64) << 16 ^ (*f as u64) << 8, v),
        Op::Size(s) => crate::rng::mix(h ^ 4 ^ (*s as u64) << 8),
    }
}

// -------------------------------------------------- blocks by an arbitrary RFC 7541 encoder

/// One representation written by a conformant encoder making random legal choices.
/// Updates the model of the sender's table.
pub fn legal_rep(r: &mut Rng, pool: &Pool, t: &mut RefTable, out: &mut Vec<u8>) -> Expect {
    let extra = |r: &mut Rng, prefix: u32, v: u64| -> usize {
        let mask = (1u64 << prefix) - 1;
        if v < mask || !r.chance(1, 6) {
            return 0;
        }
        let room = 5 - int_octets(prefix, v).min(5);
        if room == 0 {
            0
        } else {
            r.range(0, room as u64) as usize
        }
    };
    if r.chance(1, 4) {
        let i = index(r, t) as u64;
        let x = extra(r, 7, i);
        put_int(out, 0x80, 7, i, x);
        let (n, v) = t.get(i).unwrap();
        return Expect { kind: Kind::Indexed, header: Some((n.to_vec(), v.to_vec(), 0)) };
    }
    let kind = *r.pick(&[Kind::Incremental, Kind::Incremental, Kind::Incremental, Kind::Without, Kind::Never]);
    let (p, w) = kind.literal_prefix();
    let (n, v) = pool.pair(r, t);
    let string = |r: &mut Rng, out: &mut Vec<u8>, s: &[u8]| {
        let h = r.bool();
        let l = if h { crate::refhuff::encoded_len(s) } else { s.len() };
        let x = extra(r, 7, l as u64);
        put_str(out, s, h, x);
    };
    let mut v = v;
    let name = if r.chance(2, 5) {
        let i = index(r, t) as u64;
        let x = extra(r, w, i);
        put_int(out, p, w, i, x);
        let n = t.get(i).unwrap().0.to_vec();
        if r.chance(1, 6) {
            v = fitted(r, t, n.len()).unwrap_or(v);
        }
        n
    } else {
        out.push(p);
        string(r, out, &n);
        n
    };
    string(r, out, &v);
    if kind == Kind::Incremental {
        t.insert(&name, &v);
    }
    Expect { kind, header: Some((name, v, kind.mark())) }
}

pub fn legal_size(r: &mut Rng, t: &mut RefTable, limit: u64, out: &mut Vec<u8>) -> Expect {
    let s = if r.chance(1, 8) && t.max <= limit.min(MAX_SIZE5) { t.max } else { size_for(r, t, limit) as u64 };
    let room = 5 - int_octets(5, s).min(5);
    let x = if s >= 31 && room > 0 && r.chance(1, 5) { r.range(0, room as u64) as usize } else { 0 };
    put_int(out, 0x20, 5, s, x);
    t.set_max(s);
    Expect { kind: Kind::SizeUpdate, header: None }
}
