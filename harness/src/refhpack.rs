//! Reference HPACK (RFC 7541): tables, every legal encoding, and a decoder that
//! reports, for input that is not valid, the set of faults that apply.

use crate::refhuff;
use std::cell::Cell;
use std::collections::VecDeque;

pub const STATIC: [(&str, &str); 61] = [
    (":authority", ""), (":method", "GET"), (":method", "POST"), (":path", "/"), (":path", "/index.html"),
    (":scheme", "http"), (":scheme", "https"), (":status", "200"), (":status", "204"), (":status", "206"),
    (":status", "304"), (":status", "400"), (":status", "404"), (":status", "500"), ("accept-charset", ""),
    ("accept-encoding", "gzip, deflate"), ("accept-language", ""), ("accept-ranges", ""), ("accept", ""),
    ("access-control-allow-origin", ""), ("age", ""), ("allow", ""), ("authorization", ""), ("cache-control", ""),
    ("content-disposition", ""), ("content-encoding", ""), ("content-language", ""), ("content-length", ""),
    ("content-location", ""), ("content-range", ""), ("content-type", ""), ("cookie", ""), ("date", ""),
    ("etag", ""), ("expect", ""), ("expires", ""), ("from", ""), ("host", ""), ("if-match", ""),
    ("if-modified-since", ""), ("if-none-match", ""), ("if-range", ""), ("if-unmodified-since", ""),
    ("last-modified", ""), ("link", ""), ("location", ""), ("max-forwards", ""), ("proxy-authenticate", ""),
    ("proxy-authorization", ""), ("range", ""), ("referer", ""), ("refresh", ""), ("retry-after", ""),
    ("server", ""), ("set-cookie", ""), ("strict-transport-security", ""), ("transfer-encoding", ""),
    ("user-agent", ""), ("vary", ""), ("via", ""), ("www-authenticate", ""),
];

pub type Pair = (Vec<u8>, Vec<u8>);

#[derive(Clone, PartialEq, Debug)]
pub struct RefTable {
    pub dynamic: VecDeque<Pair>, // newest first
    pub size: u64,
    pub max: u64,
    pub touched: Cell<u64>, // position the generator used last; no part of the model
}

impl RefTable {
    pub fn new(max: u64) -> RefTable {
        RefTable { dynamic: VecDeque::new(), size: 0, max, touched: Cell::new(0) }
    }
    pub fn len(&self) -> u64 {
        61 + self.dynamic.len() as u64
    }
    pub fn get(&self, i: u64) -> Option<(&[u8], &[u8])> {
        if i == 0 {
            None
        } else if i <= 61 {
            let e = &STATIC[i as usize - 1];
            Some((e.0.as_bytes(), e.1.as_bytes()))
        } else {
            self.dynamic.get((i - 62) as usize).map(|e| (&e.0[..], &e.1[..]))
        }
    }
    fn evict(&mut self) {
        while self.size > self.max {
            let e = self.dynamic.pop_back().expect("size of an empty table is zero");
            self.size -= 32 + e.0.len() as u64 + e.1.len() as u64;
        }
    }
    pub fn insert(&mut self, n: &[u8], v: &[u8]) {
        self.size += 32 + n.len() as u64 + v.len() as u64;
        self.dynamic.push_front((n.to_vec(), v.to_vec()));
        self.evict();
    }
    pub fn set_max(&mut self, m: u64) {
        self.max = m;
        self.evict();
    }
    pub fn full_match(&self, n: &[u8], v: &[u8]) -> bool {
        (1..=61).any(|i| self.get(i).unwrap() == (n, v)) || self.dynamic.iter().any(|e| e.0 == n && e.1 == v)
    }
    pub fn name_match(&self, n: &[u8]) -> bool {
        STATIC.iter().any(|e| e.0.as_bytes() == n) || self.dynamic.iter().any(|e| e.0 == n)
    }
}

/// Prefixed integer; `extra` adds octets beyond the shortest form (only possible when
/// the prefix is saturated).
pub fn put_int(out: &mut Vec<u8>, flags: u8, prefix: u32, value: u64, extra: usize) {
    let mask = (1u64 << prefix) - 1;
    if value < mask {
        out.push(flags | value as u8);
        return;
    }
    out.push(flags | mask as u8);
    let mut v = value - mask;
    while v >= 128 {
        out.push(0x80 | (v & 0x7f) as u8);
        v >>= 7;
    }
    if extra == 0 {
        out.push(v as u8);
    } else {
        out.push(0x80 | v as u8);
        for _ in 1..extra {
            out.push(0x80);
        }
        out.push(0);
    }
}

/// Octets of the shortest form.
pub fn int_octets(prefix: u32, value: u64) -> usize {
    let mut v = vec![];
    put_int(&mut v, 0, prefix, value, 0);
    v.len()
}

pub fn put_str(out: &mut Vec<u8>, s: &[u8], huff: bool, extra: usize) {
    if huff {
        let h = refhuff::encode(s);
        put_int(out, 0x80, 7, h.len() as u64, extra);
        out.extend_from_slice(&h);
    } else {
        put_int(out, 0, 7, s.len() as u64, extra);
        out.extend_from_slice(s);
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Indexed,
    Incremental,
    Without,
    Never,
    SizeUpdate,
}

impl Kind {
    pub fn literal_prefix(self) -> (u8, u32) {
        match self {
            Kind::Incremental => (0x40, 6),
            Kind::Without => (0x00, 4),
            Kind::Never => (0x10, 4),
            _ => unreachable!(),
        }
    }
    pub fn mark(self) -> u8 {
        match self {
            Kind::Incremental => 4,
            Kind::Never => 8,
            _ => 0,
        }
    }
}

pub const F_UNDER: u8 = 1;
pub const F_OVER: u8 = 2;
pub const F_INDEX: u8 = 4;
pub const F_HUFF: u8 = 8;
pub const F_SIZE: u8 = 16;

pub fn fault_of(err: &str) -> u8 {
    match err {
        "IntegerUnderflow" => F_UNDER,
        "IntegerOverflow" => F_OVER,
        "InvalidIndex" => F_INDEX,
        "InvalidInput" => F_HUFF,
        "InvalidMaxDynamicSize" => F_SIZE,
        _ => 0,
    }
}

pub fn fault_names(f: u8) -> String {
    let mut v = vec![];
    for (b, n) in [(F_UNDER, "IntegerUnderflow"), (F_OVER, "IntegerOverflow"), (F_INDEX, "InvalidIndex"), (F_HUFF, "InvalidInput"), (F_SIZE, "InvalidMaxDynamicSize")] {
        if f & b != 0 {
            v.push(n);
        }
    }
    v.join(" or ")
}

pub enum Step {
    Ok { used: usize, kind: Kind, header: Option<(Vec<u8>, Vec<u8>, u8)> },
    Bad(u8),
}

fn int(buf: &[u8], prefix: u32) -> Result<(u64, usize), u8> {
    let mask = (1u64 << prefix) - 1;
    let b = *buf.first().ok_or(F_UNDER)? as u64 & mask;
    if b < mask {
        return Ok((b, 1));
    }
    let mut v = mask;
    for k in 1..5 {
        let x = *buf.get(k).ok_or(F_UNDER)?;
        v += ((x & 0x7f) as u64) << (7 * (k - 1));
        if x < 128 {
            return Ok((v, k + 1));
        }
    }
    // five octets and still continuing: whatever comes next, it is longer than that
    Err(F_OVER)
}

#[derive(Clone)]
pub struct RefDecoder {
    pub table: RefTable,
    pub limit: u64,
}

impl RefDecoder {
    pub fn new(max: u64) -> RefDecoder {
        RefDecoder { table: RefTable::new(max), limit: max }
    }

    fn string(buf: &[u8], faults: &mut u8) -> Result<(Vec<u8>, usize), u8> {
        let (len, k) = int(buf, 7)?;
        if len > (buf.len() - k) as u64 {
            return Err(F_UNDER);
        }
        let raw = &buf[k..k + len as usize];
        let s = if buf[0] & 0x80 != 0 {
            match refhuff::decode(raw) {
                Some(s) => s,
                None => {
                    *faults |= F_HUFF;
                    vec![]
                }
            }
        } else {
            raw.to_vec()
        };
        Ok((s, k + len as usize))
    }

    /// Decode the representation at the front of `buf` (not empty).
    pub fn step(&mut self, buf: &[u8]) -> Step {
        match self.parse(buf) {
            Ok((used, kind, header, size)) => {
                if let Some(s) = size {
                    self.table.set_max(s);
                }
                if kind == Kind::Incremental {
                    let h = header.as_ref().unwrap();
                    self.table.insert(&h.0, &h.1);
                }
                Step::Ok { used, kind, header }
            }
            Err(f) => Step::Bad(f),
        }
    }

    #[allow(clippy::type_complexity)]
    fn parse(&self, buf: &[u8]) -> Result<(usize, Kind, Option<(Vec<u8>, Vec<u8>, u8)>, Option<u64>), u8> {
        let b = buf[0];
        if b & 0x80 != 0 {
            let (i, k) = int(buf, 7)?;
            let (n, v) = self.table.get(i).ok_or(F_INDEX)?;
            return Ok((k, Kind::Indexed, Some((n.to_vec(), v.to_vec(), 0)), None));
        }
        if b & 0xe0 == 0x20 {
            let (s, k) = int(buf, 5)?;
            if s > self.limit {
                return Err(F_SIZE);
            }
            return Ok((k, Kind::SizeUpdate, None, Some(s)));
        }
        let kind = if b & 0x40 != 0 {
            Kind::Incremental
        } else if b & 0x10 != 0 {
            Kind::Never
        } else {
            Kind::Without
        };
        let mut faults = 0u8;
        let (i, mut k) = int(buf, kind.literal_prefix().1)?;
        let name = if i == 0 {
            let (s, n) = Self::string(&buf[k..], &mut faults).map_err(|f| f | faults)?;
            k += n;
            s
        } else {
            match self.table.get(i) {
                Some((n, _)) => n.to_vec(),
                None => {
                    faults |= F_INDEX;
                    vec![]
                }
            }
        };
        let (value, n) = Self::string(&buf[k..], &mut faults).map_err(|f| f | faults)?;
        k += n;
        if faults != 0 {
            return Err(faults);
        }
        Ok((k, kind, Some((name, value, kind.mark())), None))
    }
}
