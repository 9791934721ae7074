//! Protocol Buffers monitors P01..P07.

use crate::gen::{relatives, content, lengths, lengths_to, Base, SHARES};
use crate::refproto::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::*;
use crate::{ensure, fail};
use httlib_protos::{DecoderLit as DL, Encoder, Typ};
use std::io::{self, Write};

const fn st(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: false }
}
const fn ex(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: true }
}

const ERRORS: [&str; 4] = ["InvalidInput", "InvalidTag", "InputUnderflow", "Interrupted"];

fn short(v: &Val) -> String {
    let mut s = format!("{:?}", v);
    if s.len() > 160 {
        let mut k = 160;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
        s.push_str("..");
    }
    s
}

// ---------------------------------------------------------------- P01

fn p01_seq(c: &mut Case, vals: Vec<(u32, Val)>) -> R {
    let mut wire = vec![];
    for (t, v) in &vals {
        let form = c.rng.below(3);
        let r = v.put(form, *t, &mut wire)?;
        ensure!(r.is_ok(), "encoding field {} {} failed: {:?}", t, short(v), r);
    }
    let total = wire.len();
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = wire.clone();
    let r = d.feed(&mut buf, &mut got)?;
    ensure!(r == Ok(total), "decoding {} fields ({} bytes: {}) returned {:?}", vals.len(), total, hex(&wire), r);
    ensure!(got.len() == vals.len(), "{} fields encoded but {} decoded from {}", vals.len(), got.len(), hex(&wire));
    let mut h = 0;
    for (k, ((t, v), (gt, gy, raw))) in vals.iter().zip(got).enumerate() {
        ensure!(gt == *t, "field {} was written with tag {} and came back with tag {}", k, t, gt);
        ensure!(wire_no(gy) == Some(v.wire()), "field {} (tag {}) of wire type {} came back as {:?}", k, t, v.wire(), gy);
        h = hash_bytes(h ^ (*t as u64), &raw);
        let shown = hex(&raw);
        ensure!(v.same_when_read(raw)?, "field {} (tag {}) {} does not come back: raw value {}", k, t, short(v), shown);
        c.count("fields round-tripped", 1);
    }
    if vals.len() > 0 {
        c.distinct(h);
    }
    c.sample(|| vals.iter().map(|(t, v)| format!("{}:{}", t, short(v))).collect::<Vec<_>>().join(", "));
    Ok(())
}
fn p01_random(c: &mut Case) -> R {
    let n = match c.rng.below(6) {
        0 => 0,
        1 => 1,
        2..=4 => c.rng.range(2, 12),
        _ => c.rng.range(10, 60),
    };
    let vals = (0..n).map(|_| (tag(&mut c.rng), Val::random(&mut c.rng))).collect();
    p01_seq(c, vals)
}
fn p01_kinds(c: &mut Case) -> R {
    // every kind alone, then followed by every other kind (empty values in the middle matter)
    let k = c.idx % KINDS;
    for j in 0..KINDS {
        let a = Val::of_kind(k, &mut c.rng);
        let b = Val::of_kind(j, &mut c.rng);
        let e = a.default_of();
        let (t1, t2) = (tag(&mut c.rng), tag(&mut c.rng));
        p01_seq(c, vec![(t1, a), (t2, e.clone()), (t1, b), (t2, e)])?;
        c.count("kind pairs", 1);
    }
    c.evals(KINDS);
    Ok(())
}
fn p01_tags(c: &mut Case) -> R {
    // every boundary of the key varint, for one kind of each wire type
    let kinds = [1u64, 5, 9, 0, 4, 11, 13, 17, 25];
    for b in 0..29u32 {
        for d in [-1i64, 0, 1] {
            let t = (1i64 << b) + d;
            if t < 1 || t > (1 << 29) - 1 {
                continue;
            }
            let k = kinds[(c.idx as usize + b as usize) % kinds.len()];
            let v = Val::of_kind(k, &mut c.rng);
            let w = Val::of_kind(kinds[c.idx as usize % kinds.len()], &mut c.rng);
            p01_seq(c, vec![(t as u32, v), ((1 << 29) - 1, w)])?;
        }
    }
    c.evals(85);
    Ok(())
}
fn p01_large(c: &mut Case) -> R {
    let n = *c.rng.pick(&[16383usize, 16384, 16385, 65536, 2097151, 2097152, 300_000]);
    let v = content(&mut c.rng, n);
    let m = n / 8;
    let list = match c.rng.below(4) {
        0 => Val::Fixed64Vec((0..m).map(|_| c.rng.u64()).collect()),
        1 => Val::SInt64Vec((0..m).map(|_| c.rng.u64() as i64).collect()),
        2 => Val::FloatVec((0..m).map(|_| f32::from_bits(c.rng.u32())).collect()),
        _ => Val::BoolVec((0..m).map(|_| c.rng.bool()).collect()),
    };
    c.max("largest payload", n as u64);
    p01_seq(c, vec![(7, Val::Bytes(v)), (8, list), (9, Val::Int32(-1))])
}
/// A payload and a list beyond the limits other libraries set.
fn p01_giant(c: &mut Case) -> R {
    set_cap(8 << 30);
    let n = if cfg!(miri) { 5000 } else { [(1usize << 27) + 1, (1 << 26) + 1, (1 << 28) + 1][c.idx as usize % 3] };
    let mut b = c.rng.bytes(n.min(1 << 16));
    while b.len() < n {
        let k = b.len().min(n - b.len());
        b.extend_from_within(..k);
    }
    let v = match c.idx % 2 {
        0 => Val::Bytes(b),
        _ => Val::Fixed64Vec(b.chunks_exact(8).map(|x| u64::from_le_bytes(x.try_into().unwrap())).collect()),
    };
    let w = Val::Int32(-1);
    let mut wire = vec![];
    v.put(c.idx, 7, &mut wire)?.map_err(|e| Fail(format!("encoding {} bytes: {}", n, e)))?;
    w.put(c.idx, 8, &mut wire)?.map_err(|e| Fail(format!("encoding a field after {} bytes: {}", n, e)))?;
    let total = wire.len();
    set_cap(8 << 30);
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let r = d.feed(&mut wire, &mut got)?;
    ensure!(r == Ok(total), "decoding a field of {} bytes returned {:?}", n, r);
    ensure!(got.len() == 2 && got[0].0 == 7 && got[1].0 == 8, "a field of {} bytes and another came back as {} fields", n, got.len());
    let (last, first) = (got.pop().unwrap(), got.pop().unwrap());
    drop(wire);
    set_cap(8 << 30);
    ensure!(v.same_when_read(first.2)?, "a field of {} bytes does not come back", n);
    ensure!(w.same_when_read(last.2)?, "the field after {} bytes does not come back", n);
    c.max("largest payload", n as u64);
    c.distinct(mix(n as u64 ^ 81 << 40));
    Ok(())
}
/// Messages of many fields.
fn p01_many(c: &mut Case) -> R {
    let n = if c.idx % 60 == 59 { 66_000 } else { *c.rng.pick(&[100u64, 255, 256, 257, 300, 1000, 5000]) };
    let mut vals = vec![];
    let mut bytes = 0;
    while (vals.len() as u64) < n && (n > 60_000 || bytes < 60_000) {
        let v = Val::random(&mut c.rng);
        let k = v.raw().len();
        if k > if n > 60_000 { 3 } else { 40 } {
            continue;
        }
        bytes += k + 4;
        vals.push((tag(&mut c.rng), v));
    }
    c.max("most fields in a message", vals.len() as u64);
    p01_seq(c, vals)
}
/// Long lists of every kind.
fn p01_lists(c: &mut Case) -> R {
    let n = [129, 1000, 4097, 16385, 65_537][(c.idx / KINDS) as usize % 5];
    let v = Val::sized(c.idx % KINDS, n, &mut c.rng);
    c.max("longest list", n as u64);
    p01_seq(c, vec![(3, v), (4, Val::Bool(true))])
}
/// Lists of a million elements and more.
fn p01_long_lists(c: &mut Case) -> R {
    let v = million(c);
    p01_seq(c, vec![(3, v), (4, Val::Bool(true))])
}
fn million(c: &mut Case) -> Val {
    set_cap(4 << 30);
    let n = if cfg!(miri) { 300 } else { (1usize << 21) + 1 + c.rng.us(9) };
    c.max("longest list", n as u64);
    c.count("lists of millions", 1);
    Val::sized(2 * (c.idx % 14), n, &mut c.rng)
}
const CHARS: [char; 40] = [
    '\0', '\u{1}', '\t', '\n', '\r', '\u{b}', '\u{1b}', ' ', '"', '%', '\'', '/', '<', '\\', 'A', 'z', '{', '\u{7f}', '\u{80}', '\u{85}', '\u{a0}', '\u{df}', '\u{300}', '\u{7ff}', '\u{800}', '\u{200b}', '\u{200d}', '\u{2028}', '\u{202e}', '\u{3000}', '\u{d7ff}', '\u{e000}', '\u{fdd0}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10fffe}', '\u{10ffff}',
];
fn unicode(r: &mut Rng, n: usize) -> String {
    let odd = r.bool();
    let mut s: String = (0..n)
        .map(|_| match r.below(if odd { 8 } else { 5 }) {
            0 => char::from_u32(r.range(0x80, 0x7ff) as u32).unwrap(),
            1 => char::from_u32(r.range(0x800, 0xd7ff) as u32).unwrap(),
            2 => char::from_u32(r.range(0x10000, 0x10ffff) as u32).unwrap(),
            3..=4 => r.below(128) as u8 as char,
            _ => *r.pick(&CHARS),
        })
        .collect();
    // what a reader might be tempted to strip
    if n > 0 && r.chance(1, 3) {
        s.insert(0, *r.pick(&CHARS));
    }
    if n > 0 && r.chance(1, 3) {
        s.push(*r.pick(&CHARS));
    }
    s
}
fn p01_text(c: &mut Case) -> R {
    // strings travel as bytes
    let n = payload_len(&mut c.rng);
    let s = unicode(&mut c.rng, n);
    let t = tag(&mut c.rng);
    p01_seq(c, vec![(t, Val::Bytes(s.into_bytes())), (1, Val::Bool(true))])
}

/// Every list and payload length up to 520, in every kind.
fn p01_sizes(c: &mut Case) -> R {
    let n = c.idx as usize;
    for k in (0..KINDS).filter(|k| k % 2 == 0) {
        let v = Val::sized(k, n, &mut c.rng);
        p01_seq(c, vec![(1 + k as u32, v)])?;
    }
    c.count("list lengths", 1);
    c.evals(14);
    Ok(())
}

/// Payloads, lists, tags and messages of every length.
fn p01_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut m = vec![(1 + n as u32, Val::Bytes(base.take(n)))];
        if n <= 70_000 {
            m.push((4, Val::sized(2 * (n as u64 / SHARES[0] % 14), n, &mut c.rng)));
        }
        if n < 1500 {
            // so many fields
            m.extend((0..n).map(|i| (1 + i as u32 % 300, Val::UInt32(i as u32))));
        }
        p01_seq(c, m)?;
        c.count("lengths swept", 1);
        c.max("largest payload", n as u64);
    }
    Ok(())
}

/// Payloads and lists that resemble one another, in one message and in several.
fn p01_kin(c: &mut Case) -> R {
    let all = relatives(&mut c.rng, 60);
    let (mut near_tag, mut near_num) = (tag(&mut c.rng), c.rng.u64());
    let mut m = vec![];
    for s in all {
        let t = if c.rng.bool() { 1 } else { tag(&mut c.rng) };
        m.push((t, Val::Bytes(s.clone())));
        if s.len() % 8 == 0 {
            m.push((t, Val::UInt64Vec(s.chunks(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).collect())));
            m.push((t, Val::Double(f64::from_bits(u64::from_le_bytes(s[..8].try_into().unwrap())))));
        }
        m.push((t, Val::Int32Vec(s.iter().map(|b| *b as i32 - 100).collect())));
        c.count("related texts", 1);
        // tags and numbers that resemble the ones before in all but a bit
        near_tag = match c.rng.below(4) {
            0 => tag(&mut c.rng),
            _ => (near_tag ^ 1 << c.rng.below(29)).max(1),
        };
        near_num = if c.rng.chance(1, 6) { c.rng.u64() } else { near_num ^ 1 << c.rng.below(64) };
        let x = near_num;
        m.push((near_tag, match c.rng.below(8) {
            0 => Val::UInt64(x),
            1 => Val::Int64(x as i64),
            2 => Val::SInt64(x as i64),
            3 => Val::UInt32(x as u32),
            4 => Val::Int32(x as i32),
            5 => Val::SInt32(x as i32),
            6 => Val::Double(f64::from_bits(x)),
            _ => Val::Fixed64(x),
        }));
        if c.rng.chance(1, 4) {
            p01_seq(c, std::mem::take(&mut m))?;
        }
    }
    p01_seq(c, m)
}
fn p02_kin(c: &mut Case) -> R {
    for s in relatives(&mut c.rng, 60) {
        let t = if c.rng.bool() { 1 } else { tag(&mut c.rng) };
        p02_one(c, t, &Val::SInt32Vec(s.iter().map(|b| *b as i32 - 100).collect()))?;
        p02_one(c, t, &Val::Bytes(s))?;
        c.count("related texts", 1);
    }
    Ok(())
}
/// Raw values that resemble one another, converted one after another.
fn p03_kin(c: &mut Case) -> R {
    for b in relatives(&mut c.rng, 60) {
        let want = String::from_utf8(b.clone()).unwrap_or_default();
        let raw = b.clone();
        let s = sut("String::from(DecoderLit)", || String::from(DL::Bytes(raw)))?;
        ensure!(s == want, "after its relatives, the text {} reads as {}", hex(&b), hex(s.as_bytes()));
        let v = Val::UInt32Vec(b.iter().map(|x| *x as u32 * 3).collect());
        let raw = v.raw();
        ensure!(v.same_when_read(raw)?, "after its relatives, {} is not read back", short(&v));
        c.count("related texts", 1);
        c.distinct(hash_bytes(9, &b));
    }
    Ok(())
}

pub fn p01() -> Prop {
    Prop {
        id: "P01",
        rule: "one evaluation = one sequence of fields encoded by the real encoder (generic, per-kind or reference form), decoded by one call of the real decoder and converted back, compared bit for bit; all ordered pairs of kinds are covered; distinct and non-trivial: distinct non-empty messages",
        stages: vec![st("random", 40_000, 1_200_000, p01_random), st("kinds", 27 * 8, 27 * 400, p01_kinds), st("tags", 36, 900, p01_tags), st("text", 3_000, 60_000, p01_text), st("large", 16, 200, p01_large), st("giant", 2, 6, p01_giant), ex("million elements", 14, 28, p01_long_lists), st("many fields", 60, 1_500, p01_many), st("long lists", 27 * 5, 27 * 50, p01_lists), ex("list lengths", 521, 521, p01_sizes), ex("every length", SHARES[0], SHARES[1], p01_every), st("relatives", 150, 4500, p01_kin)],
        floors: vec![("fields round-tripped", 100_000), ("kind pairs", 729), ("list lengths", 521), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- P02

fn p02_one(c: &mut Case, t: u32, v: &Val) -> R {
    let want = v.canonical(t);
    let pre = match c.rng.below(1200) {
        0 => c.rng.bytes(70_000),
        1 => vec![7; *c.rng.pick(&[65_535usize, 65_536, 131_072, 1 << 20])],
        2..=9 => c.rng.bytes(3000),
        10..=600 => vec![0xde, 0xad],
        _ => vec![],
    };
    for form in 0..3 {
        let mut w = pre.clone();
        let r = v.put(form, t, &mut w)?;
        ensure!(r == Ok(want.len()), "encoding field {} {} ({} bytes, form {}) returned {:?}", t, short(v), want.len(), form, r);
        ensure!(w.len() >= pre.len() && w[..pre.len()] == pre[..], "encoding field {} changed bytes already in the output", t);
        ensure!(w[pre.len()..] == want[..], "field {} {} (form {}) encoded as {} but canonical proto3 is {}", t, short(v), form, hex(&w[pre.len()..]), hex(&want));
    }
    c.count("encodings compared", 3);
    c.distinct(hash_bytes(t as u64, &want));
    c.sample(|| format!("field {} {} -> {}", t, short(v), hex(&want)));
    Ok(())
}
fn p02_random(c: &mut Case) -> R {
    let t = tag(&mut c.rng);
    let v = Val::random(&mut c.rng);
    p02_one(c, t, &v)
}
fn p02_bits(c: &mut Case) -> R {
    // every bit boundary and its neighbours, for every varint kind, scalar and in a list
    let b = c.idx as u32;
    for d in -2i64..=2 {
        let u = (1u64 << b).wrapping_add(d as u64);
        for u in [u, u.wrapping_neg(), !u] {
            for v in [
                Val::Int32(u as i32), Val::Int64(u as i64), Val::UInt32(u as u32), Val::UInt64(u), Val::SInt32(u as i32), Val::SInt64(u as i64),
                Val::Fixed32(u as u32), Val::Fixed64(u), Val::SFixed32(u as i32), Val::SFixed64(u as i64), Val::Float(f32::from_bits(u as u32)), Val::Double(f64::from_bits(u)),
                Val::Int32Vec(vec![u as i32, 1]), Val::Int64Vec(vec![0, u as i64]), Val::UInt32Vec(vec![u as u32]), Val::UInt64Vec(vec![u, u]), Val::SInt32Vec(vec![u as i32, -1]), Val::SInt64Vec(vec![u as i64]),
                Val::Fixed32Vec(vec![u as u32]), Val::Fixed64Vec(vec![u]), Val::SFixed32Vec(vec![u as i32]), Val::SFixed64Vec(vec![u as i64]), Val::FloatVec(vec![f32::from_bits(u as u32)]), Val::DoubleVec(vec![f64::from_bits(u)]),
            ] {
                p02_one(c, 1 + b, &v)?;
            }
        }
    }
    c.count("bit boundaries", 1);
    c.evals(15 * 24);
    Ok(())
}
fn p02_lengths(c: &mut Case) -> R {
    // every small payload length, and the boundaries of the length varint
    let n = if c.idx < 300 { c.idx as usize } else { [16382, 16383, 16384, 16385, 2097150, 2097151, 2097152, 2097153][(c.idx - 300) as usize] };
    let v = Val::Bytes(content(&mut c.rng, n));
    p02_one(c, 3, &v)?;
    if n <= 20000 {
        let b: Vec<bool> = (0..n).map(|_| c.rng.bool()).collect();
        p02_one(c, 16, &Val::BoolVec(b))?;
        let m = n / 4;
        let l = (0..m).map(|_| c.rng.u32()).collect();
        p02_one(c, 2048, &Val::Fixed32Vec(l))?;
        let l = (0..m).map(|_| c.rng.spread64() as i64).collect();
        p02_one(c, 5, &Val::SInt64Vec(l))?;
    }
    c.count("payload lengths", 1);
    Ok(())
}
/// Long lists and payloads of every kind.
fn p02_long(c: &mut Case) -> R {
    let n = [129, 300, 1000, 4097, 8193, 16385, 65_537][(c.idx / KINDS) as usize % 7];
    let v = Val::sized(c.idx % KINDS, n, &mut c.rng);
    c.max("longest list", n as u64);
    let t = tag(&mut c.rng);
    p02_one(c, t, &v)
}
/// A payload whose length takes five bytes, written and read back.
fn p02_giant(c: &mut Case) -> R {
    set_cap(8 << 30);
    let n = [1usize << 28, (1 << 28) - 1, (1 << 28) + 1][c.idx as usize % 3];
    let v = Val::Bytes(vec![0x5a; n]);
    let head = [varint(key(5, 2)), varint(n as u64)].concat();
    let mut w = vec![];
    let r = v.put(c.idx, 5, &mut w)?;
    ensure!(r == Ok(head.len() + n), "encoding {} bytes returned {:?}", n, r);
    ensure!(w.len() == head.len() + n && w[..head.len()] == head[..] && w[head.len()..].iter().all(|&b| b == 0x5a), "{} bytes encoded as {} bytes {}..", n, w.len(), hex(&w[..w.len().min(12)]));
    drop(v);
    w.push(8); // and the next key
    let total = w.len();
    set_cap(8 << 30);
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let r = d.feed(&mut w, &mut got)?;
    ensure!(r == Ok(total), "decoding {} bytes returned {:?}", total, r);
    ensure!(got.len() == 1 && got[0].0 == 5 && got[0].2.len() == n, "{} bytes decoded as {} fields", n, got.len());
    c.max("largest payload", n as u64);
    c.distinct(mix(n as u64));
    Ok(())
}
/// Sees what is written without keeping it.
struct Seen {
    head: Vec<u8>,
    zeros: u64,
    other: u64,
}
impl std::io::Write for Seen {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let k = b.len().min(16usize.saturating_sub(self.head.len()));
        self.head.extend_from_slice(&b[..k]);
        for part in b[k..].chunks(1 << 16) {
            let n = part.iter().filter(|x| **x != 0).count() as u64;
            self.other += n;
            self.zeros += part.len() as u64 - n;
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
/// A payload longer than 32 bits can tell (the pages of it are never touched).
fn p02_beyond(c: &mut Case) -> R {
    if !roomy(26) {
        return Ok(());
    }
    patient(20);
    let n = [(1usize << 32) + 7, (1 << 31) + 7, 1 << 32][c.idx as usize % 3];
    let v = vec![0u8; n];
    let mut w = Seen { head: vec![], zeros: 0, other: 0 };
    set_cap(22 << 30);
    let r = sut("Encoder::encode_bytes", || httlib_protos::Encoder::default().encode_bytes(&5, &v, &mut w).map_err(|e| format!("{:?}", e)))?;
    let head = [varint(key(5, 2)), varint(n as u64)].concat();
    ensure!(r == Ok(head.len() + n), "encoding {} bytes returned {:?}", n, r);
    let want = [head.clone(), vec![0; 16 - head.len()]].concat();
    ensure!(w.head == want && w.other == 0 && w.zeros as usize + 16 == head.len() + n, "{} bytes are written as {} bytes {}..", n, w.zeros + w.other + 16, hex(&w.head));
    c.max("largest payload", n as u64);
    c.max("largest allocation of such a call (MiB)", (last_peak() >> 20) as u64);
    c.count("payloads beyond 31 bits", 1);
    Ok(())
}
fn p02_tags(c: &mut Case) -> R {
    let k = c.idx % KINDS;
    for b in 0..29u32 {
        for d in [-1i64, 0, 1] {
            let t = (1i64 << b) + d;
            if (1..(1 << 29)).contains(&t) {
                let v = Val::of_kind(k, &mut c.rng);
                p02_one(c, t as u32, &v)?;
            }
        }
    }
    p02_one(c, Encoder::TAG_MAX, &Val::of_kind(k, &mut Rng::new(c.idx)))?;
    p02_one(c, Encoder::TAG_MIN, &Val::of_kind(k, &mut Rng::new(c.idx)))?;
    ensure!(Encoder::TAG_MIN == 1 && Encoder::TAG_MAX == (1 << 29) - 1, "the advertised tag range is {}..={}", Encoder::TAG_MIN, Encoder::TAG_MAX);
    c.count("kinds with all tag boundaries", 1);
    c.evals(87);
    Ok(())
}

/// Every list and payload length up to 520, in every kind.
fn p02_sizes(c: &mut Case) -> R {
    for k in (0..KINDS).filter(|k| k % 2 == 0) {
        let v = Val::sized(k, c.idx as usize, &mut c.rng);
        p02_one(c, 16 + k as u32, &v)?;
    }
    c.count("list lengths", 1);
    c.evals(14);
    Ok(())
}
/// Every integer from -1200 to 1200, scalar and in a list.
fn p02_small(c: &mut Case) -> R {
    for x in (c.idx as i64 * 24 - 1200)..(c.idx as i64 * 24 - 1200 + 25) {
        let u = x as u64;
        for v in [
            Val::Int32(x as i32), Val::Int64(x), Val::UInt32(u as u32), Val::UInt64(u), Val::SInt32(x as i32), Val::SInt64(x),
            Val::Fixed32(u as u32), Val::Fixed64(u), Val::SFixed32(x as i32), Val::SFixed64(x), Val::Float(x as f32), Val::Double(x as f64),
            Val::Int32Vec(vec![x as i32, 1]), Val::Int64Vec(vec![x]), Val::UInt32Vec(vec![u as u32]), Val::UInt64Vec(vec![0, u]), Val::SInt32Vec(vec![x as i32, 0]), Val::SInt64Vec(vec![x]),
        ] {
            p02_one(c, 1 + (u % 40) as u32, &v)?;
        }
        c.count("small integers", 1);
    }
    c.evals(25 * 18);
    Ok(())
}

/// Payloads, lists and tags of every length or number.
fn p02_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        p02_one(c, 3, &Val::Bytes(base.take(n)))?;
        let v = Val::sized(1 + 2 * c.rng.below(13), 0, &mut c.rng);
        p02_one(c, 1 + n as u32, &v)?;
        if n <= 70_000 {
            let v = Val::sized(2 * (n as u64 / SHARES[0] % 14), n, &mut c.rng);
            p02_one(c, 4, &v)?;
        }
        c.count("lengths swept", 1);
        c.max("largest payload", n as u64);
    }
    Ok(())
}

pub fn p02() -> Prop {
    Prop {
        id: "P02",
        rule: "one evaluation = one field encoded by the real library in its three call forms, each compared byte for byte (and by returned count) with an independent canonical encoder; bit boundaries, tag boundaries per kind and payload lengths 0..300 are enumerated; distinct: by tag and encoding",
        stages: vec![ex("bits", 64, 64, p02_bits), ex("lengths", 308, 308, p02_lengths), ex("tags", 27, 27, p02_tags), ex("list lengths", 521, 521, p02_sizes), ex("every length", SHARES[0], SHARES[1], p02_every), st("relatives", 100, 3000, p02_kin), ex("small values", 100, 100, p02_small), ex("giant", 1, 3, p02_giant), ex("beyond 32 bits", 1, 3, p02_beyond), st("long lists", 27 * 7, 27 * 70, p02_long), st("random", 80_000, 2_500_000, p02_random)],
        floors: vec![("encodings compared", 200_000), ("bit boundaries", 64), ("payload lengths", 308), ("list lengths", 521), ("small integers", 2500), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- P03

fn p03_message(c: &mut Case) -> R {
    let m = message(&mut c.rng, 16);
    p03_check(c, &m)
}
fn p03_many(c: &mut Case) -> R {
    let n = *c.rng.pick(&[1_000usize, 8_000, 30_000, 60_000]);
    let m = many(&mut c.rng, n);
    c.max("most fields in a message", m.len() as u64);
    p03_check(c, &m)
}
/// Long packed lists of padded varints, and long fixed-width lists.
fn p03_long(c: &mut Case) -> R {
    let n = *c.rng.pick(&[127usize, 129, 255, 257, 1000, 4097, 20_000, 66_000]);
    let us: Vec<u64> = (0..n).map(|_| c.rng.spread64()).collect();
    let mut raw = vec![];
    for &u in &us {
        let m = varint(u).len() as u64;
        raw.extend(if c.rng.chance(1, 8) { padded(u, c.rng.range(m, 10) as usize) } else { varint(u) });
    }
    for k in [2u64, 4, 6, 8, 10, 18] {
        let want = list_from_varints(k, &us);
        ensure!(want.same_when_read(raw.clone())?, "packed list of {} varints ({} bytes) does not give {}", n, raw.len(), short(&want));
        c.count("lists converted", 1);
    }
    for k in 0..KINDS {
        let v = Val::sized(k, n, &mut c.rng);
        ensure!(v.same_when_read(v.raw())?, "raw value of {} elements does not give {}", n, short(&v));
    }
    c.max("longest list", n as u64);
    c.distinct(hash_bytes(6, &raw));
    Ok(())
}
fn p03_check(c: &mut Case, m: &[Field]) -> R {
    let wire = wire_of(m);
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let pre = c.rng.chance(1, 3);
    if pre {
        got.push((5, Typ::Varint, vec![1]));
    }
    let mut buf = wire.clone();
    let r = d.feed(&mut buf, &mut got)?;
    if pre {
        ensure!(!got.is_empty() && got[0] == (5, Typ::Varint, vec![1]), "decode changed a field already in the output");
        got.remove(0);
    }
    ensure!(r == Ok(wire.len()), "decoding the well-formed message {} returned {:?} instead of Ok({})", hex(&wire), r, wire.len());
    same_fields(&got, m, &format!("message {}", hex(&wire)))?;
    c.count("fields read", m.len() as u64);
    c.count("padded or empty fields", m.iter().filter(|f| f.raw.is_empty() || f.bytes.len() > varint(key(f.tag, f.wire)).len() + if f.wire == 2 { varint(f.raw.len() as u64).len() } else { 0 } + f.raw.len()).count() as u64);
    if !m.is_empty() {
        c.distinct(hash_bytes(1, &wire));
    }
    c.sample(|| format!("message {}", hex(&wire)));
    Ok(())
}
fn p03_shapes(c: &mut Case) -> R {
    // empty and tiny values at every position between fields of every wire type
    let wires = [0u32, 1, 2, 5];
    let i = c.idx as usize;
    let mk = |w: u32, t: u32, n: usize| {
        let raw = match w {
            0 => vec![n as u8],
            1 => vec![n as u8; 8],
            5 => vec![n as u8; 4],
            _ => vec![n as u8; n],
        };
        let mut bytes = varint(key(t, w));
        if w == 2 {
            bytes.extend(varint(n as u64));
        }
        bytes.extend(&raw);
        Field { tag: t, wire: w, raw, bytes }
    };
    for n in 0..3 {
        let m = [mk(wires[i % 4], 1, n), mk(2, 2, 0), mk(wires[i / 4 % 4], 3, n), mk(2, 4, 0), mk(2, 4, 0), mk(wires[i / 16 % 4], (1 << 29) - 1, n)];
        for k in 0..=m.len() {
            p03_check(c, &m[..k])?;
        }
        for k in 0..m.len() {
            p03_check(c, &m[k..])?;
        }
    }
    c.evals(39);
    Ok(())
}
/// Padded varints of every width in every position.
fn p03_padded(c: &mut Case) -> R {
    let w = c.idx as usize + 1;
    for v in [0u64, 1, 5, 127, 128, 300, 16384] {
        if varint(v).len() > w {
            continue;
        }
        let raw = padded(v, w);
        let mut bytes = padded(key(1, 0), w);
        bytes.extend(&raw);
        let f = Field { tag: 1, wire: 0, raw, bytes };
        let mut bytes = padded(key(2, 2), w);
        bytes.extend(padded(v, w));
        let raw = vec![0x11; v as usize];
        bytes.extend(&raw);
        let g = Field { tag: 2, wire: 2, raw, bytes };
        p03_check(c, &[f, g])?;
        c.count("padded varint widths", 1);
    }
    let max = Field { tag: 3, wire: 0, raw: varint(u64::MAX), bytes: [varint(key(3, 0)), varint(u64::MAX)].concat() };
    p03_check(c, &[max])?;
    c.evals(8);
    Ok(())
}
fn p03_convert(c: &mut Case) -> R {
    // typed interpretation of arbitrary well-formed raw values
    let u = c.rng.spread64();
    let n = varint(u).len() as u64;
    let raw = if c.rng.chance(1, 3) { padded(u, c.rng.range(n, 10) as usize) } else { varint(u) };
    for k in [1u64, 3, 5, 7, 9, 15, 17] {
        if k == 15 && u > u32::MAX as u64 {
            continue; // proto3 leaves sint32 of a wider varint open
        }
        let want = from_varint(k, u);
        ensure!(want.same_when_read(raw.clone())?, "raw varint {} ({}) read as {} does not give {:?}", hex(&raw), u, ["", "bool", "", "int32", "", "int64", "", "uint32", "", "uint64", "", "", "", "", "", "sint32", "", "sint64"][k as usize], want);
        c.count("scalars converted", 1);
    }
    // packed lists of padded varints
    let m = c.rng.us(9);
    let mut us = vec![];
    let mut raw = vec![];
    let narrow = c.rng.bool();
    for _ in 0..m {
        let u = if narrow { c.rng.spread64() & 0xffff_ffff } else { c.rng.spread64() };
        let n = varint(u).len() as u64;
        raw.extend(if c.rng.chance(1, 4) { padded(u, c.rng.range(n, 10) as usize) } else { varint(u) });
        us.push(u);
    }
    for k in [2u64, 4, 6, 8, 10, 16, 18] {
        if k == 16 && us.iter().any(|&u| u > u32::MAX as u64) {
            continue;
        }
        let want = list_from_varints(k, &us);
        ensure!(want.same_when_read(raw.clone())?, "packed raw {} does not give {}", hex(&raw), short(&want));
        c.count("lists converted", 1);
    }
    c.distinct(hash_bytes(3, &raw) ^ u);
    Ok(())
}
fn p03_malformed(c: &mut Case) -> R {
    // raw data that cannot be read as the kind: the default
    let k = c.rng.below(KINDS);
    let v = Val::of_kind(k, &mut c.rng);
    let def = v.default_of();
    let raw: Vec<u8>;
    let r = &mut c.rng;
    let elems = match r.below(24) {
        0..=15 => r.us(5),
        16..=20 => r.us(40),
        21..=22 => r.us(300),
        _ => r.us(3000),
    };
    match &v {
        Val::Bytes(_) => {
            // invalid UTF-8 as a string
            let mut b = content(r, 5);
            b.push(0xff);
            let b2 = b.clone();
            let s = sut("String::from(DecoderLit)", || String::from(DL::Bytes(b)))?;
            ensure!(s.is_empty(), "bytes {} are not UTF-8 but read as the string {:?}", hex(&b2), s);
            c.count("malformed conversions", 1);
            return Ok(());
        }
        _ if v.wire() == 0 => {
            // empty, or cut inside a varint, or longer than ten bytes
            raw = match r.below(3) {
                0 => vec![],
                1 => vec![0x80 | r.u8(); r.range(1, 9) as usize],
                _ => {
                    let mut b = vec![0x80 | r.u8(); r.range(10, 14) as usize];
                    b.push(1);
                    b
                }
            };
        }
        _ if v.wire() == 1 => raw = r.bytes(7)[..r.range(0, 7) as usize].to_vec(),
        _ if v.wire() == 5 => raw = r.bytes(3)[..r.range(0, 3) as usize].to_vec(),
        Val::FloatVec(_) | Val::Fixed32Vec(_) | Val::SFixed32Vec(_) => {
            let n = 4 * elems + r.range(1, 3) as usize;
            raw = r.bytes(n);
        }
        Val::DoubleVec(_) | Val::Fixed64Vec(_) | Val::SFixed64Vec(_) => {
            let n = 8 * elems + r.range(1, 7) as usize;
            raw = r.bytes(n);
        }
        _ => {
            // varint lists whose last element is cut or overlong
            let mut b: Vec<u8> = (0..elems).flat_map(|_| varint(r.spread64())).collect();
            if r.bool() {
                b.extend(vec![0x80 | r.u8(); r.range(1, 9) as usize]);
            } else {
                b.extend(vec![0xff; 10]);
                b.push(1);
                if r.bool() {
                    b.push(3);
                }
                if r.chance(1, 3) {
                    // in the middle of the list
                    let n = r.us(elems + 2);
                    b.extend((0..n).flat_map(|_| varint(r.spread64())));
                }
            }
            raw = b;
        }
    }
    let shown = hex(&raw[..raw.len().min(4000)]);
    c.max("longest malformed raw value", raw.len() as u64);
    ensure!(def.same_when_read(raw)?, "malformed raw data {} read like {} does not give the default", shown, short(&def));
    c.count("malformed conversions", 1);
    c.distinct(hash_bytes(4 + k, shown.as_bytes()));
    c.sample(|| format!("{} as the kind of {} -> default", shown, short(&def)));
    Ok(())
}
/// Text: exactly the bytes if they are UTF-8, the empty string if they are not.
fn p03_text(c: &mut Case) -> R {
    let n = match c.rng.below(8) {
        0 => c.rng.us(3),
        1..=5 => c.rng.us(30),
        6 => c.rng.us(400),
        _ => c.rng.us(4000),
    };
    let mut b = unicode(&mut c.rng, n).into_bytes();
    let bad = c.rng.bool();
    if bad {
        let r = &mut c.rng;
        let cut = r.us(b.len() + 1);
        let junk: &[u8] = *r.pick(&[
            &[0x80u8][..], &[0xbf], &[0xc0, 0x80], &[0xc1, 0xbf], &[0xc2], &[0xe0, 0x80, 0x80], &[0xe0, 0xa0], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xef, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x90, 0x80],
            &[0xf4, 0x90, 0x80, 0x80], &[0xf5, 0x80, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xfe], &[0xff], &[0xff, 0xfe],
        ]);
        b.splice(cut..cut, junk.iter().copied());
    }
    let want = String::from_utf8(b.clone()).ok();
    let raw = b.clone();
    let s = sut("String::from(DecoderLit)", || String::from(DL::Bytes(raw)))?;
    match &want {
        Some(w) => ensure!(s == *w, "the text {} reads as {}", hex(&b), hex(s.as_bytes())),
        None => ensure!(s.is_empty(), "bytes {} are not UTF-8 but read as the string {:?}", hex(&b), s),
    }
    let raw = b.clone();
    let v = sut("Vec<u8>::from(DecoderLit)", || Vec::<u8>::from(DL::Bytes(raw)))?;
    ensure!(v == b, "the bytes {} read as {}", hex(&b), hex(&v));
    c.count(if want.is_some() { "texts converted" } else { "malformed conversions" }, 1);
    c.distinct(hash_bytes(7, &b));
    Ok(())
}
fn p03_mismatch(c: &mut Case) -> R {
    // a value asked for as a target type its kind does not have: the default
    let b = match c.rng.below(3) {
        0 => vec![1],
        1 => vec![1; 8],
        _ => {
            let n = c.rng.range(1, 16) as usize;
            c.rng.bytes(n)
        }
    };
    let mut n = 0;
    macro_rules! never {
        (@ $t:ty, $zero:expr, $own:expr, $($k:ident)*) => {$(
            if !$own.contains(&stringify!($k)) {
                let raw = b.clone();
                let got = sut("protos DecoderLit conversion", || <$t>::from(DL::$k(raw)))?;
                ensure!(got == $zero, "{} read through DecoderLit::{} as {} gives {:?} instead of the default", hex(&b), stringify!($k), stringify!($t), got);
                n += 1;
            }
        )*};
        ($t:ty, $zero:expr, [$($own:ident)*]) => {
            never!(@ $t, $zero, [$(stringify!($own)),*], Bytes Bool BoolVec Int32 Int32Vec Int64 Int64Vec UInt32 UInt32Vec UInt64 UInt64Vec Float FloatVec Double DoubleVec SInt32 SInt32Vec SInt64 SInt64Vec Fixed32 Fixed32Vec Fixed64 Fixed64Vec SFixed32 SFixed32Vec SFixed64 SFixed64Vec)
        };
    }
    never!(bool, false, [Bool]);
    never!(Vec<bool>, Vec::<bool>::new(), [BoolVec]);
    never!(i32, 0, [Int32 SInt32 SFixed32]);
    never!(Vec<i32>, Vec::<i32>::new(), [Int32Vec SInt32Vec SFixed32Vec]);
    never!(i64, 0, [Int64 SInt64 SFixed64]);
    never!(Vec<i64>, Vec::<i64>::new(), [Int64Vec SInt64Vec SFixed64Vec]);
    never!(u32, 0, [UInt32 Fixed32]);
    never!(Vec<u32>, Vec::<u32>::new(), [UInt32Vec Fixed32Vec]);
    never!(u64, 0, [UInt64 Fixed64]);
    never!(Vec<u64>, Vec::<u64>::new(), [UInt64Vec Fixed64Vec]);
    never!(f32, 0.0, [Float]);
    never!(Vec<f32>, Vec::<f32>::new(), [FloatVec]);
    never!(f64, 0.0, [Double]);
    never!(Vec<f64>, Vec::<f64>::new(), [DoubleVec]);
    never!(Vec<u8>, Vec::<u8>::new(), [Bytes]);
    never!(String, String::new(), [Bytes]);
    c.count("mismatched conversions", n);
    c.evals(n);
    c.distinct(hash_bytes(5, &b));
    Ok(())
}

/// Payloads of every length up to 1050 and around the boundaries of the length varint,
/// and raw lists of every length up to 520.
fn p03_sizes(c: &mut Case) -> R {
    let i = c.idx as usize;
    let n = if i <= 1050 { i } else { [16_382, 16_383, 16_384, 16_385, 65_535, 65_536, 65_537, 131_072, 2_097_151, 2_097_152, 2_097_153][i - 1051] };
    let raw = content(&mut c.rng, n);
    let mut bytes = varint(key(11, 2));
    let w = varint(n as u64).len() as u64;
    bytes.extend(if c.rng.bool() { padded(n as u64, c.rng.range(w, 10) as usize) } else { varint(n as u64) });
    bytes.extend(&raw);
    let m = [Field { tag: 11, wire: 2, raw, bytes }, field(&mut c.rng)];
    p03_check(c, &m)?;
    c.max("largest payload", n as u64);
    c.count("payload lengths", 1);
    if i <= 520 {
        for k in (0..KINDS).filter(|k| k % 2 == 0) {
            let v = Val::sized(k, n, &mut c.rng);
            ensure!(v.same_when_read(v.raw())?, "a raw value of {} elements does not give {}", n, short(&v));
        }
    }
    Ok(())
}

fn ld(tag: u32, raw: Vec<u8>) -> Field {
    let mut bytes = varint(key(tag, 2));
    bytes.extend(varint(raw.len() as u64));
    bytes.extend(&raw);
    Field { tag, wire: 2, raw, bytes }
}
fn p03_long_lists(c: &mut Case) -> R {
    let v = million(c);
    let raw = v.raw();
    set_cap(4 << 30);
    c.distinct(hash_bytes(84 << 40 | c.idx, &raw[..4096.min(raw.len())]));
    ensure!(v.same_when_read(raw)?, "a raw value of millions of elements does not give {}", short(&v));
    Ok(())
}
fn giant_field(c: &mut Case) -> Field {
    set_cap(8 << 30);
    let n = if cfg!(miri) { 5000 } else { [(1usize << 27) + 3, (1 << 26) + 1, (1 << 28) + 1][c.idx as usize % 3] };
    let mut b = c.rng.bytes(n.min(1 << 16));
    while b.len() < n {
        let k = b.len().min(n - b.len());
        b.extend_from_within(..k);
    }
    c.max("largest payload", n as u64);
    c.distinct(mix(n as u64 ^ 82 << 40));
    ld(1 + c.rng.below(3000) as u32, b)
}
/// A payload beyond the limits other libraries set, at once or in parts.
fn p03_giant(c: &mut Case) -> R {
    giant(c, 1)
}
fn p04_giant(c: &mut Case) -> R {
    giant(c, 5)
}
fn giant(c: &mut Case, parts: usize) -> R {
    let f = giant_field(c);
    let n = f.raw.len();
    let total = f.bytes.len() + 2;
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = vec![];
    let step = total / parts + 1;
    let mut told = 0;
    for k in 0..parts {
        let (from, to) = (k * step, ((k + 1) * step).min(total));
        buf.extend_from_slice(&f.bytes[from..to.min(total - 2)]);
        if to == total {
            buf.extend([0x10, 5]);
        }
        set_cap(8 << 30);
        let r = d.feed(&mut buf, &mut got)?;
        match r {
            Ok(u) => told += u,
            Err(e) => fail!("a payload of {} bytes, part {} of {}: {}", n, k + 1, parts, e),
        }
        ensure!(got.len() == if to == total { 2 } else { 0 }, "a payload of {} bytes, part {} of {}: {} fields", n, k + 1, parts, got.len());
    }
    ensure!(told == total && buf.is_empty(), "a payload of {} bytes: {} of {} bytes consumed, {} left", n, told, total, buf.len());
    ensure!(got[0].0 == f.tag && got[0].2 == f.raw, "a payload of {} bytes came back as {} others under tag {}", n, got[0].2.len(), got[0].0);
    ensure!(got[1].0 == 2 && got[1].2 == [5], "the field after a payload of {} bytes came back with tag {} and {}", n, got[1].0, hex(&got[1].2));
    c.count("giant payloads", 1);
    Ok(())
}
/// A payload longer than 32 bits can tell.
fn p03_beyond(c: &mut Case) -> R {
    if !roomy(26) {
        return Ok(());
    }
    patient(20);
    let n = [(1usize << 32) + 7, (1 << 31) + 7, 1 << 32][c.idx as usize % 3];
    let head = [varint(key(5, 2)), varint(n as u64)].concat();
    let total = head.len() + n;
    let mut buf = vec![0u8; total];
    buf[..head.len()].copy_from_slice(&head);
    let mut got: Out = vec![];
    let mut d = PDec::new()?;
    set_cap(22 << 30);
    let r = d.feed(&mut buf, &mut got)?;
    ensure!(r == Ok(total) && buf.is_empty(), "decoding a payload of {} bytes returned {:?}, {} bytes left", n, r, buf.len());
    ensure!(got.len() == 1 && got[0].0 == 5 && got[0].2.len() == n, "a payload of {} bytes came back as {} fields", n, got.len());
    ensure!(got[0].2.chunks(1 << 16).all(|p| p.iter().all(|b| *b == 0)), "a payload of {} zero bytes came back as others", n);
    c.max("largest allocation of such a call (MiB)", (last_peak() >> 20) as u64);
    c.count("payloads beyond 31 bits", 1);
    Ok(())
}
/// Payloads, messages, lists, numbers of fields and tags of every length or number.
fn p03_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        p03_check(c, &[ld(1 + n as u32 % 15, base.take(n))])?;
        let m = [ld(1 + n as u32, base.take(n % 50)), field(&mut c.rng), ld(1, base.take(n)), field(&mut c.rng)];
        p03_check(c, &m)?;
        if n < 1500 {
            let m: Vec<Field> = (0..n).map(|i| ld(1 + i as u32 % 20, vec![i as u8; i % 3])).collect();
            p03_check(c, &m)?;
        }
        if n <= 70_000 {
            let v = Val::sized(2 * (n as u64 / SHARES[0] % 14), n, &mut c.rng);
            ensure!(v.same_when_read(v.raw())?, "a raw value of {} elements does not give {}", n, short(&v));
        }
        c.count("lengths swept", 1);
        c.max("largest payload", n as u64);
    }
    Ok(())
}

pub fn p03() -> Prop {
    Prop {
        id: "P03",
        rule: "one evaluation = one well-formed message (written by a reference writer making any legal choice) given to one decode call, or one raw value converted, compared with proto3; distinct and non-trivial: distinct non-empty messages and raw values",
        stages: vec![
            st("giant", 1, 3, p03_giant), ex("beyond 32 bits", 1, 3, p03_beyond),
            ex("million elements", 14, 28, p03_long_lists),
            ex("shapes", 64, 64, p03_shapes),
            ex("padded", 10, 10, p03_padded),
            st("messages", 60_000, 1_500_000, p03_message),
            st("conversions", 40_000, 1_200_000, p03_convert),
            st("malformed values", 30_000, 800_000, p03_malformed),
            st("texts", 12_000, 400_000, p03_text),
            st("mismatches", 300, 6_000, p03_mismatch),
            st("many fields", 30, 800, p03_many),
            st("long lists", 60, 1_500, p03_long),
            ex("sizes", 1062, 1062, p03_sizes),
            ex("every length", SHARES[0], SHARES[1], p03_every), st("relatives", 100, 3000, p03_kin),
        ],
        floors: vec![("fields read", 100_000), ("padded or empty fields", 10_000), ("scalars converted", 100_000), ("lists converted", 100_000), ("malformed conversions", 10_000), ("mismatched conversions", 10_000), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- P04

/// Feed `wire` cut at `cuts`; check delivery after every chunk.
fn p04_feed(c: &mut Case, d: &mut PDec, m: &[Field], wire: &[u8], cuts: &[usize], ends: &[usize]) -> R {
    let mut buf = vec![];
    let mut got: Out = vec![];
    let mut consumed = 0;
    let mut prev = 0;
    for &k in cuts.iter().chain([wire.len()].iter()) {
        buf.extend_from_slice(&wire[prev..k]);
        prev = k;
        let ctx = || format!("message {} cut at {:?}, {} bytes fed", hex(wire), &cuts[..cuts.len().min(20)], k);
        match d.feed(&mut buf, &mut got)? {
            Ok(n) => consumed += n,
            Err(e) => fail!("{}: decode failed with {}", ctx(), e),
        }
        let due = ends.iter().take_while(|&&e| e <= k).count();
        ensure!(got.len() >= due, "{}: {} fields are complete but {} delivered", ctx(), due, got.len());
        ensure!(got.len() <= due, "{}: {} fields delivered but only {} complete", ctx(), got.len(), due);
        if let Some((t, y, raw)) = got.last() {
            let w = &m[due - 1];
            ensure!(*t == w.tag && wire_no(*y) == Some(w.wire) && *raw == w.raw, "{}: field {} came out as tag {} {:?} {} instead of tag {} wire {} {}", ctx(), due - 1, t, y, hex(raw), w.tag, w.wire, hex(&w.raw));
        }
        c.count("chunks fed", 1);
    }
    same_fields(&got, m, &format!("message {} in chunks {:?}", hex(wire), &cuts[..cuts.len().min(20)]))?;
    ensure!(buf.is_empty(), "message {} in chunks {:?}: {} bytes left in the input", hex(wire), cuts, buf.len());
    ensure!(consumed == wire.len(), "message {} in chunks {:?}: {} bytes reported instead of {}", hex(wire), cuts, consumed, wire.len());
    Ok(())
}
fn ends_of(m: &[Field]) -> Vec<usize> {
    m.iter()
        .scan(0, |a, f| {
            *a += f.bytes.len();
            Some(*a)
        })
        .collect()
}
fn small_message(r: &mut Rng) -> Vec<Field> {
    loop {
        let m = message(r, 5);
        if m.iter().map(|f| f.bytes.len()).sum::<usize>() <= 120 {
            return m;
        }
    }
}
fn p04_splits(c: &mut Case) -> R {
    // every single cut, every single byte
    let m = small_message(&mut c.rng);
    let wire = wire_of(&m);
    let ends = ends_of(&m);
    let mut d = PDec::new()?;
    for k in 0..=wire.len() {
        // the same decoder again and again: a complete message leaves it ready for the next
        p04_feed(c, &mut d, &m, &wire, &[k], &ends)?;
    }
    let all: Vec<usize> = (1..wire.len()).collect();
    p04_feed(c, &mut d, &m, &wire, &all, &ends)?;
    p04_feed(c, &mut d, &m, &wire, &[], &ends)?;
    c.count("every-cut messages", 1);
    c.evals(wire.len() as u64 + 3);
    if !m.is_empty() {
        c.distinct(hash_bytes(1, &wire));
    }
    c.sample(|| format!("message {} cut at each of its {} bytes", hex(&wire), wire.len()));
    Ok(())
}
fn p04_pairs(c: &mut Case) -> R {
    // every pair of cuts in a short message
    let m = loop {
        let m = message(&mut c.rng, 3);
        if m.iter().map(|f| f.bytes.len()).sum::<usize>() <= 24 {
            break m;
        }
    };
    let wire = wire_of(&m);
    let ends = ends_of(&m);
    let mut n = 0;
    for a in 0..=wire.len() {
        for b in a..=wire.len() {
            let mut d = PDec::new()?;
            p04_feed(c, &mut d, &m, &wire, &[a, b], &ends)?;
            n += 1;
        }
    }
    c.evals(n);
    c.distinct(hash_bytes(2, &wire));
    Ok(())
}
fn p04_random(c: &mut Case) -> R {
    let mut d = PDec::new()?;
    for _ in 0..c.rng.range(1, 3) {
        let m = message(&mut c.rng, 12);
        let wire = wire_of(&m);
        let ends = ends_of(&m);
        let mut cuts = vec![];
        match c.rng.below(3) {
            0 => {
                for _ in 0..c.rng.range(1, 12) {
                    cuts.push(c.rng.us(wire.len() + 1));
                }
            }
            1 => {
                // cuts next to field boundaries
                for &e in &ends {
                    for d in [-2i64, -1, 0, 1, 2] {
                        let k = e as i64 + d;
                        if c.rng.chance(1, 3) && k >= 0 && k as usize <= wire.len() {
                            cuts.push(k as usize);
                        }
                    }
                }
            }
            _ => {
                let step = c.rng.range(1, 9) as usize;
                cuts = (step..wire.len().min(3000)).step_by(step).collect();
            }
        }
        cuts.sort();
        p04_feed(c, &mut d, &m, &wire, &cuts, &ends)?;
        c.distinct(hash_bytes(cuts.iter().fold(3, |h, &k| mix(h ^ k as u64)), &wire));
    }
    Ok(())
}

/// Many short fields in one stream, and payloads of up to a megabyte, in chunks.
fn p04_large(c: &mut Case) -> R {
    let (m, step) = if c.idx % 2 == 0 {
        let n = *c.rng.pick(&[2_000usize, 10_000, 40_000]);
        let m = many(&mut c.rng, n);
        c.max("most fields in a message", m.len() as u64);
        (m, c.rng.range(5, 3000) as usize)
    } else {
        let n = *c.rng.pick(&[16_385usize, 65_535, 65_536, 65_537, 200_000, 1_000_000, 2_097_152]);
        let big = |r: &mut Rng, n: usize| {
            let raw = r.bytes(n);
            let mut bytes = varint(key(9, 2));
            bytes.extend(varint(n as u64));
            bytes.extend(&raw);
            Field { tag: 9, wire: 2, raw, bytes }
        };
        let mut m = vec![field(&mut c.rng), big(&mut c.rng, n), field(&mut c.rng)];
        if n < 100_000 {
            m.push(big(&mut c.rng, n + 1));
        }
        c.max("largest payload", n as u64);
        (m, (n / c.rng.range(2, 40) as usize).max(1000))
    };
    let wire = wire_of(&m);
    let ends = ends_of(&m);
    let mut cuts: Vec<usize> = (step..wire.len()).step_by(step).collect();
    if c.rng.bool() {
        // the last chunk brings just one byte, or brings the boundary itself
        for &e in ends.iter().rev().take(4) {
            cuts.extend([e - 1, e]);
        }
        cuts.sort();
    }
    let mut d = PDec::new()?;
    p04_feed(c, &mut d, &m, &wire, &cuts, &ends)?;
    c.distinct(hash_bytes(step as u64, &wire[..wire.len().min(5000)]));
    Ok(())
}

/// One decoder over a long life: thousands of messages, each in pieces.
fn p04_life(c: &mut Case) -> R {
    let mut d = PDec::new()?;
    let n = if c.idx % 6 == 5 { 70_000 } else { 2500 };
    for _ in 0..n {
        let m = small_message(&mut c.rng);
        let wire = wire_of(&m);
        let ends = ends_of(&m);
        let k = c.rng.us(wire.len() + 1);
        p04_feed(c, &mut d, &m, &wire, &[k], &ends)?;
    }
    c.count("messages through one decoder", n);
    c.distinct(mix(c.idx ^ 0x11fe));
    Ok(())
}

/// Payloads of every length: nothing before the last byte, everything with it.
fn p04_every(c: &mut Case) -> R {
    let all = lengths_to(c, 20_000, 1 << 20);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    let mut d = PDec::new()?;
    for n in all {
        let m = [ld(1 + n as u32, base.take(n)), ld(1, vec![])];
        let wire = wire_of(&m);
        let ends = ends_of(&m);
        let e = ends[0];
        for cuts in [vec![e - 1], vec![e - n, e - n / 2, e], vec![e + 1]] {
            p04_feed(c, &mut d, &m, &wire, &cuts, &ends)?;
        }
        c.count("lengths swept", 1);
        c.max("largest payload", n as u64);
        c.distinct(mix(79 << 32 | n as u64));
    }
    Ok(())
}

/// One payload byte by byte, tens of thousands of attempts, and as many with nothing new.
fn p04_patience(c: &mut Case) -> R {
    let n = [140_000usize, 9_000, 3_000, 1_200][c.idx as usize % 4] / if cfg!(miri) { 100 } else { 1 };
    let idle = c.rng.chance(1, 3);
    let m = [ld(1 + c.rng.below(40_000) as u32, content(&mut c.rng, n)), ld(1, vec![9])];
    let wire = wire_of(&m);
    let ends = ends_of(&m);
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = Vec::with_capacity(wire.len());
    for (k, &b) in wire.iter().enumerate() {
        buf.push(b);
        for _ in 0..1 + idle as usize {
            let r = d.feed(&mut buf, &mut got)?;
            ensure!(r.is_ok(), "a payload of {} bytes, fed byte by byte, after {}: {:?}", n, k + 1, r);
        }
        let due = ends.iter().take_while(|&&e| e <= k + 1).count();
        ensure!(got.len() == due, "a payload of {} bytes, fed byte by byte, after {}: {} fields instead of {}", n, k + 1, got.len(), due);
    }
    same_fields(&got, &m, "a payload fed byte by byte")?;
    // half a field, and nothing more for very long
    for cut in [1, 2, ends[0] - n - 1, ends[0] - 1] {
        let mut buf = wire[..cut].to_vec();
        got.clear();
        for k in 0..if cfg!(miri) { 100 } else { 140_000 } {
            let r = d.feed(&mut buf, &mut got)?;
            ensure!(r.is_ok() && got.is_empty(), "{} bytes of a field, after {} calls without more: {:?}", cut, k, r);
            c.count("empty chunks fed", 1);
            if cut > 1000 && k > 2000 {
                break;
            }
        }
        buf.extend_from_slice(&wire[cut..]);
        let r = d.feed(&mut buf, &mut got)?;
        ensure!(r.is_ok(), "a field after {} bytes and very many calls without more: {:?}", cut, r);
        same_fields(&got, &m, "a field completed after very many calls")?;
    }
    ensure!(buf.is_empty(), "{} bytes left", buf.len());
    c.count("chunks fed", wire.len() as u64);
    c.count("payloads in single bytes", 1);
    c.distinct(hash_bytes(92, &wire));
    Ok(())
}
pub fn p04() -> Prop {
    Prop {
        id: "P04",
        rule: "one evaluation = one message fed to the real decoder under one chunking, delivery and accounting checked after every chunk; every single cut (and pair of cuts in short messages) is enumerated; distinct and non-trivial: distinct (message, chunking)",
        stages: vec![st("every cut", 2_500, 60_000, p04_splits), st("cut pairs", 300, 8_000, p04_pairs), st("random", 12_000, 400_000, p04_random), st("large", 40, 1_200, p04_large), st("long life", 6, 150, p04_life), ex("every length", SHARES[0], SHARES[1], p04_every), st("patience", 2, 24, p04_patience), st("giant", 1, 3, p04_giant)],
        floors: vec![("chunks fed", 100_000), ("every-cut messages", 1000), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- P05

struct Bad {
    /// bytes of the failing field
    bytes: Vec<u8>,
    /// offset in `bytes` of the element (key, length or value) at fault
    fault_at: usize,
    /// number of bytes after which no decoder may still accept
    due: usize,
    /// number of bytes before which there is nothing wrong yet
    early: usize,
    what: &'static str,
}

/// A field to stand inside a group.
fn key_of_some_field(r: &mut Rng) -> Vec<u8> {
    let t = tag(r);
    let w = *r.pick(&[0u32, 1, 2, 5]);
    let mut b = varint(key(t, w));
    b.extend(match w {
        0 => varint(r.below(1000)),
        1 => r.bytes(8),
        5 => r.bytes(4),
        _ => vec![0],
    });
    b
}
fn bad_field(r: &mut Rng, form: u64) -> Bad {
    let pad = |r: &mut Rng, v: u64| {
        let n = varint(v).len() as u64;
        if r.chance(1, 4) {
            padded(v, r.range(n, 10) as usize)
        } else {
            varint(v)
        }
    };
    let overlong = |r: &mut Rng| {
        let mut b: Vec<u8> = (0..r.range(10, 16)).map(|_| 0x80 | r.u8()).collect();
        if r.chance(1, 4) {
            b.extend(vec![0xff; r.us(200)]);
        }
        b.push(r.u8() & 0x7f);
        b
    };
    let at = |prefix: Vec<u8>, b: Vec<u8>, what| {
        let p = prefix.len();
        let mut bytes = prefix;
        bytes.extend(b);
        Bad { fault_at: p, due: p + 11, early: p + 10, bytes, what }
    };
    match form {
        0 => {
            let w = *r.pick(&[0u64, 1, 2, 5]);
            let b = pad(r, w);
            let n = b.len();
            Bad { bytes: b, fault_at: 0, due: n, early: n, what: "tag zero" }
        }
        1 => {
            let w = *r.pick(&[3u32, 4, 6, 7]);
            let t = tag(r);
            let mut b = pad(r, key(t, w));
            let n = b.len();
            if w == 3 && r.chance(2, 3) {
                // a group, with its end
                if r.bool() {
                    b.extend(key_of_some_field(r));
                }
                b.extend(varint(key(t, 4)));
            }
            Bad { bytes: b, fault_at: 0, due: n, early: 1, what: "unsupported wire type" }
        }
        2 => {
            // the varint value of the key needs more than 32 bits, though its low bits look fine
            let low = key(tag(r), *r.pick(&[0, 1, 2, 5]));
            let high = match r.below(3) {
                0 => 1u64 << r.range(32, 62),
                1 => 1 << 32,
                _ => ((r.u64() >> 1) & !0xffff_ffff) | 1 << 33,
            };
            let b = pad(r, high | low);
            let n = b.len();
            Bad { bytes: b, fault_at: 0, due: n, early: 5, what: "key beyond 32 bits" }
        }
        3 => {
            let b = overlong(r);
            at(vec![], b, "overlong key")
        }
        4 => {
            let t = tag(r);
            let k = pad(r, key(t, 0));
            let b = overlong(r);
            at(k, b, "overlong varint value")
        }
        _ => {
            let t = tag(r);
            let k = pad(r, key(t, 2));
            let b = overlong(r);
            at(k, b, "overlong length")
        }
    }
}

fn p05_bad(c: &mut Case) -> R {
    let m = message(&mut c.rng, 5);
    let form = c.idx % 6;
    let bad = bad_field(&mut c.rng, form);
    let lead = wire_of(&m);
    let n = c.rng.us(12);
    let mut rest = c.rng.bytes(n);
    if bad.bytes.len() < bad.due {
        rest = vec![];
    }
    let whole = [&lead[..], &bad.bytes, &rest].concat();
    let ctx = format!("{} after {} good fields: {} | {} | {}", bad.what, m.len(), hex(&lead), hex(&bad.bytes), hex(&rest));
    // at once
    let judge_buf = |buf: &[u8], fed: &[u8]| -> R {
        let from_field = &fed[lead.len()..];
        let from_fault = &fed[(lead.len() + bad.fault_at).min(fed.len())..];
        ensure!(buf == from_field || buf == from_fault || (buf.len() >= from_fault.len() && buf.len() <= from_field.len() && fed.ends_with(buf)), "{}: after the error the input holds {} but the failing bytes are {}", ctx, hex(buf), hex(from_fault));
        Ok(())
    };
    {
        let mut d = PDec::new()?;
        let mut got: Out = vec![];
        let mut buf = whole.clone();
        match d.feed(&mut buf, &mut got)? {
            Ok(n) => fail!("{}: accepted ({} bytes, {} fields, {} bytes left)", ctx, n, got.len(), buf.len()),
            Err(e) => ensure!(ERRORS[..2].contains(&&e[..]), "{}: reported as {}", ctx, e),
        }
        same_fields(&got, &m, &ctx)?;
        judge_buf(&buf, &whole)?;
        // asked again, still an error and still nothing delivered
        let r = d.feed(&mut buf, &mut got)?;
        ensure!(r.is_err(), "{}: a second call accepts it", ctx);
        same_fields(&got, &m, &ctx)?;
        judge_buf(&buf, &whole)?;
    }
    // byte by byte (or in pieces): nothing wrong before it can be known, an error once it must be
    {
        let mut d = PDec::new()?;
        let mut got: Out = vec![];
        let mut buf = vec![];
        let mut k = 0;
        let step = c.rng.range(1, 3) as usize;
        let mut failed = false;
        let limit = lead.len() + bad.bytes.len();
        while k < limit {
            // long leading fields byte by byte would only repeat themselves
            let j = if lead.len() > 800 && k + 60 < lead.len() { k + step.max((lead.len() - k - 50).min(lead.len() / 64)) } else { (k + step).min(limit) };
            buf.extend_from_slice(&whole[k..j]);
            k = j;
            let r = d.feed(&mut buf, &mut got)?;
            let into = k as i64 - lead.len() as i64; // bytes of the bad field seen
            match r {
                Ok(_) => ensure!(into < bad.due as i64, "{}: still waiting after {} bytes of the bad field", ctx, into),
                Err(e) => {
                    ensure!(into >= bad.early as i64, "{}: failed with {} after only {} bytes of the bad field", ctx, e, into);
                    failed = true;
                    judge_buf(&buf, &whole[..k])?;
                    break;
                }
            }
            let due = ends_of(&m).iter().take_while(|&&e| e <= k).count();
            ensure!(got.len() == due, "{}: {} fields delivered after {} bytes, {} complete", ctx, got.len(), k, due);
        }
        ensure!(failed, "{}: never rejected when fed in pieces", ctx);
        same_fields(&got, &m, &ctx)?;
    }
    c.count(
        match form {
            0 => "tag zero",
            1 => "unsupported wire types",
            2 => "keys beyond 32 bits",
            3 => "overlong keys",
            4 => "overlong values",
            _ => "overlong lengths",
        },
        1,
    );
    c.count("good fields before a fault", m.len() as u64);
    c.distinct(hash_bytes(form, &whole));
    c.sample(|| ctx.clone());
    Ok(())
}
fn p05_incomplete(c: &mut Case) -> R {
    let m = small_message(&mut c.rng);
    let wire = wire_of(&m);
    let ends = ends_of(&m);
    for k in 0..=wire.len() {
        let mut d = PDec::new()?;
        let mut got: Out = vec![];
        let mut buf = wire[..k].to_vec();
        let r = d.feed(&mut buf, &mut got)?;
        ensure!(r.is_ok(), "the first {} bytes of the valid message {} are rejected: {:?}", k, hex(&wire), r);
        let due = ends.iter().take_while(|&&e| e <= k).count();
        same_fields(&got, &m[..due], &format!("first {} bytes of {}", k, hex(&wire)))?;
        c.count("incomplete messages", 1);
    }
    c.evals(wire.len() as u64 + 1);
    if !m.is_empty() {
        c.distinct(hash_bytes(9, &wire));
    }
    Ok(())
}
/// However much a length promises, what has not come yet is no error.
fn p05_promised(c: &mut Case) -> R {
    let at = c.idx as u32;
    for d in -2i64..=2 {
        let n = (1i64 << at) + d;
        if !(0..1 << 31).contains(&n) {
            continue;
        }
        for some in [0usize, 1, 2, 40, 5000] {
            if some as i64 >= n {
                continue;
            }
            let before = field(&mut c.rng);
            let mut wire = before.bytes.clone();
            wire.extend(varint(key(1 + c.rng.below(3000) as u32, 2)));
            let w = varint(n as u64).len() as u64;
            wire.extend(padded(n as u64, if c.rng.bool() { w } else { c.rng.range(w, 10) } as usize));
            wire.extend(c.rng.bytes(some));
            let mut d = PDec::new()?;
            let mut got: Out = vec![];
            let mut buf = vec![];
            let cut = if c.rng.bool() { wire.len() } else { c.rng.us(wire.len()) };
            for part in [&wire[..cut], &wire[cut..]] {
                buf.extend_from_slice(part);
                let r = d.feed(&mut buf, &mut got)?;
                ensure!(r.is_ok(), "{} of {} promised bytes have come: {:?}", some, n, r);
            }
            same_fields(&got, &[before], &format!("{} of {} promised bytes have come", some, n))?;
            c.count("incomplete messages", 1);
            c.distinct(mix(83 << 40 ^ (n as u64) << 8 ^ some as u64));
            c.evals(1);
        }
    }
    Ok(())
}
fn p05_keys(c: &mut Case) -> R {
    // every one- and two-byte key
    for hi in 0..128u64 {
        let k = c.idx | hi << 7;
        for b in [varint(k), padded(k, 3)] {
            let mut d = PDec::new()?;
            let mut got: Out = vec![];
            let mut buf = b.clone();
            let r = d.feed(&mut buf, &mut got)?;
            let legal = k >> 3 != 0 && matches!(k & 7, 0 | 1 | 2 | 5);
            ensure!(r.is_ok() == legal, "key {} (tag {}, wire type {}): {:?}", hex(&b), k >> 3, k & 7, r);
            ensure!(got.is_empty(), "key {} alone delivered a field", hex(&b));
        }
    }
    c.count("keys enumerated", 256);
    c.evals(256);
    c.distinct(mix(c.idx));
    Ok(())
}

/// One decoder through several errors: whatever came before, the bytes at fault stay in the
/// input, and once valid ones stand in their place decoding goes on as if nothing had been.
fn p05_again(c: &mut Case) -> R {
    let mut d = PDec::new()?;
    let rounds = c.rng.range(1, 9);
    let mut total = 0usize;
    let mut h = c.idx;
    for round in 0..rounds {
        // what is fine, in one call or several
        let mut m = vec![];
        for _ in 0..c.rng.below(3) {
            m.extend(message(&mut c.rng, 5));
        }
        if c.rng.chance(1, 6) {
            let n = *c.rng.pick(&[11usize, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300]);
            m.extend((0..n).map(|_| field(&mut c.rng)).filter(|f| f.bytes.len() < 200));
        }
        let big = c.rng.chance(1, 12);
        if big {
            let n = *c.rng.pick(&[4096usize, 16384, 65535, 65536, 70_000, 131_072, 200_000]) + c.rng.us(3);
            m.push(ld(tag(&mut c.rng), c.rng.bytes(n)));
        }
        let form = (c.idx + round) % 6;
        let bad = bad_field(&mut c.rng, form);
        let mut rest = {
            let n = if c.rng.chance(1, 12) { *c.rng.pick(&[4096usize, 65535, 65536, 70_000, 262_144]) } else { c.rng.us(40) };
            if c.rng.bool() {
                c.rng.bytes(n)
            } else {
                let mut w = vec![];
                while w.len() < n {
                    w.extend(field(&mut c.rng).bytes);
                }
                w
            }
        };
        if bad.bytes.len() < bad.due {
            rest.clear();
        }
        let lead = wire_of(&m);
        let ends = ends_of(&m);
        h = hash_bytes(h, &lead) ^ hash_bytes(form, &bad.bytes);
        let ctx = format!("round {} of one decoder ({} fields before): {} ({}) after {} fields of {} bytes, {} bytes behind it", round, total, bad.what, hex(&bad.bytes), m.len(), lead.len(), rest.len());
        let mut got: Out = vec![];
        let mut buf = vec![];
        let mut fed = 0;
        if !lead.is_empty() && c.rng.bool() {
            let mut cuts: Vec<usize> = (0..c.rng.range(1, 4)).map(|_| c.rng.us(lead.len() + 1)).collect();
            cuts.sort();
            for k in cuts {
                buf.extend_from_slice(&lead[fed..k]);
                fed = k;
                let r = d.feed(&mut buf, &mut got)?;
                ensure!(r.is_ok(), "{}: after {} bytes, all fine: {:?}", ctx, k, r);
                let due = ends.iter().take_while(|&&e| e <= k).count();
                ensure!(got.len() == due, "{}: after {} bytes {} fields are delivered, {} complete", ctx, k, got.len(), due);
            }
        }
        buf.extend_from_slice(&lead[fed..]);
        let mut shown = 0;
        if c.rng.bool() {
            // the first of the malformed bytes come alone
            while shown + 1 < bad.early && c.rng.chance(3, 4) {
                let k = c.rng.range(shown as u64 + 1, bad.early as u64 - 1) as usize;
                buf.extend_from_slice(&bad.bytes[shown..k]);
                shown = k;
                let r = d.feed(&mut buf, &mut got)?;
                ensure!(r.is_ok(), "{}: {} bytes of it: {:?}", ctx, k, r);
                same_fields(&got, &m, &ctx)?;
            }
        }
        buf.extend_from_slice(&bad.bytes[shown..]);
        buf.extend_from_slice(&rest);
        let tail = [&bad.bytes[..], &rest].concat();
        for _ in 0..if c.rng.chance(1, 30) { 40 } else { c.rng.range(1, 3) } {
            let r = d.feed(&mut buf, &mut got)?;
            ensure!(matches!(&r, Err(e) if ERRORS[..2].contains(&&e[..])), "{}: {:?}", ctx, r);
            same_fields(&got, &m, &ctx)?;
            ensure!(tail.ends_with(&buf) && buf.len() >= tail.len() - bad.fault_at, "{}: {} bytes are left, {} of them at fault or behind", ctx, buf.len(), tail.len() - bad.fault_at);
        }
        total += m.len();
        // valid bytes in place of those at fault
        let taken = tail.len() - buf.len();
        let k = bad.fault_at;
        if taken != 0 && taken != k {
            // somewhere inside the key: nothing is said about that
            d = PDec::new()?;
            total = 0;
            continue;
        }
        let mut next = message(&mut c.rng, 4);
        let mut wire = wire_of(&next);
        if taken != 0 {
            // the key is the decoder's already: its value follows
            let t = bad.bytes[..k].iter().rev().fold(0u64, |a, b| a << 7 | (b & 0x7f) as u64) >> 3;
            let f = if form == 4 {
                let v = c.rng.u64() >> c.rng.below(64);
                Field { tag: t as u32, wire: 0, raw: varint(v), bytes: varint(v) }
            } else {
                let n = c.rng.us(30);
                let f = ld(t as u32, c.rng.bytes(n));
                let bytes = [varint(n as u64), f.raw.clone()].concat();
                Field { bytes, ..f }
            };
            wire = [&f.bytes[..], &wire].concat();
            next.insert(0, f);
        }
        let ctx = format!("{}; then {} in its place", ctx, hex(&wire));
        if c.rng.bool() {
            buf = vec![];
        } else {
            buf.clear();
        }
        let mut got: Out = vec![];
        let mut told = 0;
        let cut = if c.rng.bool() { wire.len() } else { c.rng.us(wire.len() + 1) };
        for part in [&wire[..cut], &wire[cut..]] {
            buf.extend_from_slice(part);
            match d.feed(&mut buf, &mut got)? {
                Ok(n) => told += n,
                Err(e) => fail!("{}: {}", ctx, e),
            }
        }
        same_fields(&got, &next, &ctx)?;
        ensure!(buf.is_empty() && told == wire.len(), "{}: {} bytes of {} consumed, {} left", ctx, told, wire.len(), buf.len());
        total += next.len();
        c.count("errors put right", 1);
        c.max("fields before an error", total as u64);
    }
    c.evals(rounds);
    c.distinct(h);
    Ok(())
}

/// A payload of every length, then something malformed.
fn p05_every(c: &mut Case) -> R {
    let all = lengths_to(c, usize::MAX, 1 << 20);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let f = ld(1 + n as u32 % 5000, base.take(n));
        let m = [f];
        let bad = bad_field(&mut c.rng, n as u64 / SHARES[0] % 6);
        let mut buf = wire_of(&m);
        let lead = buf.len();
        buf.extend(&bad.bytes);
        let mut d = PDec::new()?;
        let mut got: Out = vec![];
        let r = d.feed(&mut buf, &mut got)?;
        let ctx = format!("{} ({}) after a payload of {} bytes", bad.what, hex(&bad.bytes), n);
        if bad.bytes.len() >= bad.due {
            ensure!(matches!(&r, Err(e) if ERRORS[..2].contains(&&e[..])), "{}: {:?}", ctx, r);
            ensure!(buf.len() <= bad.bytes.len() && bad.bytes.ends_with(&buf), "{}: {} bytes are left", ctx, buf.len());
        }
        ensure!(got.len() == 1, "{}: {} fields", ctx, got.len());
        same_fields(&got, &m, &ctx)?;
        // a length of that many bytes with nothing behind it is no error
        let mut d = PDec::new()?;
        let mut b = [varint(key(7, 2)), varint(n as u64 + 1)].concat();
        b.extend(base.take(n.min(300)));
        let r = d.feed(&mut b, &mut got)?;
        ensure!(r.is_ok() && got.len() == 1, "a length of {} with {} bytes behind it: {:?}", n + 1, n.min(300), r);
        c.count("lengths swept", 1);
        c.count("incomplete messages", 1);
        c.distinct(mix(80 << 32 | (n + lead) as u64));
    }
    Ok(())
}
pub fn p05() -> Prop {
    Prop {
        id: "P05",
        rule: "one evaluation = one malformed field after a random valid message, fed at once, again, and in pieces, with the error, the delivered fields and the remaining input checked (or one prefix of a valid message); all keys below 2^14 are enumerated; distinct and non-trivial: distinct inputs",
        stages: vec![ex("keys", 128, 128, p05_keys), ex("promised", 32, 32, p05_promised), st("malformed", 60_000, 1_500_000, p05_bad), st("put right", 12_000, 300_000, p05_again), st("incomplete", 3_000, 80_000, p05_incomplete), ex("every length", SHARES[0], SHARES[1], p05_every)],
        floors: vec![("tag zero", 3000), ("unsupported wire types", 3000), ("keys beyond 32 bits", 3000), ("overlong keys", 3000), ("overlong values", 3000), ("overlong lengths", 3000), ("incomplete messages", 50_000), ("lengths swept", 12_000), ("errors put right", 30_000)],
    }
}

// ---------------------------------------------------------------- P06

fn mem(n: usize) -> usize {
    256 * n + (64 << 10)
}
fn hostile_bytes(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.us(4),
        1..=4 => r.us(40),
        5..=6 => r.us(400),
        _ => r.us(4000),
    };
    match r.below(9) {
        0 => r.bytes(n),
        1 => vec![0xff; n],
        2 => vec![0x80; n],
        3 => (0..n).map(|_| r.u8() & 0x1f).collect(),
        4 => {
            let mut w = wire_of(&message(r, 8));
            for _ in 0..r.range(1, 4) {
                if !w.is_empty() {
                    let k = r.us(w.len());
                    w[k] ^= 1 << r.below(8);
                }
            }
            w
        }
        5 | 6 => {
            // a declared length with nothing behind it
            let mut w = wire_of(&message(r, 3));
            w.extend(varint(key(tag(r), 2)));
            let l = *r.pick(&[1 << 20, 1 << 30, u32::MAX as u64, 1 << 31, i32::MAX as u64, 1 << 32, 1 << 40, i64::MAX as u64, 1 << 63, u64::MAX, u64::MAX - 1, u64::MAX >> 4]);
            let n = varint(l).len();
            w.extend(padded(l, if r.bool() { 10 } else { n }));
            let k = r.us(30);
            w.extend(r.bytes(k));
            w
        }
        7 => {
            // many minimal fields
            (0..n).map(|i| if i % 2 == 0 { *r.pick(&[0x08, 0x0a, 0x12, 0x10]) } else { 0 }).collect()
        }
        _ => {
            let mut w = varint(key(1, 0));
            w.extend((0..n).map(|_| 0x80 | r.u8()));
            w
        }
    }
}
fn p06_decode(c: &mut Case) -> R {
    let s = hostile_bytes(&mut c.rng);
    c.distinct(hash_bytes(1, &s));
    let base = crate::alloc::current();
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = vec![];
    let mut removed = 0usize;
    let mut reported = 0usize;
    let mut k = 0;
    let mut held = 0usize;
    let chunky = c.rng.chance(2, 3);
    let mut errs = 0;
    while k < s.len() || k == 0 {
        let n = if chunky {
            if c.rng.chance(1, 3) {
                1
            } else {
                c.rng.range(1, 40) as usize
            }
        } else {
            s.len()
        };
        let j = (k + n).min(s.len());
        buf.extend_from_slice(&s[k..j]);
        k = j;
        let before = buf.len();
        set_cap((mem(s.len()) + (8 << 20)) as isize);
        let r = d.feed(&mut buf, &mut got)?;
        let peak = last_peak();
        held += peak;
        // the output may grow by doubling: what it already holds counts as well
        ensure!(peak <= mem(before) + 160 * got.len(), "{} bytes of input (and {} fields held) needed {} bytes of memory: {}", before, got.len(), peak, hex(&s));
        removed += before - buf.len();
        match r {
            Ok(n) => reported += n,
            Err(_) => {
                errs += 1;
                if errs > 2 {
                    break;
                }
            }
        }
        if errs == 0 {
            ensure!(removed == reported, "{} bytes reported but {} removed: {}", reported, removed, hex(&s));
        }
        if s.is_empty() {
            break;
        }
    }
    let _ = held;
    let live = crate::alloc::current() - base;
    ensure!(live <= mem(s.len()) as isize, "{} bytes of input left {} bytes allocated ({} fields): {}", s.len(), live, got.len(), hex(&s));
    let payload: usize = got.iter().map(|f| f.2.len()).sum();
    ensure!(payload <= s.len(), "{} bytes of input delivered {} bytes of values", s.len(), payload);
    c.count(if errs > 0 { "hostile streams rejected" } else { "hostile streams accepted" }, 1);
    c.count("fields delivered", got.len() as u64);
    // whatever came out, every conversion must stand it
    for (_, _, raw) in got.into_iter().take(6) {
        convert_all(c, raw)?;
    }
    c.sample(|| format!("stream {}", hex(&s)));
    Ok(())
}
fn convert_all(c: &mut Case, raw: Vec<u8>) -> R {
    let n = raw.len();
    let mut worst = 0usize;
    macro_rules! go {
        ($($t:ty: $($k:ident)*;)*) => {$($({
            let b = raw.clone();
            set_cap((mem(n) + (8 << 20)) as isize);
            let v = sut(concat!("conversion to ", stringify!($t)), || <$t>::from(DL::$k(b)))?;
            worst = worst.max(last_peak());
            drop(v);
        })*)*};
    }
    go! {
        bool: Bool;
        Vec<bool>: BoolVec;
        i32: Int32 SInt32 SFixed32 Bytes;
        Vec<i32>: Int32Vec SInt32Vec SFixed32Vec;
        i64: Int64 SInt64 SFixed64;
        Vec<i64>: Int64Vec SInt64Vec SFixed64Vec;
        u32: UInt32 Fixed32;
        Vec<u32>: UInt32Vec Fixed32Vec;
        u64: UInt64 Fixed64;
        Vec<u64>: UInt64Vec Fixed64Vec;
        f32: Float;
        Vec<f32>: FloatVec;
        f64: Double;
        Vec<f64>: DoubleVec;
        Vec<u8>: Bytes;
        String: Bytes;
    }
    ensure!(worst <= mem(n), "converting {} bytes needed {} bytes of memory: {}", n, worst, hex(&raw));
    c.count("conversions", 28);
    Ok(())
}
fn p06_convert(c: &mut Case) -> R {
    let raw = match c.rng.below(4) {
        0 => {
            let n = c.rng.us(20);
            c.rng.bytes(n)
        }
        1 => vec![0x80 | c.rng.u8(); c.rng.us(40)],
        2 => {
            let n = c.rng.us(3000);
            c.rng.bytes(n)
        }
        _ => {
            let n = c.rng.us(300);
            (0..n).map(|_| c.rng.u8() & 0x8f).collect()
        }
    };
    c.distinct(hash_bytes(2, &raw));
    convert_all(c, raw)
}
fn p06_short(c: &mut Case) -> R {
    // every two-byte string behind every wire type, whole and byte by byte
    for b in 0..=255u8 {
        for lead in [&[][..], &[0x08], &[0x09], &[0x0a], &[0x0d], &[0x0a, 0x02]] {
            let s = [lead, &[c.idx as u8, b]].concat();
            for step in [1usize, 9] {
                let mut d = PDec::new()?;
                let mut got: Out = vec![];
                let mut buf = vec![];
                for ch in s.chunks(step) {
                    buf.extend_from_slice(ch);
                    let n = buf.len();
                    let r = d.feed(&mut buf, &mut got)?;
                    ensure!(last_peak() <= mem(n), "{} needed {} bytes", hex(&s), last_peak());
                    if r.is_err() {
                        break;
                    }
                }
            }
        }
    }
    c.evals(256 * 12);
    c.count("short streams enumerated", 256 * 6);
    c.distinct(mix(c.idx));
    Ok(())
}
fn p06_large(c: &mut Case) -> R {
    // long single values (an attacker's stream of one field), in large chunks
    let n = if c.tier == Tier::Thorough { 8 << 20 } else { 600_000 };
    let s = match c.idx % 4 {
        0 => [varint(key(1, 2)), varint(n as u64), vec![7; n]].concat(),
        1 => vec![0xff; n],
        2 => [varint(key(1, 0)), vec![0x80; n]].concat(),
        _ => [varint(key(1, 2)), vec![0xff; n]].concat(),
    };
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = vec![];
    for ch in s.chunks(100_000) {
        buf.extend_from_slice(ch);
        set_cap((mem(buf.len()) + (8 << 20)) as isize);
        let n = buf.len();
        let r = d.feed(&mut buf, &mut got)?;
        ensure!(last_peak() <= mem(n), "{} bytes held needed {} bytes of memory", n, last_peak());
        if r.is_err() {
            break;
        }
    }
    c.max("largest stream", s.len() as u64);
    c.distinct(mix(c.idx ^ 77));
    Ok(())
}

/// Very many fields in small reads, all kept: what is held stays in proportion.
fn p06_many(c: &mut Case) -> R {
    let base = crate::alloc::current();
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = vec![];
    let n = c.rng.range(200, 3000);
    let mut fed = 0;
    let mut fails = 0;
    for _ in 0..n {
        let k = c.rng.range(1, 4);
        for _ in 0..k {
            match c.rng.below(5) {
                0 => buf.extend([8, c.rng.u8() & 127]),
                1 => buf.extend([0x0d, 1, 2, 3, 4]),
                2 => buf.extend([0x09, 1, 2, 3, 4, 5, 6, 7, 8]),
                3 => buf.extend([0x12, 3, 1, 2, 3]),
                _ => buf.extend([0x12, 0]),
            }
        }
        if c.rng.chance(1, 60) {
            buf.push(c.rng.u8());
        }
        let before = buf.len();
        set_cap((mem(fed + before) + (8 << 20)) as isize);
        let r = d.feed(&mut buf, &mut got)?;
        fed += before - buf.len();
        let peak = last_peak();
        ensure!(peak <= mem(before) + 128 * got.len(), "{} bytes (after {} before them) needed {} bytes of memory", before, fed, peak);
        if r.is_err() {
            fails += 1;
            d = PDec::new()?;
            buf.clear();
        }
    }
    let live = crate::alloc::current() - base;
    ensure!(live <= (mem(fed) + 2 * 64 * got.len()) as isize, "{} bytes of input left {} bytes allocated ({} fields)", fed, live, got.len());
    c.count("fields delivered", got.len() as u64);
    c.count("connections reset after an error", fails);
    c.distinct(mix(fed as u64 ^ n << 32));
    Ok(())
}

/// Lengths claimed of every size with little behind them; raw values of every length.
fn p06_every(c: &mut Case) -> R {
    for n in lengths(c) {
        let mut d = PDec::new()?;
        let mut got: Out = vec![];
        let k = [0, 1, 17, n / 2, n.saturating_sub(1)][c.rng.us(5)].min(n).min(70_000);
        let mut buf = [varint(key(1 + n as u32 % 300, 2)), varint(n as u64), c.rng.bytes(k)].concat();
        for _ in 0..2 {
            let given = buf.len();
            set_cap((mem(given) + (8 << 20)) as isize);
            let r = d.feed(&mut buf, &mut got)?;
            ensure!(last_peak() <= mem(given), "a length of {} with {} bytes behind it needed {} bytes of memory", n, k, last_peak());
            ensure!(r.is_ok() && got.len() == (n == k) as usize, "a length of {} with {} bytes behind it: {:?}, {} fields", n, k, r, got.len());
            if n == k {
                break;
            }
        }
        c.count("hostile streams accepted", 1);
        c.count("claimed lengths swept", 1);
        c.distinct(mix(81 << 32 | n as u64));
    }
    for n in lengths_to(c, 2500, 1 << 16) {
        let b = c.rng.u8();
        let raw = match c.rng.below(4) {
            0 => c.rng.bytes(n),
            1 => vec![b & 0x7f; n],
            2 => vec![b | 0x80; n],
            _ => content(&mut c.rng, n),
        };
        convert_all(c, raw)?;
        c.count("raw lengths swept", 1);
    }
    Ok(())
}
/// As many small fields as possible in one call: the way through them may not depend on the stack.
fn p06_crowded(c: &mut Case) -> R {
    let one: &[u8] = [&[8u8, 1][..], &[0x12, 0], &[0x0d, 0, 0, 0, 0], &[0x12, 1, 7]][c.idx as usize % 4];
    let n = if cfg!(miri) { 300 } else { (if c.tier == Tier::Thorough { 600_000 } else { 300_000 }) / one.len() };
    let wire = one.repeat(n);
    let total = wire.len();
    let mut d = PDec::new()?;
    let mut got: Out = vec![];
    let mut buf = wire;
    if c.idx >= 4 {
        buf.push(*c.rng.pick(&[0u8, 7, 0xff])); // and an end which is malformed or incomplete
    }
    let r = d.feed(&mut buf, &mut got)?;
    ensure!(got.len() == n, "{} fields in one call: {} delivered, {:?}", n, got.len(), r);
    ensure!(c.idx >= 4 || r == Ok(total), "{} fields in one call: {:?}", n, r);
    ensure!(last_peak() <= mem(total) + 128 * n, "{} bytes needed {} bytes of memory", total, last_peak());
    c.count("crowded calls", 1);
    c.max("fields in one call", n as u64);
    c.distinct(mix(c.idx ^ 79));
    Ok(())
}
pub fn p06() -> Prop {
    Prop {
        id: "P06",
        rule: "one evaluation = one hostile byte stream under one chunking given to the real decoder (then every conversion of what came out) under a panic guard, a processor-time watchdog and a counting allocator; distinct: by input",
        stages: vec![ex("short streams", 256, 256, p06_short), st("streams", 60_000, 2_000_000, p06_decode), st("raw values", 10_000, 300_000, p06_convert), st("large", 8, 24, p06_large), st("many kept", 60, 2_000, p06_many), ex("crowded", 8, 8, p06_crowded), ex("every length", SHARES[0], SHARES[1], p06_every)],
        floors: vec![("hostile streams rejected", 5000), ("hostile streams accepted", 5000), ("conversions", 200_000), ("claimed lengths swept", 12_000), ("raw lengths swept", 2_400), ("crowded calls", 8)],
    }
}

// ---------------------------------------------------------------- P07

/// A writer with faults: fails after `room` bytes in the chosen manner, accepts at most
/// `piece` bytes per call, and interrupts every `intr`-th call.
struct Faulty {
    got: Vec<u8>,
    room: usize,
    piece: usize,
    intr: u64,
    calls: u64,
    mode: u8, // which error, or Ok(0)
    failed: bool,
    /// The failure happens once; afterwards the writer would accept everything.
    once: bool,
}
const MODES: u64 = 10;
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        // every so often, or (beyond 100) many times before every piece
        if self.intr > 100 && self.calls % (self.intr - 99) != 0 || self.intr > 0 && self.intr <= 100 && self.calls % self.intr == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "try again"));
        }
        let n = b.len().min(self.piece).min(self.room.saturating_sub(self.got.len()));
        if n == 0 && !b.is_empty() {
            self.failed = true;
            if self.once {
                self.room = usize::MAX;
            }
            return match self.mode {
                0 => Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone")),
                1 => Ok(0),
                2 => Err(io::Error::new(io::ErrorKind::WouldBlock, "later")),
                3 => Err(io::Error::new(io::ErrorKind::TimedOut, "late")),
                4 => Err(io::ErrorKind::UnexpectedEof.into()),
                5 => Err(io::ErrorKind::WriteZero.into()),
                6 => Err(io::Error::from_raw_os_error(28)), // no space left
                7 => Err(io::ErrorKind::ConnectionReset.into()),
                8 => Err(io::ErrorKind::InvalidInput.into()),
                _ => Err(io::Error::new(io::ErrorKind::Other, "bad")),
            };
        }
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn p07_faults(c: &mut Case) -> R {
    let k = c.idx % KINDS;
    let t = tag(&mut c.rng);
    let v = loop {
        let v = Val::of_kind(k, &mut c.rng);
        if v.raw().len() <= 300 {
            break v;
        }
    };
    let want = v.canonical(t);
    let mut n = 0;
    for form in 0..3u64 {
        for room in 0..=want.len() + 1 {
            let mode = ((room as u64 + form + c.idx / KINDS) % MODES) as u8;
            let piece = if c.rng.bool() { usize::MAX } else { c.rng.range(1, 4) as usize };
            let intr = match c.rng.below(8) {
                0..=3 => 0,
                4 => 100 + *c.rng.pick(&[1, 2, 3, 5, 9, 17, 33, 65, 130]),
                _ => c.rng.range(2, 5),
            };
            let once = c.rng.bool();
            let mut w = Faulty { got: vec![], room, piece, intr, calls: 0, mode, failed: false, once };
            let r = v.put(form, t, &mut w)?;
            let ctx = || format!("field {} {} (form {}) into a writer failing {} after {} bytes (mode {}, pieces of {}, interrupted every {})", t, short(&v), form, if once { "once" } else { "for good" }, room, mode, piece, intr);
            ensure!(want.starts_with(&w.got), "{}: wrote {} which is no prefix of {}", ctx(), hex(&w.got), hex(&want));
            if room >= want.len() {
                ensure!(r == Ok(want.len()), "{}: returned {:?} instead of Ok({})", ctx(), r, want.len());
                ensure!(w.got == want, "{}: wrote {} instead of {}", ctx(), hex(&w.got), hex(&want));
                c.count("complete despite short writes or interruptions", (piece != usize::MAX || intr > 0) as u64);
            } else {
                ensure!(r.is_err(), "{}: reported success {:?} with only {} of {} bytes accepted", ctx(), r, w.got.len(), want.len());
                c.count("write faults reported", 1);
                c.count("of these the writer would have recovered", once as u64);
                // the failed call leaves nothing behind in the encoder
                let mut again = vec![];
                let r = v.put(form, t, &mut again)?;
                ensure!(r == Ok(want.len()) && again == want, "{}: encoding the field again with the same encoder gives {:?} {} instead of {}", ctx(), r, hex(&again), hex(&want));
            }
            n += 1;
        }
    }
    c.evals(n);
    c.distinct(hash_bytes(t as u64 ^ k << 40, &want));
    c.sample(|| format!("field {} {}: failure after each of {} bytes, 3 forms", t, short(&v), want.len()));
    Ok(())
}
/// Long payloads and lists: a failure after a random number of bytes.
fn p07_large(c: &mut Case) -> R {
    let k = c.idx % KINDS;
    let t = tag(&mut c.rng);
    let n = *c.rng.pick(&[500usize, 1025, 4097, 8193, 30_000, 65_537]);
    let v = Val::sized(k, n, &mut c.rng);
    let want = v.canonical(t);
    for j in 0..16u64 {
        let room = match j {
            0 => want.len(),
            1 => want.len() - 1,
            2 => 0,
            3 => want.len() - want.len().min(2),
            _ => c.rng.us(want.len() + 1),
        };
        let piece = *c.rng.pick(&[usize::MAX, 1000, 4096, 97]);
        let intr = match c.rng.below(8) {
            0..=3 => 0,
            4 => 100 + *c.rng.pick(&[1, 2, 3, 5, 9, 17, 33, 65, 130]),
            _ => c.rng.range(2, 5),
        };
        let mut w = Faulty { got: vec![], room, piece, intr, calls: 0, mode: (c.idx + j) as u8 % MODES as u8, failed: false, once: j % 5 > 1 };
        let r = v.put(j % 3, t, &mut w)?;
        let ctx = || format!("field {} {} ({} bytes) into a writer failing after {} bytes (pieces of {}, interrupted every {})", t, short(&v), want.len(), room, piece, intr);
        ensure!(want.starts_with(&w.got), "{}: what was written is no prefix of the encoding", ctx());
        if room >= want.len() {
            ensure!(r == Ok(want.len()) && w.got.len() == want.len(), "{}: returned {:?} after {} bytes", ctx(), r, w.got.len());
        } else {
            ensure!(r.is_err(), "{}: reported success {:?}", ctx(), r);
            c.count("write faults reported", 1);
        }
    }
    c.evals(16);
    c.distinct(hash_bytes(t as u64 ^ k << 40, &want[..want.len().min(3000)]));
    Ok(())
}
/// A writer interrupted tens of thousands of times before every byte; one that takes
/// a long value byte by byte.
fn p07_patience(c: &mut Case) -> R {
    let k = c.idx % KINDS;
    let t = tag(&mut c.rng);
    for long in [false, true] {
        let v = Val::sized(k, if long { if cfg!(miri) { 100 } else { 70_000 } } else { 2 }, &mut c.rng);
        let want = v.canonical(t);
        let intr = if long { 0 } else { 100 + if cfg!(miri) { 300 } else { 66_000 } };
        for room in [usize::MAX, want.len() - 1] {
            let mut w = Faulty { got: vec![], room, piece: 1, intr, calls: 0, mode: (c.idx % MODES) as u8, failed: false, once: false };
            let r = v.put(c.idx % 3, t, &mut w)?;
            let ctx = || format!("field {} {} ({} bytes) into a writer taking single bytes, each after {} interruptions, and room for {}", t, short(&v), want.len(), intr.saturating_sub(100), room);
            ensure!(want.starts_with(&w.got), "{}: what was written is no prefix of the encoding", ctx());
            if room >= want.len() {
                ensure!(r == Ok(want.len()) && w.got.len() == want.len(), "{}: returned {:?} after {} bytes", ctx(), r, w.got.len());
            } else {
                ensure!(r.is_err(), "{}: reported success {:?}", ctx(), r);
                c.count("write faults reported", 1);
            }
            c.max("most interruptions in a row", intr.saturating_sub(100));
        }
        c.distinct(hash_bytes(t as u64 ^ k << 42, &want[..want.len().min(3000)]));
    }
    c.evals(4);
    Ok(())
}
fn p07_tags(c: &mut Case) -> R {
    let k = c.idx % KINDS;
    let v = Val::of_kind(k, &mut c.rng);
    let mut bad = vec![0u32, 1 << 29, (1 << 29) + 1, 1 << 30, 1 << 31, (1 << 31) - 1, u32::MAX, u32::MAX - 1, (1 << 31) + 1, (1 << 30) + 1, 3 << 29];
    for _ in 0..8 {
        bad.push(c.rng.range(1 << 29, u32::MAX as u64) as u32);
    }
    for b in bad {
        for form in 0..3 {
            let mut w = vec![0x55u8];
            let r = v.put(form, b, &mut w)?;
            ensure!(matches!(&r, Err(e) if e == "InvalidTag"), "tag {} with {} (form {}) returned {:?}", b, short(&v), form, r);
            ensure!(w == [0x55], "tag {} with {} (form {}) was rejected but wrote {}", b, short(&v), form, hex(&w[1..]));
            // even when the writer is broken, the tag is what is wrong
            let mut f = Faulty { got: vec![], room: 0, piece: 9, intr: 0, calls: 0, mode: 0, failed: false, once: false };
            let r = v.put(form, b, &mut f)?;
            ensure!(r.is_err() && f.calls == 0, "tag {} with {} (form {}): the writer was called {} times before the tag was rejected ({:?})", b, short(&v), form, f.calls, r);
            c.count("invalid tags rejected", 1);
        }
    }
    c.evals(19 * 6);
    c.distinct(mix(c.idx));
    Ok(())
}
fn p07_sequences(c: &mut Case) -> R {
    // several fields into one writer: what was written before the failure stays, nothing after it
    let n = c.rng.range(2, 8);
    let vals: Vec<(u32, Val)> = (0..n).map(|_| (tag(&mut c.rng), Val::random(&mut c.rng))).collect();
    let parts: Vec<Vec<u8>> = vals.iter().map(|(t, v)| v.canonical(*t)).collect();
    let whole = parts.concat();
    let room = c.rng.us(whole.len() + 1);
    let mut w = Faulty { got: vec![], room, piece: if c.rng.bool() { usize::MAX } else { 3 }, intr: *c.rng.pick(&[0, 0, 3, 120]), calls: 0, mode: c.rng.below(4) as u8, failed: false, once: c.rng.bool() };
    let mut end = 0;
    for ((t, v), p) in vals.iter().zip(&parts) {
        end += p.len();
        let r = v.put(c.rng.below(3), *t, &mut w)?;
        if end <= room {
            ensure!(r == Ok(p.len()), "field {} {} fits but returned {:?}", t, short(v), r);
        } else {
            ensure!(r.is_err(), "field {} {} does not fit ({} of {} bytes) but returned {:?}", t, short(v), w.got.len(), end, r);
            break;
        }
    }
    ensure!(whole.starts_with(&w.got), "the writer holds {} which is no prefix of {}", hex(&w.got), hex(&whole));
    c.count("sequences with a fault", 1);
    c.distinct(hash_bytes(room as u64, &whole));
    Ok(())
}

/// Payloads and lists of every length into writers that stop just before the end.
fn p07_every(c: &mut Case) -> R {
    let all = lengths_to(c, usize::MAX, 1 << 20);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let t = tag(&mut c.rng);
        let v = if n % 3 < 2 || n > 70_000 { Val::Bytes(base.take(n)) } else { Val::sized(2 * (n as u64 / SHARES[0] % 14), n, &mut c.rng) };
        let want = v.canonical(t);
        let some = c.rng.us(want.len() + 1);
        for (j, room) in [want.len() - 1, some, (want.len() - 1).saturating_sub(n), want.len()].into_iter().enumerate() {
            let piece = *c.rng.pick(&[usize::MAX, usize::MAX, 4096, 1 + n / 3]);
            let mut w = Faulty { got: vec![], room, piece, intr: *c.rng.pick(&[0, 0, 2, 103]), calls: 0, mode: ((n + j) as u64 % MODES) as u8, failed: false, once: c.rng.bool() };
            let r = v.put((n + j) as u64 % 3, t, &mut w)?;
            let ctx = || format!("field {} {} ({} bytes) into a writer failing after {} bytes (pieces of {})", t, short(&v), want.len(), room, piece);
            ensure!(want.starts_with(&w.got), "{}: what was written is no prefix of the encoding", ctx());
            if room >= want.len() {
                ensure!(r == Ok(want.len()) && w.got.len() == want.len(), "{}: returned {:?} after {} bytes", ctx(), r, w.got.len());
            } else {
                ensure!(r.is_err(), "{}: reported success {:?}", ctx(), r);
                c.count("write faults reported", 1);
            }
        }
        let bad = [0, 1 << 29, u32::MAX][n % 3];
        let mut w = vec![];
        let r = v.put(n as u64 / 3 % 3, bad, &mut w)?;
        ensure!(matches!(&r, Err(e) if e == "InvalidTag") && w.is_empty(), "tag {} with {} of {} bytes returned {:?} and wrote {} bytes", bad, short(&v), n, r, w.len());
        c.count("invalid tags rejected", 1);
        c.count("lengths swept", 1);
        c.distinct(mix(82 << 32 | n as u64));
    }
    Ok(())
}
pub fn p07() -> Prop {
    Prop {
        id: "P07",
        rule: "one evaluation = one encode call into one faulty writer: the writer fails after every possible number of bytes of each field, in four manners, with and without short writes and interruptions; invalid tags for every kind and call form; distinct and non-trivial: distinct fields",
        stages: vec![st("faults at every byte", 27 * 60, 27 * 2000, p07_faults), st("invalid tags", 27 * 20, 27 * 400, p07_tags), st("sequences", 8_000, 200_000, p07_sequences), st("large", 27 * 3, 27 * 100, p07_large), st("patience", 27, 27 * 4, p07_patience), ex("every length", SHARES[0], SHARES[1], p07_every)],
        floors: vec![("write faults reported", 20_000), ("invalid tags rejected", 10_000), ("complete despite short writes or interruptions", 1000), ("lengths swept", 12_000)],
    }
}
