//! Huffman monitors U01..U06.

use crate::gen::{relatives, content, lengths, lengths_to, Base, SHARES};
use crate::refhuff as rh;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::*;
use crate::{ensure, fail};
use httlib_huffman as hf;
use std::collections::{HashMap, HashSet};

const fn st(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: false }
}
const fn ex(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: true }
}

pub const SPEEDS: [hf::DecoderSpeed; 5] = [
    hf::DecoderSpeed::OneBit,
    hf::DecoderSpeed::TwoBits,
    hf::DecoderSpeed::ThreeBits,
    hf::DecoderSpeed::FourBits,
    hf::DecoderSpeed::FiveBits,
];

/// Room in the output beyond its length is no part of the call's meaning.
fn spare(src: &[u8], dst: &mut Vec<u8>) {
    if src.len() <= 10_000 {
        let k = src.len() + dst.len() + src.first().copied().unwrap_or(0) as usize;
        let n = [0, 1, 60, 0, 3 * src.len(), 0, 8, 2 * src.len() + 1][k % 8];
        if n > 0 {
            dst.reserve(n);
        }
    }
}
/// The same bytes at another address: 0..15 bytes into an allocation that ends where
/// they end. Nothing may depend on how the source lies in memory.
fn placed(src: &[u8]) -> (Vec<u8>, usize) {
    let h = mix(crate::rng::hash_bytes(src.len() as u64, &src[..src.len().min(16)]));
    let at = (h & 15) as usize;
    let mut v = Vec::with_capacity(at + src.len());
    v.extend((0..at).map(|i| (h >> (8 + i)) as u8));
    v.extend_from_slice(src);
    (v, at)
}

pub fn enc(src: &[u8], dst: &mut Vec<u8>) -> R<Result<(), String>> {
    spare(src, dst);
    let (v, at) = placed(src);
    let src = &v[at..];
    let r = sut("huffman::encode", || hf::encode(src, dst))?;
    Ok(r.map_err(|e| format!("{:?}", e)))
}
pub fn dec(src: &[u8], dst: &mut Vec<u8>, s: hf::DecoderSpeed) -> R<Result<(), String>> {
    spare(src, dst);
    let (v, at) = placed(src);
    let src = &v[at..];
    let r = sut("huffman::decode", || hf::decode(src, dst, s))?;
    Ok(r.map_err(|e| format!("{:?}", e)))
}

/// A text: symbol mixes that exercise short codes, the longest codes, and everything between.
fn text(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = match r.below(8) {
        0 => r.us(4),
        1..=4 => r.us(24),
        5..=6 => r.us(100),
        _ => r.us(max),
    };
    match r.below(4) {
        0 => {
            // uniform over code lengths, then over the symbols of that length
            (0..n)
                .map(|_| loop {
                    let l = r.range(5, 30) as u8;
                    let c: Vec<u8> = (0..256).filter(|&s| rh::LENGTHS[s] == l).map(|s| s as u8).collect();
                    if !c.is_empty() {
                        break *r.pick(&c);
                    }
                })
                .collect()
        }
        _ => content(r, n),
    }
}

fn junk(r: &mut Rng) -> Vec<u8> {
    match r.below(3) {
        0 => vec![],
        _ => {
            let n = match r.below(400) {
                0 => 70_000,
                1..=8 => r.us(3000),
                _ => r.us(20),
            };
            r.bytes(n)
        }
    }
}

/// A text whose encoding has exactly `bits` bits (at least 20).
fn text_of_bits(r: &mut Rng, bits: usize) -> Vec<u8> {
    let mut s = vec![];
    let mut left = bits;
    while left > 60 {
        let part = content(r, (left / 12).clamp(1, 4000));
        for b in part {
            let l = rh::LENGTHS[b as usize] as usize;
            if left < l + 20 {
                break;
            }
            s.push(b);
            left -= l;
        }
    }
    while left % 6 != 0 {
        s.push(*r.pick(b"012aceiost"));
        left -= 5;
    }
    while left > 0 {
        s.push(*r.pick(b" %-./3456789=A_bdfghlmnpru"));
        left -= 6;
    }
    s
}
/// Encodings of lengths around those at which counters turn over, with every number of padding bits.
const TURNS: [usize; 9] = [255, 256, 257, 65_535, 65_536, 65_537, (1 << 24) - 1, 1 << 24, (1 << 24) + 1];
fn turn(c: &mut Case) -> Vec<u8> {
    let bits = TURNS[c.idx as usize / 8] * 8 - c.idx as usize % 8;
    let s = text_of_bits(&mut c.rng, bits);
    assert_eq!(s.iter().map(|&b| rh::LENGTHS[b as usize] as usize).sum::<usize>(), bits);
    c.count("texts of exact encoded lengths", 1);
    c.distinct(mix(77 << 32 | c.idx));
    s
}
fn u01_turns(c: &mut Case) -> R {
    let s = turn(c);
    check_enc(c, &s, &[])?;
    // and as many symbols
    let n = TURNS[c.idx as usize / 8];
    let s = content(&mut c.rng, n);
    check_enc(c, &s, &[9])
}
fn u02_turns(c: &mut Case) -> R {
    let s = turn(c);
    round(c, &s, &[])?;
    let n = TURNS[c.idx as usize / 8];
    let s = content(&mut c.rng, n);
    round(c, &s, &[9])
}
fn u03_turns(c: &mut Case) -> R {
    let s = turn(c);
    let mut e = rh::encode(&s);
    verdict(c, &e, &[])?;
    *e.last_mut().unwrap() ^= 1;
    verdict(c, &e, &[])
}

/// Every number of symbols, and every length of what is already in the output.
fn u01_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let s = base.take(n);
        check_enc(c, &s, &[])?;
        let pre = base.take(n);
        let s = base.take(1 + n % 7);
        check_enc(c, &s, &pre)?;
        c.count("lengths swept", 1);
        c.distinct(mix(78 << 32 | n as u64));
    }
    Ok(())
}
fn u02_every(c: &mut Case) -> R {
    let all = lengths_to(c, 12_000, 1 << 18);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let s = base.take(n);
        round(c, &s, &[])?;
        let pre = base.take(n);
        let s = base.take(1 + n % 7);
        round(c, &s, &pre)?;
        c.count("lengths swept", 1);
        c.distinct(mix(78 << 32 | n as u64));
    }
    Ok(())
}
/// Sources of every length in bytes, well formed and with a last bit that is wrong, and every
/// length of what is already in the output.
fn u03_every(c: &mut Case) -> R {
    for n in lengths_to(c, 8_000, 1 << 17) {
        let syms = n * 8 / 5;
        let off = c.rng.us(1000);
        let s: Vec<u8> = (0..syms).map(|i| b"012aceiost"[(off + i * 7 + i / 13) % 10]).collect();
        let mut e = rh::encode(&s);
        assert_eq!(e.len(), n);
        verdict(c, &e, &[])?;
        if let Some(b) = e.last_mut() {
            *b ^= 1;
            verdict(c, &e, &[])?;
        }
        let pre = vec![n as u8; n];
        verdict(c, &[0x1f, 0xff][..1 + n % 2], &pre)?;
        c.count("lengths swept", 1);
        c.distinct(mix(78 << 32 | n as u64));
    }
    Ok(())
}

/// Texts of tens of megabytes, coded to more than 16 MiB.
fn giant_text(c: &mut Case) -> Vec<u8> {
    set_cap(8 << 30);
    let n = if cfg!(miri) { 3000 } else { (17 << 20) + c.rng.us(9000) };
    let mut s = content(&mut c.rng, 1 << 20);
    for b in s.iter_mut().step_by(3) {
        *b = b.wrapping_mul(31) ^ 0xa5; // longer codes
    }
    while s.len() < n {
        let k = s.len().min(n - s.len());
        s.extend_from_within(..k);
        let at = s.len() - k;
        s[at] ^= c.rng.u8();
    }
    s.truncate(n);
    c.max("longest text", n as u64);
    c.distinct(mix(80 << 32 | n as u64));
    s
}
fn u01_giant(c: &mut Case) -> R {
    let s = giant_text(c);
    let mut out = vec![3];
    let r = enc(&s, &mut out)?;
    ensure!(r.is_ok() && out[0] == 3, "encoding {} octets: {:?}", s.len(), r);
    ensure!(out[1..] == rh::encode(&s)[..], "a text of {} octets ({}) is not encoded as RFC 7541 prescribes", s.len(), show(&s[..20]));
    c.count("symbols encoded", s.len() as u64);
    Ok(())
}
fn u02_giant(c: &mut Case) -> R {
    let s = giant_text(c);
    round(c, &s, &[])
}

/// Texts that resemble one another, one after another.
fn u01_kin(c: &mut Case) -> R {
    for s in relatives(&mut c.rng, 120) {
        check_enc(c, &s, &[])?;
        c.count("related texts", 1);
    }
    Ok(())
}
fn u02_kin(c: &mut Case) -> R {
    for s in relatives(&mut c.rng, 60) {
        round(c, &s, &[])?;
        c.count("related texts", 1);
    }
    Ok(())
}
/// Encoded texts of one length, some of them broken in one bit, one after another.
fn u03_kin(c: &mut Case) -> R {
    for s in relatives(&mut c.rng, 60) {
        let mut e = rh::encode(&s);
        verdict(c, &e, &[])?;
        if c.rng.chance(1, 4) {
            let k = c.rng.us(e.len());
            e[k] ^= 1 << c.rng.below(8);
            verdict(c, &e, &[])?;
        }
        c.count("related texts", 1);
    }
    Ok(())
}

// ---------------------------------------------------------------- U01

fn check_enc(c: &mut Case, src: &[u8], pre: &[u8]) -> R {
    let mut out = pre.to_vec();
    let r = enc(src, &mut out)?;
    ensure!(r.is_ok(), "encoding {} failed: {:?}", show(src), r);
    ensure!(out.len() >= pre.len() && out[..pre.len()] == *pre, "encoding {} changed bytes already in the output", show(src));
    let want = rh::encode(src);
    ensure!(out[pre.len()..] == want[..], "encoding {} gives {} but RFC 7541 prescribes {}", show(src), hex(&out[pre.len()..]), hex(&want));
    c.count("symbols encoded", src.len() as u64);
    Ok(())
}

fn u01_pairs(c: &mut Case) -> R {
    let a = c.idx as u8;
    if c.idx == 0 {
        check_enc(c, &[], &[])?;
        check_enc(c, &[], &[1, 2, 3])?;
    }
    check_enc(c, &[a], &[])?;
    for b in 0..=255u8 {
        check_enc(c, &[a, b], &[])?;
        c.distinct(mix(1 << 40 | (a as u64) << 8 | b as u64));
    }
    // every bit phase in front of the symbol and in front of its successor
    for k in 0..8 {
        let mut s = vec![b'0'; k];
        s.push(a);
        check_enc(c, &s, &[0xaa])?;
        s.push(a ^ 0x5a);
        s.push(b'x');
        check_enc(c, &s, &[])?;
    }
    c.count("symbol pairs", 256);
    c.evals(273);
    Ok(())
}
fn u01_triples(c: &mut Case) -> R {
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            check_enc(c, &[c.idx as u8, a, b], &[])?;
        }
    }
    c.count("symbol triples", 65536);
    c.evals(65536);
    c.distinct(mix(2 << 40 | c.idx));
    Ok(())
}
fn u01_random(c: &mut Case) -> R {
    let s = text(&mut c.rng, 600);
    let pre = junk(&mut c.rng);
    check_enc(c, &s, &pre)?;
    if s.len() > 2 {
        c.distinct(hash_bytes(1, &s));
    }
    c.max("longest text", s.len() as u64);
    c.sample(|| format!("encode({}) -> {}", show(&s), hex(&rh::encode(&s))));
    Ok(())
}
fn u01_long(c: &mut Case) -> R {
    let n = c.rng.range(5_000, 300_000) as usize;
    let s = content(&mut c.rng, n);
    check_enc(c, &s, &[7])?;
    c.distinct(hash_bytes(2, &s));
    c.max("longest text", n as u64);
    Ok(())
}

pub fn u01() -> Prop {
    Prop {
        id: "U01",
        rule: "one evaluation = one call of the real encoder compared bit for bit with an independent canonical-code encoder; all symbol pairs and phases are enumerated; distinct and non-trivial: distinct source texts of at least two symbols",
        stages: vec![ex("pairs", 256, 256, u01_pairs), ex("triples", 0, 256, u01_triples), st("random", 60_000, 1_500_000, u01_random), st("long", 60, 1500, u01_long), st("giant", 1, 6, u01_giant), ex("exact lengths", 48, 72, u01_turns), ex("every length", SHARES[0], SHARES[1], u01_every), st("relatives", 200, 6000, u01_kin)],
        floors: vec![("symbol pairs", 65536), ("symbols encoded", 1_000_000), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- U02

fn round(c: &mut Case, src: &[u8], pre: &[u8]) -> R {
    let mut e = pre.to_vec();
    let r = enc(src, &mut e)?;
    ensure!(r.is_ok(), "encoding {} failed: {:?}", show(src), r);
    ensure!(e.starts_with(pre), "encoding {} changed bytes already in the output", show(src));
    let e = &e[pre.len()..];
    for sp in SPEEDS {
        let mut d = pre.to_vec();
        let r = dec(e, &mut d, sp)?;
        ensure!(r.is_ok(), "decoding {} ({}) at {:?} failed: {:?}", hex(e), show(src), sp, r);
        ensure!(d.len() >= pre.len() && d[..pre.len()] == *pre, "decoding {} at {:?} changed bytes already in the output", hex(&e), sp);
        ensure!(d[pre.len()..] == *src, "decoding {} at {:?} gives {} instead of {}", hex(&e), sp, show(&d[pre.len()..]), show(src));
    }
    c.count("round trips (5 speeds each)", 1);
    c.count("symbols round-tripped", 5 * src.len() as u64);
    Ok(())
}
fn u02_pairs(c: &mut Case) -> R {
    let a = c.idx as u8;
    round(c, &[], &[9])?;
    round(c, &[a], &[])?;
    for b in 0..=255u8 {
        round(c, &[a, b], &[])?;
        c.distinct(mix(1 << 40 | (a as u64) << 8 | b as u64));
    }
    for k in 0..40 {
        let mut s = vec![b'0'; k];
        s.push(a);
        round(c, &s, &[0xff])?;
        s.push(!a);
        s.push(a.rotate_left(3));
        round(c, &s, &[])?;
    }
    c.count("symbol pairs", 256);
    c.evals(338);
    Ok(())
}
fn u02_triples(c: &mut Case) -> R {
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            round(c, &[c.idx as u8, a, b], &[])?;
        }
    }
    c.evals(65536);
    c.distinct(mix(2 << 40 | c.idx));
    Ok(())
}
fn u02_random(c: &mut Case) -> R {
    let s = text(&mut c.rng, 500);
    let pre = junk(&mut c.rng);
    round(c, &s, &pre)?;
    if s.len() > 2 {
        c.distinct(hash_bytes(1, &s));
    }
    c.max("longest text", s.len() as u64);
    c.sample(|| format!("{} -> {} -> same at 5 speeds", show(&s), hex(&rh::encode(&s))));
    Ok(())
}
fn u02_long(c: &mut Case) -> R {
    let n = c.rng.range(5_000, 200_000) as usize;
    let s = content(&mut c.rng, n);
    round(c, &s, &[7])?;
    c.distinct(hash_bytes(2, &s));
    c.max("longest text", n as u64);
    Ok(())
}
/// Runs of one symbol and runs ending in another: lengths that move every phase.
fn u02_runs(c: &mut Case) -> R {
    let a = c.idx as u8;
    for n in 1..=41usize {
        let mut s = vec![a; n];
        round(c, &s, &[])?;
        s.push(b'~');
        round(c, &s, &[])?;
    }
    c.evals(82);
    c.distinct(mix(3 << 40 | c.idx));
    Ok(())
}

pub fn u02() -> Prop {
    Prop {
        id: "U02",
        rule: "one evaluation = one text encoded by the real encoder and decoded by the real decoder at all five speeds, compared with the text; all pairs, runs and bit phases are enumerated; distinct and non-trivial: distinct texts of at least two symbols",
        stages: vec![ex("pairs", 256, 256, u02_pairs), ex("runs", 256, 256, u02_runs), ex("triples", 0, 256, u02_triples), st("random", 40_000, 800_000, u02_random), st("long", 24, 600, u02_long), st("giant", 1, 6, u02_giant), ex("exact lengths", 48, 72, u02_turns), ex("every length", SHARES[0], SHARES[1], u02_every), st("relatives", 200, 6000, u02_kin)],
        floors: vec![("symbol pairs", 65536), ("symbols round-tripped", 2_000_000), ("lengths swept", 10_000)],
    }
}

// ---------------------------------------------------------------- U03

fn verdict(c: &mut Case, src: &[u8], pre: &[u8]) -> R {
    let want = rh::decode(src);
    for sp in SPEEDS {
        let mut d = pre.to_vec();
        let r = dec(src, &mut d, sp)?;
        match (&want, r) {
            (Some(w), Ok(())) => {
                ensure!(d.len() >= pre.len() && d[..pre.len()] == *pre, "decoding {} at {:?} changed bytes already in the output", hex(src), sp);
                ensure!(d[pre.len()..] == w[..], "decoding {} at {:?} gives {} but RFC 7541 prescribes {}", hex(src), sp, show(&d[pre.len()..]), show(w));
            }
            (Some(w), Err(e)) => fail!("{} at {:?} is rejected ({}) but is valid: {}", hex(src), sp, e, show(w)),
            (None, Ok(())) => fail!("{} at {:?} is accepted as {} but is invalid under RFC 7541 section 5.2", hex(src), sp, show(&d[pre.len()..])),
            (None, Err(e)) => ensure!(e == "InvalidInput", "{} at {:?} reports {} instead of invalid input", hex(src), sp, e),
        }
    }
    if want.is_some() {
        c.count("valid inputs (5 speeds each)", 1);
    } else {
        c.count("invalid inputs (5 speeds each)", 1);
    }
    Ok(())
}

fn u03_short(c: &mut Case) -> R {
    let a = c.idx as u8;
    if a == 0 {
        verdict(c, &[], &[])?;
    }
    verdict(c, &[a], &[])?;
    for b in 0..=255u8 {
        verdict(c, &[a, b], &[])?;
    }
    c.evals(257);
    c.distinct(mix(c.idx));
    c.count("enumerated byte strings", 257);
    Ok(())
}
fn u03_three(c: &mut Case) -> R {
    // thorough: all 3-byte strings
    let a = c.idx as u8;
    for b in 0..=255u8 {
        for d in 0..=255u8 {
            verdict(c, &[a, b, d], &[])?;
        }
    }
    c.evals(65536);
    c.distinct(mix(1 << 32 | c.idx));
    c.count("enumerated byte strings", 65536);
    Ok(())
}

fn bits_of(n: usize, len: usize) -> Vec<bool> {
    (0..len).rev().map(|k| n >> k & 1 == 1).collect()
}
fn pack(bits: &[bool]) -> Vec<u8> {
    assert!(bits.len() % 8 == 0);
    bits.chunks(8).map(|c| c.iter().fold(0u8, |a, &b| a << 1 | b as u8)).collect()
}
fn sym_bits(s: usize) -> Vec<bool> {
    bits_of(rh::codes()[s] as usize, rh::LENGTHS[s] as usize)
}

/// Every proper code prefix, at every bit phase, completed to an octet by every filler.
fn u03_prefixes(c: &mut Case) -> R {
    static P: std::sync::OnceLock<Vec<Vec<bool>>> = std::sync::OnceLock::new();
    let prefixes = P.get_or_init(|| {
        let mut seen = HashSet::new();
        let mut v = vec![];
        for s in 0..257 {
            let b = sym_bits(s);
            for k in 0..=b.len() {
                if seen.insert(b[..k].to_vec()) {
                    v.push(b[..k].to_vec());
                }
            }
        }
        v
    });
    let lo = c.idx as usize * prefixes.len() / c.total as usize;
    let hi = (c.idx as usize + 1) * prefixes.len() / c.total as usize;
    let mut n = 0;
    for p in &prefixes[lo..hi] {
        for phase in 0..8usize {
            let mut head: Vec<bool> = vec![];
            for _ in 0..phase {
                head.extend(sym_bits(b'0' as usize)); // 5 bits each: all phases
            }
            head.extend(p);
            let gap = (8 - head.len() % 8) % 8;
            for fill in 0..(1usize << gap) {
                let mut b = head.clone();
                b.extend(bits_of(fill, gap));
                let mut s = pack(&b);
                verdict(c, &s, &[])?;
                n += 1;
                if fill == (1 << gap) - 1 || fill == 0 {
                    for tail in [&[0xffu8][..], &[0xff, 0xff], &[0xff; 3], &[0xff; 4], &[0xfe], &[0x7f], &[0x00], &[0xff, 0xfe]] {
                        let k = s.len();
                        s.extend(tail);
                        verdict(c, &s, &[])?;
                        s.truncate(k);
                        n += 1;
                    }
                }
            }
        }
        c.count("code prefixes at 8 phases with all fillers", 1);
    }
    c.evals(n);
    c.distinct(mix(2 << 32 | c.idx));
    Ok(())
}

/// Valid text, then padding of every length and shape.
fn u03_padding(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut bits = vec![];
    let k = r.us(6);
    let t = text(r, 10);
    for &s in t.iter().take(k + 1) {
        bits.extend(sym_bits(s as usize));
    }
    let mut cases = vec![];
    let gap = (8 - bits.len() % 8) % 8;
    for extra in 0..4usize {
        let n = gap + 8 * extra;
        let mut shapes = vec![vec![true; n], vec![false; n]];
        for _ in 0..3 {
            if n > 0 {
                let mut v = vec![true; n];
                v[r.us(n)] = false;
                shapes.push(v);
                let z = r.us(n + 1);
                shapes.push((0..n).map(|i| i >= z).collect()); // 0..01..1
                shapes.push((0..n).map(|i| i < z).collect()); // 1..10..0
            }
        }
        for s in shapes {
            let mut b = bits.clone();
            b.extend(s);
            cases.push(pack(&b));
        }
    }
    for s in &cases {
        verdict(c, s, &[1, 2])?;
        c.distinct(hash_bytes(4, s));
    }
    c.evals(cases.len() as u64);
    c.count("padding shapes", cases.len() as u64);
    c.sample(|| format!("text {} padded {} ways, e.g. {}", show(&t), cases.len(), hex(cases.last().unwrap())));
    Ok(())
}

/// EOS anywhere, complete or cut, with text around it.
fn u03_eos(c: &mut Case) -> R {
    let r = &mut c.rng;
    let mut bits = vec![];
    for &s in text(r, 8).iter().take(5) {
        bits.extend(sym_bits(s as usize));
    }
    let cut = r.range(1, 30) as usize;
    bits.extend(&sym_bits(256)[..cut]);
    if r.bool() {
        for &s in text(r, 8).iter().take(3) {
            bits.extend(sym_bits(s as usize));
        }
    }
    let f = r.bool();
    while bits.len() % 8 != 0 {
        bits.push(f);
    }
    let s = pack(&bits);
    c.count("inputs around EOS", 1);
    c.distinct(hash_bytes(5, &s));
    c.sample(|| format!("EOS cut to {} bits: {}", cut, hex(&s)));
    verdict(c, &s, &[])
}

fn u03_mutated(c: &mut Case) -> R {
    let t = text(&mut c.rng, 60);
    let mut s = rh::encode(&t);
    let r = &mut c.rng;
    for _ in 0..r.range(1, 3) {
        let n = s.len();
        match r.below(6) {
            0 if n > 0 => {
                let i = r.us(n);
                s[i] ^= 1 << r.below(8);
            }
            1 if n > 0 => {
                s.truncate(r.us(n));
            }
            2 => s.push(0xff),
            3 => s.push(r.u8()),
            4 if n > 0 => {
                s[n - 1] ^= 1 << r.below(8);
            }
            _ if n > 1 => {
                let i = r.us(n);
                s.remove(i);
            }
            _ => s.push(0x1f),
        }
    }
    c.distinct(hash_bytes(6, &s));
    c.count("mutated encodings", 1);
    verdict(c, &s, &[])
}
fn u03_random(c: &mut Case) -> R {
    let n = c.rng.range(3, 24) as usize;
    let mut s = c.rng.bytes(n);
    if c.rng.bool() {
        // long codes only survive in ones-heavy strings
        for b in s.iter_mut() {
            if c.rng.chance(2, 3) {
                *b |= c.rng.u8() | c.rng.u8() | c.rng.u8();
            }
        }
    }
    c.distinct(hash_bytes(7, &s));
    verdict(c, &s, &[])
}

/// Long strings: valid, or with one fault anywhere in them or at the end.
fn u03_long(c: &mut Case) -> R {
    let n = *c.rng.pick(&[300usize, 1000, 4000, 20_000, 70_000]);
    let r = &mut c.rng;
    let t = content(r, n);
    let mut s = rh::encode(&t);
    let k = match r.below(3) {
        0 => s.len() - 1,
        1 => s.len() - 1 - r.us(s.len().min(40)),
        _ => r.us(s.len()),
    };
    match r.below(6) {
        0 => {}
        1 => s[k] ^= 1 << r.below(8),
        2 => s.extend([0xff, 0xff, 0xff, 0xff]),
        3 => s.push(0xff),
        4 => s.truncate(k),
        _ => {
            s.splice(k..k, [0xff, 0xff, 0xff, 0xfc]);
        }
    }
    c.max("longest string", s.len() as u64);
    c.distinct(hash_bytes(8, &s));
    verdict(c, &s, &[5])
}

pub fn u03() -> Prop {
    Prop {
        id: "U03",
        rule: "one evaluation = one byte string decoded by the real decoder at all five speeds and by a bit-by-bit reference decoder, comparing acceptance, result and error; strings up to 2 bytes (3 at thorough), and all code prefixes x phases x fillers, are enumerated; distinct: by input (or by enumerated block)",
        stages: vec![
            ex("short strings", 256, 256, u03_short),
            ex("three bytes", 0, 256, u03_three),
            ex("prefixes", 64, 64, u03_prefixes),
            st("padding", 6_000, 150_000, u03_padding),
            st("eos", 20_000, 400_000, u03_eos),
            st("mutated", 60_000, 1_500_000, u03_mutated),
            st("random", 60_000, 1_500_000, u03_random),
            st("long", 120, 3_000, u03_long),
            ex("exact lengths", 48, 72, u03_turns),
            ex("every length", SHARES[0], SHARES[1], u03_every), st("relatives", 100, 3000, u03_kin),
        ],
        floors: vec![("valid inputs (5 speeds each)", 20_000), ("invalid inputs (5 speeds each)", 20_000), ("enumerated byte strings", 65536), ("lengths swept", 8_000)],
    }
}

// ---------------------------------------------------------------- U04

/// Memory allowed while handling `n` received bytes: a generous constant factor.
pub fn mem_bound(n: usize) -> usize {
    64 * n + (64 << 10)
}

fn hostile(c: &mut Case, src: &[u8], sp: hf::DecoderSpeed) -> R {
    let mut d = vec![];
    set_cap((mem_bound(src.len()) + (8 << 20)) as isize);
    let r = dec(src, &mut d, sp)?;
    let peak = last_peak();
    ensure!(d.len() * 5 <= src.len() * 8, "{} input bytes gave {} output bytes at {:?}", src.len(), d.len(), sp);
    ensure!(peak <= mem_bound(src.len()), "{} input bytes needed {} bytes of memory at {:?}", src.len(), peak, sp);
    c.max("peak memory per input byte (percent, inputs over 4 KiB)", if src.len() > 4096 { (peak * 100 / src.len()) as u64 } else { 0 });
    c.count(if r.is_ok() { "hostile inputs accepted" } else { "hostile inputs rejected" }, 1);
    Ok(())
}
fn u04_all(c: &mut Case) -> R {
    let n = match c.rng.below(8) {
        0 => c.rng.us(4),
        1..=4 => c.rng.us(40),
        5..=6 => c.rng.us(400),
        _ => c.rng.us(5000),
    };
    let r = &mut c.rng;
    let s: Vec<u8> = match r.below(7) {
        0 => r.bytes(n),
        1 => vec![0xff; n],
        2 => vec![r.u8(); n],
        3 => {
            let t = text(r, n + 1);
            let mut s = rh::encode(&t);
            for _ in 0..r.us(4) {
                if !s.is_empty() {
                    let k = r.us(s.len());
                    s[k] ^= 1 << r.below(8);
                }
            }
            s
        }
        4 => (0..n).map(|_| r.u8() | r.u8() | r.u8()).collect(),
        5 => {
            let mut s = rh::encode(&text(r, n + 1));
            s.extend(vec![0xff; r.us(40)]);
            s
        }
        _ => {
            let a = r.bytes(3);
            (0..n).map(|i| a[i % 3]).collect()
        }
    };
    c.distinct(hash_bytes(8, &s));
    for sp in SPEEDS {
        hostile(c, &s, sp)?;
    }
    c.evals(5);
    c.sample(|| format!("{} bytes: {}", s.len(), hex(&s)));
    Ok(())
}
fn u04_short(c: &mut Case) -> R {
    for b in 0..=255u8 {
        for d in [0u8, 0x1f, 0x7f, 0xf8, 0xfe, 0xff] {
            for sp in SPEEDS {
                hostile(c, &[c.idx as u8, b, d], sp)?;
            }
        }
    }
    c.distinct(mix(c.idx));
    c.evals(256 * 30);
    Ok(())
}
fn u04_large(c: &mut Case) -> R {
    let n = if c.tier == Tier::Thorough { 4 << 20 } else if c.idx % 36 >= 30 { 3 << 20 } else { 400_000 };
    let r = &mut c.rng;
    let s = match c.idx % 6 {
        0 => vec![0u8; n],             // all "0": eight symbols per five bytes
        1 => vec![0xff; n],            // ones for ever
        2 => rh::encode(&vec![b'0'; n]),
        3 => rh::encode(&r.bytes(n / 4)),
        4 => {
            let mut s = rh::encode(&content(r, n));
            s.extend([0xff, 0xff, 0xff, 0xff]);
            s
        }
        _ => (0..n).map(|_| r.u8() & 0x3f).collect(),
    };
    for sp in SPEEDS {
        hostile(c, &s, sp)?;
    }
    c.evals(5);
    c.max("largest input", s.len() as u64);
    c.distinct(hash_bytes(9, &s));
    Ok(())
}

/// Many texts decoded into one destination that is never cleared.
fn u04_append(c: &mut Case) -> R {
    let base = crate::alloc::current();
    let mut d: Vec<u8> = vec![];
    let mut fed = 0usize;
    let n = c.rng.range(10, 600);
    let one = c.rng.bool();
    let fixed = SPEEDS[c.rng.us(5)];
    let width = *c.rng.pick(&[2usize, 6, 40]);
    let mut h = mix(n);
    for _ in 0..n {
        let sp = if one { fixed } else { SPEEDS[c.rng.us(5)] };
        let s = match c.rng.below(3) {
            0 => {
                let k = c.rng.us(width + 1);
                c.rng.bytes(k)
            }
            _ => {
                let k = c.rng.us(width + 1);
                rh::encode(&c.rng.bytes(k))
            }
        };
        h = hash_bytes(h, &s);
        fed += s.len();
        let old = d.len();
        set_cap((mem_bound(fed) + (8 << 20)) as isize);
        let _ = dec(&s, &mut d, sp)?;
        let peak = last_peak();
        ensure!(d.len() >= old && (d.len() - old) * 5 <= s.len() * 8, "{} input bytes changed the destination from {} to {} bytes", s.len(), old, d.len());
        ensure!(peak <= mem_bound(fed), "{} input bytes (after {} before them into one destination) needed {} bytes of memory", s.len(), fed - s.len(), peak);
        ensure!(d.capacity() <= mem_bound(fed), "{} input bytes in all made the destination hold {} bytes of memory for {} of text", fed, d.capacity(), d.len());
    }
    d.shrink_to_fit();
    let live = crate::alloc::current() - base;
    ensure!(live <= (mem_bound(fed) + d.len()) as isize, "{} input bytes left {} bytes allocated", fed, live);
    c.count("calls into a growing destination", n);
    c.distinct(h);
    c.evals(n);
    Ok(())
}

/// Bytes of every length.
fn u04_every(c: &mut Case) -> R {
    for n in lengths_to(c, 8_000, 1 << 17) {
        let b = c.rng.u8();
        let s = match c.rng.below(4) {
            0 => c.rng.bytes(n),
            1 => vec![b; n],
            2 => rh::encode(&content(&mut c.rng, n)),
            _ => (0..n).map(|i| [0, b][(i % 7 == 6) as usize]).collect(),
        };
        for sp in SPEEDS {
            hostile(c, &s, sp)?;
        }
        c.count("lengths swept", 1);
        c.distinct(mix(83 << 32 | n as u64));
    }
    Ok(())
}
pub fn u04() -> Prop {
    Prop {
        id: "U04",
        rule: "one evaluation = one call of the real decoder under a panic guard, a processor-time watchdog and a counting allocator; distinct: by input",
        stages: vec![ex("three-byte lattice", 256, 256, u04_short), st("hostile", 60_000, 2_000_000, u04_all), st("large", 12, 48, u04_large), st("one destination", 300, 10_000, u04_append), ex("every length", SHARES[0], SHARES[1], u04_every)],
        floors: vec![("calls into a growing destination", 10_000), ("hostile inputs accepted", 1000), ("hostile inputs rejected", 1000), ("lengths swept", 7_000)],
    }
}

// ---------------------------------------------------------------- U05

type Matrix = Vec<Vec<(Option<u8>, Option<u16>, u8)>>;

/// Walk the matrix from its first row alongside a plain binary tree of the code.
fn check_matrix(m: &Matrix, codes: &[(u8, u32)], speed: usize, ctx: &str) -> R<u64> {
    let tree = rh::Tree::build(codes);
    // state: (row, tree node or -1 = no code word continues here, depth)
    let mut seen: HashSet<(usize, i32)> = HashSet::new();
    let mut todo = vec![(0usize, 0i32, String::from(""))];
    let mut found: HashMap<usize, u64> = HashMap::new();
    let mut cells = 0u64;
    while let Some((row, node, path)) = todo.pop() {
        if !seen.insert((row, node)) {
            continue;
        }
        ensure!(row < m.len(), "{}: after {} the matrix refers to row {} of {}", ctx, path, row, m.len());
        ensure!(m[row].len() == 1 << speed, "{}: row {} has {} columns instead of {}", ctx, row, m[row].len(), 1 << speed);
        for key in 0..(1usize << speed) {
            cells += 1;
            let (next, sym, left) = m[row][key];
            // follow the chunk bit by bit
            let mut n = node;
            let mut hit: Option<(usize, usize)> = None; // symbol, bits left over
            for k in (0..speed).rev() {
                if n < 0 {
                    break;
                }
                let x = tree.kids[n as usize][key >> k & 1];
                if x < 0 {
                    hit = Some(((-x - 1) as usize, k));
                    break;
                }
                n = if x == 0 { -1 } else { x };
            }
            let here = || format!("{}{:0w$b}", path, key, w = speed);
            match hit {
                Some((s, k)) => {
                    ensure!(sym == Some(s as u16), "{}: bits {} hold the code of symbol {} but the matrix says {:?}", ctx, here(), s, sym);
                    ensure!(left as usize == k, "{}: bits {} hold the code of symbol {} with {} bits left over but the matrix says {}", ctx, here(), s, k, left);
                    *found.entry(s).or_insert(0) += 1;
                }
                None => {
                    ensure!(sym.is_none(), "{}: bits {} complete no code word but the matrix recognises symbol {:?}", ctx, here(), sym);
                    if n >= 0 {
                        match next {
                            Some(r) => todo.push((r as usize, n, here() + "'")),
                            None => fail!("{}: bits {} begin a code word but the matrix stops there", ctx, here()),
                        }
                    } else if let Some(r) = next {
                        todo.push((r as usize, -1, here() + "'")); // may only lead to nothing
                    }
                }
            }
        }
    }
    for s in 0..codes.len() {
        ensure!(found.contains_key(&s), "{}: symbol {} is never recognised", ctx, s);
    }
    Ok(cells)
}

fn random_code(r: &mut Rng) -> Vec<(u8, u32)> {
    let want = match r.below(6) {
        0 => r.range(1, 4),
        1..=3 => r.range(2, 40),
        4 => r.range(30, 200),
        _ => r.range(200, 257),
    } as usize;
    let max_len = match r.below(5) {
        0 => 30,
        4 => r.range(31, 32),
        1 => r.range(9, 30),
        _ => r.range(5, 18),
    } as u8;
    let style = r.below(4);
    let mut leaves: Vec<(u8, u32)> = vec![(1, 0), (1, 1)];
    let mut guard = 0;
    while leaves.len() < want && guard < 20_000 {
        guard += 1;
        let k = match style {
            0 => r.us(leaves.len()),
            1 => leaves.len() - 1,                    // one very deep branch
            2 => (0..leaves.len()).min_by_key(|&i| leaves[i].0).unwrap(), // balanced
            _ => {
                let a = r.us(leaves.len());
                if r.chance(1, 3) {
                    a
                } else {
                    leaves.len() - 1 - r.us(1 + leaves.len() / 8)
                }
            }
        };
        let (l, c) = leaves[k];
        if l >= max_len {
            if leaves.iter().all(|x| x.0 >= max_len) {
                break;
            }
            let s = leaves.len();
            leaves.swap(k, r.us(s));
            continue;
        }
        leaves.swap_remove(k);
        leaves.push((l + 1, c << 1));
        leaves.push((l + 1, c << 1 | 1));
        if r.bool() {
            let n = leaves.len();
            leaves.swap(n - 1, n - 2);
        }
    }
    // incomplete codes: drop some words
    if r.bool() && leaves.len() > 1 {
        let keep = r.range(1, leaves.len() as u64) as usize;
        for i in 0..keep {
            let j = i + r.us(leaves.len() - i);
            leaves.swap(i, j);
        }
        leaves.truncate(keep);
    } else {
        for i in (1..leaves.len()).rev() {
            let j = r.us(i + 1);
            leaves.swap(i, j);
        }
    }
    leaves
}

fn rows_needed(codes: &[(u8, u32)], speed: usize) -> usize {
    let mut set = HashSet::new();
    for &(l, c) in codes {
        let mut k = speed;
        while k < l as usize {
            set.insert((k, c >> (l as usize - k)));
            k += speed;
        }
    }
    1 + set.len()
}

fn u05_random(c: &mut Case) -> R {
    let code = random_code(&mut c.rng);
    for sp in SPEEDS {
        let s = sp as usize;
        if rows_needed(&code, s) > 256 {
            continue; // row ids are octets: such matrices cannot be expressed
        }
        let m = sut("flattener::flatten", || hf::flattener::flatten(&code, sp))?;
        let ctx = format!("matrix of {} code words {:?} at {} bits", code.len(), &code[..code.len().min(12)], s);
        let cells = check_matrix(&m, &code, s, &ctx)?;
        c.count("matrix cells compared", cells);
        c.count("generated matrices", 1);
        c.max("most rows", m.len() as u64);
        c.max("longest code", code.iter().map(|x| x.0).max().unwrap() as u64);
    }
    let flat: Vec<u8> = code.iter().flat_map(|x| [x.0, (x.1 >> 24) as u8, (x.1 >> 16) as u8, (x.1 >> 8) as u8, x.1 as u8]).collect();
    if code.len() > 1 {
        c.distinct(hash_bytes(11, &flat));
    }
    c.evals(5);
    c.sample(|| format!("code {:?}", code));
    Ok(())
}
fn u05_rfc(c: &mut Case) -> R {
    let code: Vec<(u8, u32)> = rh::LENGTHS.iter().copied().zip(rh::codes().iter().copied()).collect();
    let shipped: Vec<(u8, u32)> = sut("ENCODE_TABLE", || hf::encoder::table::ENCODE_TABLE.iter().map(|x| (x.0, x.1)).collect::<Vec<_>>())?;
    ensure!(shipped == code, "the shipped code table differs from RFC 7541 Appendix B at symbol {:?}", (0..257).find(|&i| shipped.get(i) != code.get(i)));
    let sp = SPEEDS[c.idx as usize % 5];
    let s = sp as usize;
    let m = sut("flattener::flatten", || hf::flattener::flatten(&shipped, sp))?;
    let n = check_matrix(&m, &code, s, &format!("generated RFC matrix at {} bits", s))?;
    macro_rules! own {
        ($t:ident) => {
            hf::decoder::$t::DECODE_TABLE.iter().map(|r| r.iter().map(|x| (x.0, x.1, x.2)).collect()).collect()
        };
    }
    let shipped: Matrix = match s {
        1 => own!(table1),
        2 => own!(table2),
        3 => own!(table3),
        4 => own!(table4),
        _ => own!(table5),
    };
    let k = check_matrix(&shipped, &code, s, &format!("shipped matrix at {} bits", s))?;
    c.count("matrix cells compared", n + k);
    c.count("shipped matrices", 1);
    c.distinct(mix(s as u64));
    Ok(())
}

pub fn u05() -> Prop {
    Prop {
        id: "U05",
        rule: "one evaluation = one matrix (generated by the real flattener from a random complete or incomplete prefix code, or shipped) walked cell by cell alongside a plain binary tree; distinct and non-trivial: distinct codes of at least two words",
        stages: vec![ex("rfc", 5, 5, u05_rfc), st("random codes", 6_000, 200_000, u05_random)],
        floors: vec![("shipped matrices", 5), ("matrix cells compared", 100_000), ("generated matrices", 2000)],
    }
}

// ---------------------------------------------------------------- U06

/// One row in the layout of RFC 7541 Appendix B.
fn row(sym: usize, len: u8, code: u32) -> String {
    let mut bits = String::new();
    for (k, b) in bits_of(code as usize, len as usize).iter().enumerate() {
        if k % 8 == 0 {
            bits.push('|');
        }
        bits.push(if *b { '1' } else { '0' });
    }
    let ch = if sym == 256 {
        "EOS".to_string()
    } else if (32..127).contains(&sym) {
        format!("'{}'", sym as u8 as char)
    } else {
        String::new()
    };
    format!("{:>3} ({:>3})  {:<34}{:>14}  [{:>2}]", ch, sym, bits, format!("{:x}", code), len)
}

fn u06_rfc(c: &mut Case) -> R {
    let text = (0..257).map(|s| row(s, rh::LENGTHS[s], rh::codes()[s])).collect::<Vec<_>>().join("\n");
    let want: Vec<(u16, u32)> = (0..257).map(|s| (rh::LENGTHS[s] as u16, rh::codes()[s])).collect();
    for t in [text.clone(), text.clone() + "\n"] {
        let got = sut("parser::parse", || hf::parser::parse(&t))?;
        ensure!(got == want, "parsing the RFC table: row {:?} differs", (0..257).find(|&i| got.get(i) != want.get(i)));
    }
    let shipped: Vec<(u16, u32)> = hf::encoder::table::ENCODE_TABLE.iter().map(|x| (x.0 as u16, x.1)).collect();
    ensure!(shipped == want, "the shipped code table differs from the published table at symbol {:?}", (0..257).find(|&i| shipped.get(i) != want.get(i)));
    let kraft: u64 = shipped.iter().map(|x| 1u64 << (30 - x.0)).sum();
    ensure!(kraft == 1 << 30, "the shipped code is not complete");
    if let Ok(asset) = std::fs::read_to_string("/repo/huffman/assets/hpack-huffman.txt") {
        // the published table as it lies in the repository
        let got = sut("parser::parse", || hf::parser::parse(&asset))?;
        ensure!(got == want, "parse of the published table in assets/: row {:?} differs", (0..257).find(|&i| got.get(i) != want.get(i)));
        c.count("published tables parsed", 1);
    }
    c.count("rows parsed", 3 * 257);
    c.distinct(1);
    c.sample(|| row(65, rh::LENGTHS[65], rh::codes()[65]));
    Ok(())
}
fn u06_random(c: &mut Case) -> R {
    let r = &mut c.rng;
    let n = match r.below(4) {
        0 => r.us(3),
        1..=2 => r.us(40),
        _ => r.us(300),
    };
    let mut text = String::new();
    let mut want = vec![];
    for k in 0..n {
        let len = r.range(1, 30) as u8;
        let code = match r.below(5) {
            0 => 0,
            1 => (1u32 << len) - 1,
            2 => 1 << (len - 1),
            3 => 1,
            _ => (r.u32() as u64 & ((1u64 << len) - 1)) as u32,
        };
        let sym = if r.chance(1, 8) { r.us(257) } else { k % 257 };
        text.push_str(&row(sym, len, code));
        if k + 1 < n || r.bool() {
            text.push('\n');
        }
        want.push((len as u16, code));
    }
    let got = sut("parser::parse", || hf::parser::parse(&text))?;
    ensure!(got.len() == n, "{} rows parsed into {} pairs", n, got.len());
    for i in 0..n {
        ensure!(got[i] == want[i], "row {:?} parsed as {:?}", text.lines().nth(i).unwrap(), got[i]);
    }
    c.count("rows parsed", n as u64);
    if n > 0 {
        c.distinct(hash_bytes(12, text.as_bytes()));
    }
    c.sample(|| text.lines().next().unwrap_or("").to_string());
    Ok(())
}
/// Every length with boundary code values, one row per table.
fn u06_rows(c: &mut Case) -> R {
    let len = c.idx as u8 + 1;
    let mut n = 0;
    for sym in [0usize, 9, 10, 32, 34, 39, 48, 65, 92, 99, 100, 124, 126, 127, 128, 255, 256] {
        for k in 0..len {
            for code in [1u32 << k, (1u64 << (k + 1)) as u32 - 1, ((1u64 << len) - 1) as u32 ^ (1 << k)] {
                let t = row(sym, len, code);
                let got = sut("parser::parse", || hf::parser::parse(&t))?;
                ensure!(got == [(len as u16, code)], "row {:?} parsed as {:?}", t, got);
                n += 1;
            }
        }
    }
    c.evals(n);
    c.count("rows parsed", n);
    c.distinct(mix(99 + c.idx));
    Ok(())
}

/// Every number of rows.
fn u06_every(c: &mut Case) -> R {
    let lines: Vec<(String, (u16, u32))> = (0..400)
        .map(|k| {
            let len = c.rng.range(1, 30) as u8;
            let code = (c.rng.u32() as u64 & ((1u64 << len) - 1)) as u32;
            (row(k % 257, len, code), (len as u16, code))
        })
        .collect();
    for n in lengths_to(c, 3_000, 1 << 16) {
        let off = c.rng.us(400);
        let pick = |i: usize| &lines[(off + i * 7) % 400];
        let mut text = (0..n).map(|i| pick(i).0.as_str()).collect::<Vec<_>>().join("\n");
        if n > 0 && c.rng.bool() {
            text.push('\n');
        }
        let got = sut("parser::parse", || hf::parser::parse(&text))?;
        ensure!(got.len() == n, "{} rows parsed into {} pairs", n, got.len());
        for (i, g) in got.iter().enumerate() {
            ensure!(*g == pick(i).1, "row {} of {} {:?} parsed as {:?}", i, n, pick(i).0, g);
        }
        c.count("rows parsed", n as u64);
        c.count("numbers of rows swept", 1);
        c.distinct(mix(84 << 32 | n as u64));
    }
    Ok(())
}
pub fn u06() -> Prop {
    Prop {
        id: "U06",
        rule: "one evaluation = one generated table text in the layout of RFC 7541 Appendix B parsed by the real parser and compared with the generator's rows; distinct and non-trivial: distinct non-empty texts",
        stages: vec![ex("rfc", 1, 1, u06_rfc), ex("rows", 30, 30, u06_rows), st("random tables", 6_000, 150_000, u06_random), ex("every number of rows", SHARES[0], SHARES[1], u06_every)],
        floors: vec![("rows parsed", 50_000), ("numbers of rows swept", 2_400)],
    }
}
