//! HPACK monitors H01..H12.

use super::hcommon::*;
use crate::gen::*;
use crate::refhpack::*;
use crate::refhuff;
use crate::rng::{hash_bytes, mix, Rng};
use crate::rt::*;
use crate::{ensure, fail};

const fn st(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: false }
}
const fn ex(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Case) -> R) -> Stage {
    Stage { name, quick, thorough, run, exhaustive: true }
}

fn note(c: &mut Case, e: &Expect) {
    c.count(
        match e.kind {
            Kind::Indexed => "indexed fields",
            Kind::Incremental => "literals with indexing",
            Kind::Without => "literals without indexing",
            Kind::Never => "never-indexed literals",
            Kind::SizeUpdate => "size updates",
        },
        1,
    );
}

fn with_history(ops: &[String], r: R) -> R {
    r.map_err(|Fail(m)| {
        let k = ops.len().saturating_sub(12);
        Fail(format!("{} | last operations: {}", m, ops[k..].join("; ")))
    })
}

/// Calls in the life of one long-lived object: what 16 bits count, several times over.
const LIFE: u64 = if cfg!(miri) { 300 } else { 300_000 };

// ---------------------------------------------------------------- H01

/// One connection: random operations on a real encoder, blocks cut at random, a real
/// decoder, and the list of headers that went in as the oracle.
fn h01_history(c: &mut Case, n_ops: usize, pool: Pool, max: u32, block_len: u64, fill: &[Pair]) -> R {
    let mut log = Vec::new();
    let mut h = mix(max as u64);
    let r = (|| -> R {
        // sometimes the encoder starts smaller and announces it first
        let own = if fill.is_empty() && c.rng.chance(1, 6) { size_within(&mut c.rng, max as u64) } else { max };
        let mut enc = Enc::new(own)?;
        let mut dec = Dec::new(max)?;
        let mut m = RefTable::new(own as u64);
        let mut limit = max as u64;
        let mut want: Vec<Hdr> = vec![];
        let mut block = vec![];
        let mut done = 0u64;
        if own != max {
            let op = Op::Size(own);
            log.push(format!("encoder of {}; {}", own, show_op(&op)));
            h = hash_op(h, &op);
            enc.must(&op, true, &mut block)?;
            c.count("encoders starting with a smaller table", 1);
        }
        if !fill.is_empty() {
            enc.fill(&mut m, fill)?;
            dec.fill(fill)?;
            c.count("deep tables", 1);
        }
        for k in 0..n_ops {
            if block.is_empty() && c.rng.chance(1, 40) {
                // the application agrees on a new limit, then the encoder announces a size within it
                limit = table_size(&mut c.rng) as u64;
                dec.set_max(limit as u32)?;
                let op = Op::Size(size_within(&mut c.rng, limit));
                log.push(format!("limit {}", limit));
                log.push(show_op(&op));
                h = hash_op(h, &op);
                enc.must(&op, true, &mut block)?;
                note(c, &apply(&mut m, &op));
            }
            let op = op(&mut c.rng, &pool, &m, limit);
            let direct = c.rng.bool();
            if n_ops < 200 {
                log.push(show_op(&op));
            }
            h = hash_op(h, &op);
            enc.must(&op, direct, &mut block)?;
            let e = apply(&mut m, &op);
            note(c, &e);
            if let Some(x) = e.header {
                want.push(x);
            }
            if c.rng.chance(1, block_len) || k + 1 == n_ops {
                let mut got = vec![];
                let n = block.len();
                let r = dec.decode(&mut block, &mut got)?;
                ensure!(r.is_ok(), "decoder failed with {:?} on a block its own encoder produced ({} bytes left of {})", r, block.len(), n);
                same_headers(&got, &want, "round trip")?;
                ensure!(block.is_empty(), "decoder left {} bytes of the block", block.len());
                c.count("headers round-tripped", got.len() as u64);
                c.count("blocks", 1);
                done += got.len() as u64;
                want.clear();
                block.clear();
            }
        }
        // Sweep: every index must mean the same entry to both sides.
        let n = m.len();
        let step = 1 + n / 400;
        let mut want: Vec<Hdr> = vec![];
        for i in (1..=n).step_by(step as usize).chain([n]) {
            enc.must(&Op::Idx(i as u32), true, &mut block)?;
            let (a, b) = m.get(i).unwrap();
            want.push((a.to_vec(), b.to_vec(), 0));
        }
        let mut got = vec![];
        let r = dec.decode(&mut block, &mut got)?;
        ensure!(r.is_ok(), "sweep over all {} indexes failed: {:?}", n, r);
        same_headers(&got, &want, "sweep over all indexes")?;
        c.count("indexes swept", want.len() as u64);
        c.max("largest dynamic table", m.dynamic.len() as u64);
        c.count("evicting histories", (m.size + 200 > m.max) as u64);
        if done > 0 {
            c.distinct(h);
        }
        Ok(())
    })();
    c.sample(|| format!("table {}: {}", max, log.join("; ")));
    with_history(&log, r)
}

fn h01_small(c: &mut Case) -> R {
    let pool = if c.rng.chance(3, 4) { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let n = c.rng.range(1, 40) as usize;
    h01_history(c, n, pool, max, 4, &[])
}
fn h01_long(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = *c.rng.pick(&[64, 128, 200, 333, 512, 1000, 4096, 65536]);
    h01_history(c, 1500, pool, max, 12, &[])
}
/// Tables of hundreds or thousands of entries: lookups, references and evictions far back.
fn h01_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 4000);
    let n = c.rng.range(20, 120) as usize;
    h01_history(c, n, d.pool, d.max, 6, &d.fill)
}
/// A connection that lives through tens of thousands of insertions and blocks.
fn h01_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[200, 512, 1000]);
    h01_history(c, LIFE as usize, pool, max, 6, &[])
}
/// Single blocks of very many representations.
fn h01_many(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[0, 100, 4096, 65536]);
    let n = *c.rng.pick(&[300, 1000, 3000, 6000]);
    h01_history(c, n, pool, max, n as u64, &[])
}
fn h01_wide(c: &mut Case) -> R {
    // Many tiny entries: indexes beyond 127, 191, 254 and 2^14 in every prefix width.
    let n = match c.idx % 12 {
        0 | 4 => 17000,
        8 => 66000,
        _ => c.rng.range(150, 700) as u32,
    };
    let max = n * 35 + 100;
    let mut enc = Enc::new(max)?;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut block = vec![];
    let mut want = vec![];
    for k in 0..n {
        let op = Op::Lit(vec![k as u8], k.to_le_bytes()[1..if n > 1 << 16 { 3 } else { 2 }].to_vec(), 4);
        enc.must(&op, true, &mut block)?;
        want.push(apply(&mut m, &op).header.unwrap());
    }
    let len = m.len() as u32;
    let mut probe: Vec<u32> = vec![61, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 253, 254, 255, 256, 1 << 14, (1 << 14) + 126, (1 << 14) + 127, (1 << 14) + 128, (1 << 14) + 14, (1 << 14) + 15, (1 << 14) + 62, (1 << 14) + 63, 65535, 65536, 65537, 65599, len - 1, len];
    for _ in 0..60 {
        probe.push(c.rng.range(1, len as u64) as u32);
    }
    for i in probe {
        if i > len {
            continue;
        }
        for f in [255u8, 0, 8] {
            let op = if f == 255 { Op::Idx(i) } else { Op::IdxName(i, vec![b'v'; (i % 5) as usize], f | (i as u8 & 2)) };
            enc.must(&op, c.rng.bool(), &mut block)?;
            want.push(apply(&mut m, &op).header.unwrap());
        }
    }
    // the best format finds entries however far away they are
    for k in 0..24 {
        let at = if k < 6 { m.dynamic.len() - 1 - k } else { c.rng.us(m.dynamic.len()) };
        let (a, b) = m.dynamic[at].clone();
        let op = Op::Lit(a, if k % 3 == 2 { b"other".to_vec() } else { b }, 0x10);
        let mut emitted = vec![];
        enc.must(&op, true, &mut emitted)?;
        block.extend(emitted);
        want.push(apply(&mut m, &op).header.unwrap());
    }
    // name-indexed insertions from far positions, each shifting everything
    for _ in 0..30 {
        let i = c.rng.range(62, m.len()) as u32;
        let op = Op::IdxName(i, vec![c.rng.u8()], 4);
        enc.must(&op, true, &mut block)?;
        want.push(apply(&mut m, &op).header.unwrap());
    }
    let total = block.len();
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok(), "block of {} bytes with far indexes: {:?}", total, r);
    same_headers(&got, &want, "far indexes")?;
    c.count("headers round-tripped", got.len() as u64);
    c.max("largest dynamic table", m.dynamic.len() as u64);
    c.distinct(mix(n as u64 ^ c.idx << 32));
    Ok(())
}
fn h01_strings(c: &mut Case) -> R {
    // literal lengths around every boundary of the 7-bit-prefix integer
    const B: [usize; 24] = [0, 1, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 382, 383, 16381, 16382, 16383, 16384, 16510, 16511, 16512, 2097151 + 126, 2097151 + 128, 2097151 + 129];
    let pick = |r: &mut Rng| if r.chance(1, 14) { B[r.us(24)] } else { B[r.us(20)] };
    let (ln, lv) = (pick(&mut c.rng), pick(&mut c.rng));
    let max = *c.rng.pick(&[4096u32, 0, 40000, u32::MAX]);
    let mut enc = Enc::new(max)?;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let (mut block, mut want) = (vec![], vec![]);
    for _ in 0..2 {
        let n = content(&mut c.rng, ln);
        let v = content(&mut c.rng, lv);
        let f = flags(&mut c.rng, true);
        for op in [Op::Lit(n.clone(), v.clone(), f), Op::IdxName(c.rng.range(1, 61) as u32, v, flags(&mut c.rng, false)), Op::Lit(n, vec![], 0x10)] {
            enc.must(&op, c.rng.bool(), &mut block)?;
            let e = apply(&mut m, &op);
            note(c, &e);
            want.push(e.header.unwrap());
        }
    }
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok(), "name length {}, value length {}: {:?}", ln, lv, r);
    same_headers(&got, &want, "string lengths")?;
    c.count("headers round-tripped", got.len() as u64);
    c.max("longest string", ln.max(lv) as u64);
    c.distinct(mix((ln as u64) << 32 | lv as u64) ^ hash_bytes(1, &want[0].1[..want[0].1.len().min(64)]));
    Ok(())
}
fn h01_lengths(c: &mut Case) -> R {
    // every string length 0..=1023, raw and Huffman, as name and as value
    let n = c.idx as usize;
    let mut enc = Enc::new(4096)?;
    let mut dec = Dec::new(4096)?;
    let (mut block, mut want) = (vec![], vec![]);
    let mut m = RefTable::new(4096);
    for k in 0..8u8 {
        let s = content(&mut c.rng, n);
        let f = (k & 3) | [4, 0][(k >> 2) as usize & 1];
        let op = if k & 1 == 0 { Op::Lit(s, b"v".to_vec(), f) } else { Op::Lit(b"n".to_vec(), s, f) };
        enc.must(&op, false, &mut block)?;
        want.push(apply(&mut m, &op).header.unwrap());
    }
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok(), "strings of length {}: {:?}", n, r);
    same_headers(&got, &want, "string lengths")?;
    c.count("headers round-tripped", got.len() as u64);
    c.distinct(mix(n as u64));
    Ok(())
}
/// Every length, as a name and as a value, raw and Huffman coded, stored and used again.
fn h01_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut enc = Enc::new(1 << 26)?;
        let mut dec = Dec::new(1 << 26)?;
        let mut m = RefTable::new(1 << 26);
        let (mut block, mut want) = (vec![], vec![]);
        let f = [4u8, 0, 8][n % 3];
        for op in [
            Op::Lit(base.take(n), b"v".to_vec(), f),
            Op::Lit(base.take(n), b"".to_vec(), 1 | 4),
            Op::Lit(b"n".to_vec(), base.take(n), 4),
            Op::IdxName(62, base.take(n), 2 | f),
            Op::Idx(62),
            Op::Idx(if f == 4 { 65 } else { 63 }),
        ] {
            enc.must(&op, true, &mut block)?;
            want.push(apply(&mut m, &op).header.unwrap());
        }
        let total = block.len();
        let mut got = vec![];
        let r = dec.decode(&mut block, &mut got)?;
        ensure!(r == Ok(total), "strings of {} bytes, block of {}: {:?}", n, total, r);
        same_headers(&got, &want, &format!("strings of {} bytes", n))?;
        c.count("headers round-tripped", got.len() as u64);
        c.count("string lengths swept", 1);
        c.max("longest string", n as u64);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
fn enc_ref_of_first(enc: &mut Enc, dec: &mut Dec) -> R<Pair> {
    let mut block = vec![];
    enc.must(&Op::Idx(62), true, &mut block)?;
    set_cap(8 << 30);
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok() && got.len() == 1, "index 62: {:?}", r);
    let h = got.remove(0);
    Ok((h.0, h.1))
}
fn h01_huge(c: &mut Case) -> R {
    set_cap(8 << 30);
    let n = [(16usize << 20) + 1, (1 << 27) + 1, 36 << 20, 1 << 22][c.idx as usize % 4] >> if cfg!(miri) { 14 } else { 0 };
    let f = [2u8, 0, 6, 4][c.idx as usize % 4];
    let mut s = content(&mut c.rng, n.min(1 << 22));
    while s.len() < n {
        let k = s.len().min(n - s.len());
        s.extend_from_within(..k);
    }
    let mut enc = Enc::new(u32::MAX)?;
    let mut dec = Dec::new(u32::MAX)?;
    let mut block = vec![];
    enc.must(&Op::Lit(b"x".to_vec(), s.clone(), f), false, &mut block)?;
    set_cap(8 << 30);
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok(), "value of {} bytes: {:?}", n, r);
    ensure!(got.len() == 1 && got[0].0 == b"x" && got[0].1 == s, "value of {} bytes damaged", n);
    if f & 4 != 0 && n > 100 {
        // it fits the table of 4 GiB and is still there
        let again = enc_ref_of_first(&mut enc, &mut dec)?;
        ensure!(again == (b"x".to_vec(), s), "value of {} bytes is not what index 62 holds", n);
    }
    c.count("headers round-tripped", 1);
    c.max("longest string", n as u64);
    c.distinct(mix(n as u64));
    Ok(())
}

/// The same operations again after every number of others.
fn h01_distance(c: &mut Case) -> R {
    for n in distances(c) {
        for how in 0..4 {
            let max = DISTANT[how];
            let mut enc = Enc::new(max)?;
            let mut dec = Dec::new(max)?;
            let mut m = RefTable::new(max as u64);
            let mut ops = vec![Op::Lit(b"a".to_vec(), b"b".to_vec(), 4)];
            let again = repeated();
            ops.extend(again.iter().cloned());
            ops.extend(between(&mut c.rng, how, n, max as u64));
            let per = if c.rng.bool() { usize::MAX } else { 1 + c.rng.us(200) };
            let (mut block, mut want, mut got) = (vec![], vec![], vec![]);
            for (k, op) in ops.iter().chain(&again).chain(&again).enumerate() {
                if k % per == 0 || matches!(op, Op::Size(_)) {
                    let r = dec.decode(&mut block, &mut got)?;
                    ensure!(r.is_ok(), "{}: {:?}", apart(n, how), r);
                }
                enc.must(op, k % 3 == 0, &mut block)?;
                want.extend(apply(&mut m, op).header);
            }
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok(), "{}: {:?}", apart(n, how), r);
            same_headers(&got, &want, &apart(n, how))?;
            c.count("headers round-tripped", got.len() as u64);
            c.count("distances swept", 1);
            c.distinct(mix(n as u64 ^ (how as u64) << 33 ^ 1 << 46));
        }
    }
    Ok(())
}
/// What to do with texts that resemble one another, as names, values or both.
fn kin_ops(c: &mut Case, n: usize) -> Vec<Op> {
    let all = relatives(&mut c.rng, n);
    let mut ops = vec![];
    let how = c.rng.below(4);
    let one = *c.rng.pick(&[0u8, 3, 4, 7, 8, 0x10, 0x12, 0x14, 0x17, 0x18, 0x1b]);
    for (k, s) in all.iter().enumerate() {
        let f = if how == 3 { *c.rng.pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 0x10, 0x13, 0x14, 0x17, 0x18]) } else { one };
        ops.push(match how {
            0 => Op::Lit(b"cookie".to_vec(), s.clone(), f),
            1 => Op::Lit(s.clone(), vec![], f),
            2 => Op::Lit(s.clone(), all[(k * 7 + 1) % all.len()].clone(), f),
            _ => match c.rng.below(4) {
                0 => Op::IdxName(1 + c.rng.below(61) as u32, s.clone(), f & 0xf),
                1 => Op::Lit(s.clone(), s.clone(), f),
                2 => Op::Lit(s.clone(), b"v".to_vec(), f),
                _ => Op::Lit(b"x-id".to_vec(), s.clone(), f),
            },
        });
    }
    ops
}
fn kin_size(c: &mut Case) -> u32 {
    *c.rng.pick(&[0u32, 200, 1000, 4096, 4096, 100_000])
}
/// Headers that resemble one another, through a connection.
fn h01_kin(c: &mut Case) -> R {
    let max = kin_size(c);
    let mut enc = Enc::new(max)?;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let ops = kin_ops(c, 100);
    let per = 1 + c.rng.us(20);
    let (mut block, mut want, mut got) = (vec![], vec![], vec![]);
    for (k, op) in ops.iter().enumerate() {
        let direct = c.rng.bool();
        enc.must(op, direct, &mut block)?;
        want.extend(apply(&mut m, op).header);
        if k % per == 0 || k + 1 == ops.len() {
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok() && block.is_empty(), "headers that resemble one another, after {}: {:?}", show_op(op), r);
            same_headers(&got, &want, "headers that resemble one another")?;
            c.count("headers round-tripped", got.len() as u64);
            got.clear();
            want.clear();
        }
        c.count("related headers", 1);
    }
    Ok(())
}
fn h02_kin(c: &mut Case) -> R {
    let max = kin_size(c);
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let ops = kin_ops(c, 150);
    let per = 1 + c.rng.us(20);
    let (mut block, mut want, mut got) = (vec![], vec![], vec![]);
    for (k, op) in ops.iter().enumerate() {
        let op = match op {
            // the plain writer does not look for entries
            Op::Lit(a, b, f) => Op::Lit(a.clone(), b.clone(), f & 0xf),
            o => o.clone(),
        };
        write_op(&op, &mut block);
        want.extend(apply(&mut m, &op).header);
        if m.dynamic.len() > 0 && c.rng.chance(1, 5) {
            let op = Op::Idx(62 + c.rng.us(m.dynamic.len()) as u32);
            write_op(&op, &mut block);
            want.extend(apply(&mut m, &op).header);
        }
        if k % per == 0 || k + 1 == ops.len() {
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok() && block.is_empty(), "headers that resemble one another, after {}: {:?}", show_op(&op), r);
            same_headers(&got, &want, "headers that resemble one another")?;
            c.count("headers decoded", got.len() as u64);
            got.clear();
            want.clear();
        }
        c.count("related headers", 1);
    }
    Ok(())
}
fn h03_kin(c: &mut Case) -> R {
    let max = kin_size(c);
    let mut enc = Enc::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut out = vec![];
    for op in kin_ops(c, 80) {
        out.clear();
        h03_step(c, &mut enc, &mut m, &op, &mut out)?;
        c.count("related headers", 1);
    }
    Ok(())
}
fn h04_kin(c: &mut Case) -> R {
    let max = kin_size(c);
    let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(max))?;
    let mut m = RefTable::new(max as u64);
    for op in kin_ops(c, 80) {
        let (a, b) = match op {
            Op::Lit(a, b, _) => (a, b),
            Op::IdxName(_, b, _) => (b"name".to_vec(), b),
            _ => continue,
        };
        m.insert(&a, &b);
        sut("Table::insert", || t.insert(a, b))?;
        table_compare(&t, &m, "entries that resemble one another", true)?;
        c.count("related headers", 1);
    }
    Ok(())
}
fn h12_kin(c: &mut Case) -> R {
    let max = kin_size(c);
    let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(max))?;
    let mut m = RefTable::new(max as u64);
    let ops = kin_ops(c, 80);
    let mut seen: Vec<Pair> = vec![];
    for op in ops {
        let (a, b) = match op {
            Op::Lit(a, b, _) => (a, b),
            Op::IdxName(_, b, _) => (b"name".to_vec(), b),
            _ => continue,
        };
        h12_search(c, &t, &m, &a, &b)?;
        h12_search(c, &t, &m, &b, &a)?;
        if let Some((x, y)) = seen.last().cloned() {
            h12_search(c, &t, &m, &x, &y)?;
            h12_search(c, &t, &m, &a, &y)?;
            h12_search(c, &t, &m, &x, &b)?;
        }
        seen.push((a.clone(), b.clone()));
        if c.rng.chance(2, 3) {
            m.insert(&a, &b);
            sut("Table::insert", || t.insert(a, b))?;
        }
        let k = c.rng.us(seen.len());
        h12_search(c, &t, &m, &seen[k].0, &seen[k].1)?;
        c.count("related headers", 1);
    }
    Ok(())
}
const DISTANT: [u32; 4] = [100_000_000, 300, 4096, 4000];
fn repeated() -> Vec<Op> {
    vec![
        Op::Lit(b"a".to_vec(), b"b".to_vec(), 0x10),
        Op::Lit(b"a".to_vec(), b"c".to_vec(), 0x10),
        Op::Lit(b"zz".to_vec(), b"c".to_vec(), 0x10),
        Op::Lit(b":method".to_vec(), b"GET".to_vec(), 0x10),
        Op::Lit(b"a".to_vec(), b"b".to_vec(), 0x1a),
        Op::Idx(2),
        Op::IdxName(1, b"b".to_vec(), 2),
    ]
}
fn apart(n: usize, how: usize) -> String {
    format!("the same operations again after {} {}", n, ["insertions", "insertions that evict", "operations that insert nothing", "size updates"][how])
}

pub fn h01() -> Prop {
    Prop {
        id: "H01",
        rule: "A case is one connection history: random operations (all representation forms, flags, repeats, name matches, size and limit changes) on a real encoder, cut into blocks and fed to a real decoder; non-trivial if at least one header was returned. The oracle is the list of headers put in (plus a table model giving the marks), and a final sweep of every index.",
        stages: vec![st("small", 40_000, 1_200_000, h01_small), st("long", 250, 8_000, h01_long), st("deep", 240, 8_000, h01_deep), st("many", 30, 1_000, h01_many), st("lifetime", 1, 12, h01_life), st("wide", 24, 200, h01_wide), st("strings", 600, 12_000, h01_strings), ex("lengths", 1024, 1024, h01_lengths), ex("every length", SHARES[0], SHARES[1], h01_every), st("huge", 3, 12, h01_huge), ex("every distance", SHARES[0], SHARES[1], h01_distance), st("relatives", 300, 9000, h01_kin)],
        floors: vec![("headers round-tripped", 50_000), ("indexed fields", 1000), ("never-indexed literals", 1000), ("size updates", 500), ("evicting histories", 100), ("indexes swept", 1000), ("deep tables", 100), ("string lengths swept", 12_000), ("distances swept", 2_000)],
    }
}

// ---------------------------------------------------------------- H02

fn h02_conn(c: &mut Case, blocks: u64, reps: u64, max: u32, pool: Pool, fill: &[Pair]) -> R {
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut limit = max as u64;
    let mut h = mix(max as u64);
    if !fill.is_empty() {
        dec.fill(fill)?;
        fill.iter().for_each(|e| m.insert(&e.0, &e.1));
        c.count("deep tables", 1);
    }
    for b in 0..blocks {
        let mut block = vec![];
        let mut want = vec![];
        if c.rng.chance(1, 12) {
            limit = table_size(&mut c.rng) as u64;
            dec.set_max(limit as u32)?;
            if m.max > limit {
                // the encoder must acknowledge a reduction
                let e = legal_size(&mut c.rng, &mut m, limit, &mut block);
                note(c, &e);
            }
        }
        if c.rng.chance(1, 5) {
            for _ in 0..c.rng.range(1, 3) {
                let e = legal_size(&mut c.rng, &mut m, limit, &mut block);
                note(c, &e);
            }
        }
        for _ in 0..c.rng.range(0, reps) {
            let e = legal_rep(&mut c.rng, &pool, &mut m, &mut block);
            note(c, &e);
            want.push(e.header.unwrap());
        }
        let orig = block.clone();
        let mut got = vec![];
        let r = dec.decode(&mut block, &mut got)?;
        match r {
            Ok(n) => ensure!(n == orig.len(), "valid block of {} bytes: decode reports {} | {}", orig.len(), n, hex(&orig)),
            Err(e) => fail!("valid block {} (block {} of the connection) rejected with {} after {} headers of {}", hex(&orig), b, e.1, got.len(), want.len()),
        }
        same_headers(&got, &want, &format!("valid block {} | {}", b, hex(&orig)))?;
        ensure!(block.is_empty(), "valid block not consumed: {} bytes left", block.len());
        c.count("headers decoded", got.len() as u64);
        c.count("valid blocks", 1);
        h = hash_bytes(h, &orig);
        if b == 0 {
            c.sample(|| format!("table {}: block {} -> {} headers", max, hex(&orig), got.len()));
        }
    }
    dec.probe(&m, "after valid history")?;
    c.count("table probes", 1);
    c.max("largest dynamic table", m.dynamic.len() as u64);
    c.distinct(h);
    Ok(())
}
fn h02_small(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let b = c.rng.range(1, 6);
    h02_conn(c, b, 8, max, pool, &[])
}
fn h02_long(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = *c.rng.pick(&[64, 128, 333, 1000, 4096, 65536]);
    h02_conn(c, 120, 20, max, pool, &[])
}
/// One decoder through more calls than 16 bits count.
fn h02_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80, 200, 333]);
    c.max("most blocks through one decoder", LIFE);
    h02_conn(c, LIFE, 3, max, pool, &[])
}
/// One block of tens of thousands of one- and two-octet references.
fn h02_many(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 200);
    let mut dec = Dec::new(d.max)?;
    let mut m = RefTable::new(d.max as u64);
    dec.fill(&d.fill)?;
    d.fill.iter().for_each(|e| m.insert(&e.0, &e.1));
    let n = *c.rng.pick(&[256usize, 1000, 5000, 20_000, 66_000]);
    let mut block = vec![];
    let idx: Vec<u64> = (0..n).map(|_| { let top = if c.rng.chance(1, 8) { m.len() } else { 61 }; c.rng.range(1, top) }).collect();
    for &i in &idx {
        put_int(&mut block, 0x80, 7, i, 0);
    }
    let len = block.len();
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r == Ok(len), "block of {} references ({} octets): {:?} after {} headers", n, len, r, got.len());
    ensure!(got.len() == n && block.is_empty(), "block of {} references gave {} headers, {} octets left", n, got.len(), block.len());
    for (k, &i) in idx.iter().enumerate() {
        let w = m.get(i).unwrap();
        ensure!(got[k].0 == w.0 && got[k].1 == w.1, "reference {} of {} (index {}) gave {}", k, n, i, show_hdr(&got[k]));
    }
    c.count("headers decoded", n as u64);
    c.max("most headers in a block", n as u64);
    c.distinct(mix(c.idx));
    Ok(())
}
fn h02_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 4000);
    let b = c.rng.range(2, 12);
    h02_conn(c, b, 12, d.max, d.pool, &d.fill)
}
/// Every integer field in every padded form, around every boundary.
fn h02_ints(c: &mut Case) -> R {
    let max = 700_000u32;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut block = vec![];
    let count = if c.idx % 3 == 0 { 17_000 } else { 400 };
    for k in 0..count {
        block.push(0x40);
        put_str(&mut block, &[k as u8], false, 0);
        put_str(&mut block, &[(k >> 8) as u8], false, 0);
        m.insert(&[k as u8], &[(k >> 8) as u8]);
    }
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(matches!(r, Ok(_)) && got.len() == count, "filling the table: {:?}", r);
    let mut want = vec![];
    let len = m.len();
    for _ in 0..200 {
        let i = if c.rng.bool() { *c.rng.pick(&[14u64, 15, 16, 61, 62, 63, 64, 126, 127, 128, 142, 143, 190, 191, 254, 255, 256, 16383, 16384, 16398, 16399, 16446, 16447, 16510, 16511, 16512]) } else { c.rng.range(1, len) };
        if i > len {
            continue;
        }
        let kind = *c.rng.pick(&[Kind::Indexed, Kind::Without, Kind::Never, Kind::Incremental]);
        let (p, w) = if kind == Kind::Indexed { (0x80, 7) } else { kind.literal_prefix() };
        let room = if i >= (1 << w) - 1 { 5 - int_octets(w, i) } else { 0 };
        let x = c.rng.range(0, room as u64) as usize;
        put_int(&mut block, p, w, i, x);
        let name = m.get(i).unwrap().0.to_vec();
        if kind == Kind::Indexed {
            want.push((name, m.get(i).unwrap().1.to_vec(), 0));
        } else {
            let l = *c.rng.pick(&[0usize, 1, 126, 127, 128, 254, 255, 300]);
            let v = content(&mut c.rng, l);
            let x = if l >= 127 { c.rng.range(0, 5 - int_octets(7, l as u64) as u64) as usize } else { 0 };
            put_str(&mut block, &v, false, x);
            if kind == Kind::Incremental {
                m.insert(&name, &v);
            }
            want.push((name, v, kind.mark()));
        }
        c.count("padded or boundary integers", 1);
    }
    let mut got = vec![];
    let n = block.len();
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r == Ok(n), "valid block with boundary integers: {:?} of {}", r, n);
    same_headers(&got, &want, "boundary integers")?;
    c.count("headers decoded", got.len() as u64);
    c.distinct(mix(c.idx));
    Ok(())
}
/// All 61 static entries in each representation, and all sizes of update.
fn h02_static(c: &mut Case) -> R {
    let i = c.idx + 1;
    let mut dec = Dec::new(u32::MAX)?;
    let mut m = RefTable::new(u32::MAX as u64);
    let (mut block, mut want) = (vec![], vec![]);
    let s = STATIC[c.idx as usize];
    put_int(&mut block, 0x80, 7, i, 0);
    want.push((s.0.as_bytes().to_vec(), s.1.as_bytes().to_vec(), 0));
    for kind in [Kind::Incremental, Kind::Without, Kind::Never] {
        for huff in [false, true] {
            let (p, w) = kind.literal_prefix();
            put_int(&mut block, p, w, i, 0);
            let v = value(&mut c.rng);
            put_str(&mut block, &v, huff, 0);
            if kind == Kind::Incremental {
                m.insert(s.0.as_bytes(), &v);
            }
            want.push((s.0.as_bytes().to_vec(), v, kind.mark()));
        }
    }
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok(), "static entry {}: {:?}", i, r);
    same_headers(&got, &want, &format!("static entry {}", i))?;
    dec.probe(&m, "static")?;
    c.count("headers decoded", got.len() as u64);
    c.distinct(mix(i));
    Ok(())
}
/// Every string length, in a block written by the independent encoder.
fn h02_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut dec = Dec::new(1 << 26)?;
        let mut m = RefTable::new(1 << 26);
        let (mut block, mut want) = (vec![], vec![]);
        for k in 0..4usize {
            let kind = [Kind::Incremental, Kind::Without, Kind::Never][(k + n) % 3];
            let (p, w) = kind.literal_prefix();
            let huff = k & 1 == 1;
            let s = base.take(n);
            let x = c.rng.us(6 - int_octets(7, n.max(127) as u64)); // padding where it is possible for either form
            let x = if huff { 0 } else if n < 127 { 0 } else { x };
            let h = if k < 2 {
                put_int(&mut block, p, w, 0, 0);
                put_str(&mut block, &s, huff, x);
                put_str(&mut block, b"v", false, 0);
                (s, b"v".to_vec(), kind.mark())
            } else {
                let i = c.rng.range(1, m.len());
                put_int(&mut block, p, w, i, 0);
                put_str(&mut block, &s, huff, x);
                (m.get(i).unwrap().0.to_vec(), s, kind.mark())
            };
            if kind == Kind::Incremental {
                m.insert(&h.0, &h.1);
                put_int(&mut block, 0x80, 7, 62, 0);
                want.push(h.clone());
                want.push((h.0, h.1, 0));
            } else {
                want.push(h);
            }
        }
        let total = block.len();
        let mut got = vec![];
        let r = dec.decode(&mut block, &mut got)?;
        ensure!(r == Ok(total), "valid block with strings of {} bytes: {:?} of {}", n, r, total);
        same_headers(&got, &want, &format!("strings of {} bytes", n))?;
        c.count("headers decoded", got.len() as u64);
        c.count("string lengths swept", 1);
        c.max("longest string", n as u64);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// Every table size: the update is applied exactly.
fn h02_sizes(c: &mut Case) -> R {
    let mut dec = Dec::new(1 << 23)?;
    let mut m = RefTable::new(1 << 23);
    let mut k = 0u32;
    for s in lengths(c) {
        let (mut block, mut want) = (vec![], vec![]);
        put_int(&mut block, 0x20, 5, s as u64, 0);
        m.set_max(s as u64);
        // entries that fill it exactly, and one octet more
        for l in [s / 2, s - s / 2, 1] {
            if l < 40 {
                continue;
            }
            k += 1;
            let n = k.to_le_bytes().to_vec();
            let v = vec![b'x'; l - 36];
            put_int(&mut block, 0x40, 6, 0, 0);
            put_str(&mut block, &n, false, 0);
            put_str(&mut block, &v, false, 0);
            m.insert(&n, &v);
            want.push((n, v, 4));
        }
        for i in 62..=m.len() {
            put_int(&mut block, 0x80, 7, i, 0);
            let e = m.get(i).unwrap();
            want.push((e.0.to_vec(), e.1.to_vec(), 0));
        }
        let total = block.len();
        let mut got = vec![];
        let r = dec.decode(&mut block, &mut got)?;
        ensure!(r == Ok(total), "table of {} octets: {:?} of {}", s, r, total);
        same_headers(&got, &want, &format!("table of {} octets", s))?;
        let mut bad = vec![];
        put_int(&mut bad, 0x80, 7, m.len() + 1, 0);
        let r = dec.decode(&mut bad, &mut got)?;
        ensure!(r.is_err(), "table of {} octets has an entry too many", s);
        c.count("table sizes swept", 1);
        c.distinct(mix(s as u64 ^ 1 << 40));
    }
    Ok(())
}
/// The same references again after every number of other representations.
fn h02_distance(c: &mut Case) -> R {
    for n in distances(c) {
        for how in 0..4 {
            let max = DISTANT[how];
            let mut dec = Dec::new(max)?;
            let mut m = RefTable::new(max as u64);
            let mut ops = vec![Op::Lit(b"a".to_vec(), b"b".to_vec(), 4), Op::Lit(b"c".to_vec(), b"d".to_vec(), 4)];
            let again = [Op::Idx(62), Op::Idx(63), Op::IdxName(62, b"x".to_vec(), 0), Op::IdxName(63, b"x".to_vec(), 8), Op::Idx(2), Op::IdxName(4, b"y".to_vec(), 0)];
            ops.extend(again.iter().cloned());
            ops.extend(between(&mut c.rng, how, n, max as u64));
            ops.extend(again.iter().cloned());
            ops.extend(again.iter().cloned());
            let per = if c.rng.bool() { usize::MAX } else { 1 + c.rng.us(200) };
            let (mut block, mut want, mut got) = (vec![], vec![], vec![]);
            for (k, op) in ops.iter().enumerate() {
                if k % per == 0 || matches!(op, Op::Size(_)) {
                    let r = dec.decode(&mut block, &mut got)?;
                    ensure!(r.is_ok(), "{}: {:?}", apart(n, how), r);
                }
                write_op(op, &mut block);
                want.extend(apply(&mut m, op).header);
            }
            if m.dynamic.len() > 4 {
                let far = m.len();
                for i in [far, far - 1, 62 + c.rng.below(far - 62)] {
                    let op = Op::Idx(i as u32);
                    write_op(&op, &mut block);
                    want.extend(apply(&mut m, &op).header);
                }
            }
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok(), "{}: {:?}", apart(n, how), r);
            same_headers(&got, &want, &apart(n, how))?;
            c.count("headers decoded", got.len() as u64);
            c.count("distances swept", 1);
            c.distinct(mix(n as u64 ^ (how as u64) << 33 ^ 1 << 46));
        }
    }
    Ok(())
}
/// An operation as the plainest encoder would write it.
fn write_op(op: &Op, out: &mut Vec<u8>) {
    match op {
        Op::Size(s) => put_int(out, 0x20, 5, *s as u64, 0),
        Op::Idx(i) => put_int(out, 0x80, 7, *i as u64, 0),
        Op::IdxName(i, v, f) => {
            let (p, w) = kind_of_flags(*f).literal_prefix();
            put_int(out, p, w, *i as u64, 0);
            put_str(out, v, f & 2 != 0, 0);
        }
        Op::Lit(n, v, f) => {
            let (p, w) = kind_of_flags(*f).literal_prefix();
            put_int(out, p, w, 0, 0);
            put_str(out, n, f & 1 != 0, 0);
            put_str(out, v, f & 2 != 0, 0);
        }
    }
}

pub fn h02() -> Prop {
    Prop {
        id: "H02",
        rule: "A case is one connection of valid header blocks written by an independent RFC 7541 encoder that picks every legal option at random (representation, index among duplicates, Huffman per string, padded integers up to five octets, size updates at block start, limit changes); the headers it meant are the oracle and the decoder's table is probed at the end. Distinct by block bytes.",
        stages: vec![st("small", 60_000, 1_500_000, h02_small), st("long", 250, 8_000, h02_long), st("deep", 400, 12_000, h02_deep), st("many", 10, 200, h02_many), st("lifetime", 1, 12, h02_life), st("integers", 24, 300, h02_ints), ex("static", 61, 61, h02_static), ex("every length", SHARES[0], SHARES[1], h02_every), ex("every table size", SHARES[0], SHARES[1], h02_sizes), ex("every distance", SHARES[0], SHARES[1], h02_distance), st("relatives", 300, 9000, h02_kin)],
        floors: vec![("headers decoded", 100_000), ("valid blocks", 10_000), ("size updates", 1000), ("padded or boundary integers", 500), ("table probes", 1000), ("deep tables", 100), ("string lengths swept", 12_000), ("table sizes swept", 12_000), ("distances swept", 2_000)],
    }
}

// ---------------------------------------------------------------- H03

fn h03_step(c: &mut Case, enc: &mut Enc, m: &mut RefTable, op: &Op, out: &mut Vec<u8>) -> R {
    let before = out.clone();
    let direct = c.rng.bool();
    enc.must(op, direct, out)?;
    ensure!(out.len() > before.len() && out[..before.len()] == before[..], "{}: earlier output was modified", show_op(op));
    if matches!(op, Op::Lit(_, _, f) if f & 0x10 != 0) {
        let (full, name) = match op {
            Op::Lit(n, v, _) => (m.full_match(n, v), m.name_match(n)),
            _ => unreachable!(),
        };
        c.count(if full { "best format with full match" } else if name { "best format with name match" } else { "best format without match" }, 1);
    }
    check_emitted(m, op, &out[before.len()..]).map_err(|e| Fail(format!("{} with {} dynamic entries: {}", show_op(op), m.dynamic.len(), e)))?;
    let e = apply(m, op);
    note(c, &e);
    c.count("representations checked", 1);
    Ok(())
}
fn h03_hist(c: &mut Case, n: usize, max: u32, pool: Pool, fill: &[Pair]) -> R {
    let mut enc = Enc::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut h = mix(max as u64);
    let k = c.rng.us(4);
    let mut out = c.rng.bytes(k);
    let mut log = vec![];
    let r = (|| -> R {
        if !fill.is_empty() {
            enc.fill(&mut m, fill)?;
            c.count("deep tables", 1);
        }
        for _ in 0..n {
            let op = op(&mut c.rng, &pool, &m, max as u64);
            h = hash_op(h, &op);
            if n < 100 {
                log.push(show_op(&op));
            }
            h03_step(c, &mut enc, &mut m, &op, &mut out)?;
            if c.rng.chance(1, 6) {
                let k = c.rng.us(6);
                out = c.rng.bytes(k);
            }
        }
        Ok(())
    })();
    c.sample(|| format!("table {}: {}", max, log.join("; ")));
    c.distinct(h);
    with_history(&log, r)
}
fn h03_small(c: &mut Case) -> R {
    let pool = if c.rng.chance(3, 4) { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let n = c.rng.range(1, 40) as usize;
    h03_hist(c, n, max, pool, &[])
}
fn h03_long(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = *c.rng.pick(&[64, 128, 333, 1000, 4096]);
    h03_hist(c, 1200, max, pool, &[])
}
fn h03_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80, 200, 333]);
    c.max("most calls of one encoder", LIFE);
    h03_hist(c, LIFE as usize, max, pool, &[])
}
fn h03_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 4000);
    let n = c.rng.range(20, 90) as usize;
    h03_hist(c, n, d.max, d.pool, &d.fill)
}
/// Every flag byte of the documented bits with every kind of match.
fn h03_flags(c: &mut Case) -> R {
    let f = (c.idx & 31) as u8;
    if f & 12 == 12 {
        return Ok(()); // both indexing kinds at once: not documented
    }
    let which = c.idx >> 5; // 0..8 match situation
    let mut enc = Enc::new(4096)?;
    let mut m = RefTable::new(4096);
    let mut out = vec![];
    for op in [Op::Lit(b"dyn-a".to_vec(), b"1".to_vec(), 4), Op::Lit(b"dyn-a".to_vec(), b"2".to_vec(), 4), Op::Lit(b"cookie".to_vec(), b"c".to_vec(), 4), Op::Lit(b"".to_vec(), b"".to_vec(), 4)] {
        h03_step(c, &mut enc, &mut m, &op, &mut out)?;
    }
    let (n, v): (&[u8], &[u8]) = match which {
        0 => (b":method", b"POST"),
        1 => (b":method", b"PATCH"),
        2 => (b"dyn-a", b"1"),
        3 => (b"dyn-a", b"3"),
        4 => (b"cookie", b"c"),
        5 => (b"cookie", b""),
        6 => (b"", b""),
        _ => (b"unknown", b"zz"),
    };
    for _ in 0..3 {
        h03_step(c, &mut enc, &mut m, &Op::Lit(n.to_vec(), v.to_vec(), f), &mut out)?;
    }
    for i in [1u32, 15, 16, 61, 62, 63, 64] {
        h03_step(c, &mut enc, &mut m, &Op::IdxName(i, v.to_vec(), f & 15), &mut out)?;
    }
    c.distinct(mix(c.idx));
    Ok(())
}
fn h03_wide(c: &mut Case) -> R {
    let n = match c.idx % 16 {
        0 | 8 | 12 => 17000u32,
        4 => 66000,
        _ => 300,
    };
    let max = n * 40;
    let mut enc = Enc::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut out = vec![];
    for k in 0..n {
        // every seventh name occurs once
        let op = Op::Lit(k.to_le_bytes()[..if k % 7 == 0 { 4 } else { 1 }].to_vec(), k.to_le_bytes()[1..3].to_vec(), 4);
        enc.must(&op, true, &mut out)?;
        apply(&mut m, &op);
    }
    out.clear();
    for i in [14u32, 15, 16, 61, 62, 63, 64, 126, 127, 128, 142, 143, 190, 191, 192, 254, 255, 16383, 16384, 16398, 16399, 16400, 16446, 16447, 16448, 16510, 16511, 16512, 65535, 65536, 65537, 65598, 65599, 66000] {
        if i as u64 <= m.len() {
            for op in [Op::Idx(i), Op::IdxName(i, vec![1], 0), Op::IdxName(i, vec![2], 8), Op::IdxName(i, vec![3], 4)] {
                out.clear();
                h03_step(c, &mut enc, &mut m, &op, &mut out)?;
            }
        }
    }
    for k in 0..24 {
        let at = if k < 10 { m.dynamic.len() - 1 - k } else { c.rng.us(m.dynamic.len()) };
        let e = m.dynamic[at].clone();
        out.clear();
        h03_step(c, &mut enc, &mut m, &Op::Lit(e.0.clone(), e.1, 0x10 | 4), &mut out)?;
        out.clear();
        h03_step(c, &mut enc, &mut m, &Op::Lit(e.0, b"??".to_vec(), 0x10 | 4), &mut out)?;
    }
    c.distinct(mix(c.idx));
    Ok(())
}
/// Size updates over the whole range of five-octet integers.
fn h03_sizes(c: &mut Case) -> R {
    let mut enc = Enc::new(4096)?;
    let mut m = RefTable::new(4096);
    let mut out = vec![];
    let mut h = 0;
    for k in 0..40u64 {
        let s = if c.idx == 0 { [0, 1, 30, 31, 32, 158, 159, 160, 16413, 16414, 16415, 16416, 2097181, 2097182, 2097183, 2097184, MAX_SIZE5 - 1, MAX_SIZE5][k as usize % 18] } else { c.rng.spread64() & 0x0fff_ffff };
        let s = s.min(MAX_SIZE5);
        let op = Op::Size(s as u32);
        h = hash_op(h, &op);
        h03_step(c, &mut enc, &mut m, &op, &mut out)?;
        h03_step(c, &mut enc, &mut m, &Op::Lit(vec![b'a'; 3], vec![b'b'; (k % 7) as usize], 4 | 0x10), &mut out)?;
    }
    c.distinct(h);
    Ok(())
}
fn h03_strings(c: &mut Case) -> R {
    let mut enc = Enc::new(0)?;
    let mut m = RefTable::new(0);
    let mut out = vec![];
    const B: [usize; 18] = [0, 1, 126, 127, 128, 129, 254, 255, 256, 16382, 16383, 16384, 16510, 16511, 16512, 16513, 40000, 2097280];
    let k = if c.idx % 40 == 39 { 17 } else { c.rng.us(17) };
    let mut h = mix(k as u64);
    for f in 0..4u8 {
        let d = content(&mut c.rng, B[k]);
        h = hash_bytes(h, &d);
        h03_step(c, &mut enc, &mut m, &Op::Lit(d.clone(), b"v".to_vec(), f), &mut out)?;
        h03_step(c, &mut enc, &mut m, &Op::Lit(b"n".to_vec(), d, f), &mut out)?;
        out.clear();
    }
    c.max("longest string", B[k] as u64);
    c.distinct(h);
    Ok(())
}
/// Every string length in every string position.
fn h03_every(c: &mut Case) -> R {
    let all = lengths(c);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut enc = Enc::new(1 << 26)?;
        let mut m = RefTable::new(1 << 26);
        let f = [4u8, 0, 8][n % 3];
        let ops = [
            Op::Lit(base.take(n), b"v".to_vec(), f),
            Op::Lit(base.take(n), b"".to_vec(), 1 | 4),
            Op::Lit(b"n".to_vec(), base.take(n), 4),
            Op::IdxName(62, base.take(n), 2 | f),
        ];
        for op in ops {
            let mut out = vec![];
            enc.must(&op, true, &mut out)?;
            check_emitted(&m, &op, &out).map_err(|e| Fail(format!("string of {} bytes: {}", n, e)))?;
            apply(&mut m, &op);
            c.count("representations checked", 1);
        }
        c.count("string lengths swept", 1);
        c.max("longest string", n as u64);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// Every amount of earlier output, and every size announced.
/// The same operations again after every number of others.
fn h03_distance(c: &mut Case) -> R {
    for n in distances(c) {
        for how in 0..4 {
            let max = DISTANT[how];
            let mut enc = Enc::new(max)?;
            let mut m = RefTable::new(max as u64);
            let mut ops = vec![Op::Lit(b"a".to_vec(), b"b".to_vec(), 4)];
            ops.extend(repeated());
            ops.extend(between(&mut c.rng, how, n, max as u64));
            ops.extend(repeated());
            ops.extend(repeated());
            let edge = ops.len() - 14;
            let mut out = vec![];
            for (k, op) in ops.iter().enumerate() {
                out.clear();
                enc.must(op, k % 3 == 0, &mut out)?;
                if k < 8 || k >= edge || k % 16 == 0 {
                    check_emitted(&m, op, &out).map_err(|e| Fail(format!("{}, {} with {} dynamic entries: {}", apart(n, how), show_op(op), m.dynamic.len(), e)))?;
                    c.count("representations checked", 1);
                }
                apply(&mut m, op);
            }
            c.count("distances swept", 1);
            c.distinct(mix(n as u64 ^ (how as u64) << 33 ^ 1 << 46));
        }
    }
    Ok(())
}
fn h03_every_size(c: &mut Case) -> R {
    let mut enc = Enc::new(4096)?;
    let mut m = RefTable::new(4096);
    let mut out = vec![];
    for n in lengths(c) {
        out.resize(n, n as u8);
        for op in [Op::Size(n as u32), Op::Lit(b"n".to_vec(), b"value".to_vec(), [4u8, 2, 0x10][n % 3])] {
            let k = out.len();
            enc.must(&op, true, &mut out)?;
            ensure!(out.len() > k && out[..n].iter().all(|b| *b == n as u8), "{} after {} bytes of output: earlier output was modified", show_op(&op), k);
            check_emitted(&m, &op, &out[k..]).map_err(|e| Fail(format!("{} after {} bytes of output: {}", show_op(&op), k, e)))?;
            apply(&mut m, &op);
            c.count("representations checked", 1);
        }
        out.clear();
        c.count("sizes swept", 1);
        c.distinct(mix(n as u64 ^ 1 << 40));
    }
    Ok(())
}
pub fn h03() -> Prop {
    Prop {
        id: "H03",
        rule: "A case is one encoder history; after every call the appended bytes are compared with the unique RFC 7541 byte sequence for the requested representation (for best format, with the set of sequences allowed by the current table contents). Distinct by operations.",
        stages: vec![st("small", 40_000, 1_200_000, h03_small), st("long", 160, 5_000, h03_long), st("lifetime", 1, 12, h03_life), ex("flags", 256, 256, h03_flags), st("deep", 240, 8_000, h03_deep), st("wide", 16, 200, h03_wide), st("sizes", 400, 20_000, h03_sizes), st("strings", 400, 8_000, h03_strings), ex("every length", SHARES[0], SHARES[1], h03_every), ex("every size", SHARES[0], SHARES[1], h03_every_size), ex("every distance", SHARES[0], SHARES[1], h03_distance), st("relatives", 200, 6000, h03_kin)],
        floors: vec![("representations checked", 100_000), ("best format with full match", 2000), ("best format with name match", 2000), ("best format without match", 1000), ("never-indexed literals", 2000), ("deep tables", 100), ("string lengths swept", 12_000), ("distances swept", 2_000), ("sizes swept", 12_000)],
    }
}

// ---------------------------------------------------------------- H04 / H12: the public table

use httlib_hpack::table::Table;

fn table_compare(t: &Table<'static>, m: &RefTable, ctx: &str, full: bool) -> R {
    let (dl, ds, mx, l) = sut("Table getters", || (t.dynamic_len(), t.dynamic_size(), t.max_dynamic_size(), t.len()))?;
    ensure!(dl == m.dynamic.len(), "{}: {} dynamic entries, RFC 7541 leaves {}", ctx, dl, m.dynamic.len());
    ensure!(ds as u64 == m.size, "{}: dynamic size {}, entries add up to {}", ctx, ds, m.size);
    ensure!(mx as u64 == m.max, "{}: maximum {} instead of {}", ctx, mx, m.max);
    ensure!(ds as u64 <= m.max, "{}: size {} above maximum {}", ctx, ds, m.max);
    ensure!(l as u64 == m.len(), "{}: length {} instead of {}", ctx, l, m.len());
    let n = m.dynamic.len();
    let step = if full { 1 } else { 1 + n / 50 };
    for k in (0..n).step_by(step).chain(if n > 0 { Some(n - 1) } else { None }) {
        let e = sut("Table::get", || t.get(62 + k as u32).map(|e| (e.0.to_vec(), e.1.to_vec())))?;
        let w = &m.dynamic[k];
        ensure!(e.as_ref() == Some(w), "{}: position {} holds {:?} instead of {}/{}", ctx, 62 + k, e.map(|e| (show(&e.0), show(&e.1))), show(&w.0), show(&w.1));
    }
    let past = sut("Table::get", || t.get(62 + n as u32).is_some() || t.get(63 + n as u32).is_some())?;
    ensure!(!past, "{}: an entry exists beyond position {}", ctx, 61 + n);
    Ok(())
}

fn h04_run(c: &mut Case, ops: u64, max: u32, small: bool, pool: &Pool, fill: &[Pair]) -> R {
    let mut t: Table<'static> = sut("Table::with_dynamic_size", || if max == 4096 { Table::default() } else { Table::with_dynamic_size(max) })?;
    let mut m = RefTable::new(max as u64);
    let mut h = mix(max as u64);
    let mut log: Vec<String> = vec![];
    let r = (|| -> R {
        for (n, v) in fill {
            m.insert(n, v);
            sut("Table::insert", || t.insert(n.clone(), v.clone()))?;
        }
        if !fill.is_empty() {
            table_compare(&t, &m, "after filling", true)?;
            c.count("deep tables", 1);
        }
        for k in 0..ops {
            let (before, bsize) = (m.dynamic.len(), m.size);
            if c.rng.chance(1, 10) {
                let s = match c.rng.below(4) {
                    0 => m.size.saturating_sub(c.rng.below(40)) as u32,
                    1 => (m.size + c.rng.below(40)) as u32,
                    _ => table_size(&mut c.rng),
                };
                h = mix(h ^ s as u64);
                log.push(format!("max {}", s));
                sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s))?;
                m.set_max(s as u64);
                c.count("maximum changes", 1);
            } else {
                let (n, v) = match c.rng.below(8) {
                    0 if m.max < 100_000 => {
                        // exactly fill, or exceed by one
                        let room = (m.max + c.rng.below(2)).saturating_sub(32);
                        let a = c.rng.below(room + 1);
                        (vec![b'f'; a as usize], vec![b'g'; (room - a) as usize])
                    }
                    1..=3 => (pool.names[c.rng.us(pool.names.len())].clone(), pool.values[c.rng.us(pool.values.len())].clone()),
                    _ if small => (vec![b'a' + k as u8 % 26], vec![b'0'; c.rng.us(6)]),
                    _ => (name(&mut c.rng), value(&mut c.rng)),
                };
                h = hash_bytes(hash_bytes(h, &n), &v);
                log.push(format!("insert {}+{}", n.len(), v.len()));
                if 32 + n.len() as u64 + v.len() as u64 > m.max {
                    c.count("entries larger than the maximum", 1);
                }
                m.insert(&n, &v);
                sut("Table::insert", || t.insert(n, v))?;
                c.count("insertions", 1);
                if m.dynamic.len() <= before {
                    c.count("evicting insertions", 1);
                }
            }
            let _ = bsize;
            c.max("most entries", m.dynamic.len() as u64);
            table_compare(&t, &m, &format!("after {}", log.last().unwrap()), m.dynamic.len() < 80 || k % 64 == 0)?;
        }
        table_compare(&t, &m, "at the end", true)
    })();
    c.distinct(h);
    c.sample(|| format!("max {}: {}", max, log.join("; ")));
    with_history(&log, r)
}
fn h04_small(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let n = c.rng.range(1, 60);
    h04_run(c, n, max, c.idx % 2 == 0, &pool, &[])
}
fn h04_long(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[100, 333, 4096, 20_000, 65536, u32::MAX]);
    h04_run(c, 3000, max, true, &pool, &[])
}
fn h04_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80, 200, 333]);
    c.max("most changes of one table", LIFE);
    h04_run(c, LIFE, max, true, &pool, &[])
}
fn h04_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 5000);
    let n = c.rng.range(20, 150);
    h04_run(c, n, d.max, c.idx % 2 == 0, &d.pool, &d.fill)
}
fn h04_big(c: &mut Case) -> R {
    // sizes beyond 16 bits and entries beyond 2^16
    let max = [4_000_000u32, 3_000_000][c.idx as usize % 2];
    let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(max))?;
    let mut m = RefTable::new(max as u64);
    for k in 0..110_000u32 {
        let (n, v) = (vec![k as u8; (k % 3) as usize], vec![(k >> 8) as u8; (k % 5) as usize]);
        m.insert(&n, &v);
        sut("Table::insert", || t.insert(n, v))?;
        if k % 8192 == 0 || (65_500..65_560).contains(&k) {
            table_compare(&t, &m, &format!("after {} insertions", k + 1), false)?;
        }
    }
    for s in [max, max / 2, 70_000, 65_536, 65_535, 1000, 0, 5000] {
        sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s))?;
        m.set_max(s as u64);
        table_compare(&t, &m, &format!("after shrinking to {}", s), false)?;
        c.count("maximum changes", 1);
    }
    let v = c.rng.bytes(100_000);
    m.set_max(u32::MAX as u64);
    sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(u32::MAX))?;
    for k in 0..200usize {
        m.insert(&[k as u8], &v[..k * 500]);
        sut("Table::insert", || t.insert(vec![k as u8], v[..k * 500].to_vec()))?;
    }
    table_compare(&t, &m, "after long entries", true)?;
    c.count("insertions", 110_200);
    c.max("most entries", m.dynamic.len() as u64);
    c.distinct(mix(c.idx));
    Ok(())
}
/// Entries and maxima of every size: what fits exactly stays, one octet more does not.
fn h04_every(c: &mut Case) -> R {
    let all = lengths_to(c, 20_000, 1 << 19);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(1 << 26))?;
        let mut m = RefTable::new(1 << 26);
        for (a, b) in [(n, 0), (0, n), (n / 2, n - n / 2), (n, 3)] {
            let (x, y) = (base.take(a), base.take(b));
            m.insert(&x, &y);
            sut("Table::insert", || t.insert(x, y))?;
            c.count("insertions", 1);
        }
        table_compare(&t, &m, &format!("entries of {} octets and little more", n), true)?;
        for s in [m.size, m.size - 1, m.size - n as u64 - 36, 32 + n as u64 + 1, 32 + n as u64] {
            m.set_max(s);
            sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s as u32))?;
            table_compare(&t, &m, &format!("entries of {} octets, maximum {}", n, s), true)?;
            c.count("maximum changes", 1);
        }
        for (a, b) in [(n, 0), (0, n), (n / 3, n - n / 3), (n, 1), (1, 2)] {
            let (x, y) = (base.take(a), base.take(b));
            m.insert(&x, &y);
            sut("Table::insert", || t.insert(x, y))?;
            table_compare(&t, &m, &format!("room for {} octets and an entry of {}+{} inserted", n + 32, a, b), true)?;
            c.count("insertions", 1);
        }
        c.count("entry sizes swept", 1);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// Every number of entries, evicted a few at a time or all together.
fn h04_counts(c: &mut Case) -> R {
    for n in lengths_to(c, 1500, 1 << 15) {
        let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(n as u32 * 34 + 1))?;
        let mut m = RefTable::new(n as u64 * 34 + 1);
        let ctx = |k: usize| format!("table filled with {} entries, {} inserted", n, k);
        for k in 0..n + 2 {
            let (x, y) = (vec![k as u8], vec![(k >> 8) as u8]);
            m.insert(&x, &y);
            sut("Table::insert", || t.insert(x, y))?;
        }
        table_compare(&t, &m, &ctx(n + 2), false)?;
        // one large entry takes the place of k others
        let k = [1, n / 2, n.saturating_sub(1), n][c.rng.us(4)];
        let (x, y) = (vec![], vec![7; (k * 34 + 1).saturating_sub(31 + c.rng.us(2))]);
        m.insert(&x, &y);
        sut("Table::insert", || t.insert(x, y))?;
        table_compare(&t, &m, &ctx(n + 3), false)?;
        let s = m.size.saturating_sub(c.rng.below(m.size + 1));
        m.set_max(s);
        sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s as u32))?;
        table_compare(&t, &m, &format!("maximum {} of a table of {} entries", s, n), false)?;
        c.count("insertions", n as u64 + 3);
        c.count("maximum changes", 1);
        c.count("entry counts swept", 1);
        c.distinct(mix(n as u64 ^ 1 << 41));
    }
    Ok(())
}
pub fn h04() -> Prop {
    Prop {
        id: "H04",
        rule: "A case is one sequence of insertions and maximum changes on a real table; after every operation its lengths, sizes and entries are compared with an RFC 7541 model. Entries that exactly fill, or exceed by one octet, are generated on purpose. Distinct by operations.",
        stages: vec![st("small", 60_000, 1_500_000, h04_small), st("long", 200, 6_000, h04_long), st("lifetime", 1, 12, h04_life), st("deep", 400, 12_000, h04_deep), st("big", 2, 16, h04_big), ex("every length", SHARES[0], SHARES[1], h04_every), ex("every count", SHARES[0], SHARES[1], h04_counts), st("relatives", 150, 4500, h04_kin)],
        floors: vec![("insertions", 200_000), ("evicting insertions", 20_000), ("entries larger than the maximum", 2000), ("maximum changes", 20_000), ("deep tables", 100), ("entry sizes swept", 12_000), ("entry counts swept", 1_500)],
    }
}

/// An iterator used in every way the standard trait offers is a walk over the same list.
fn h12_iterators(c: &mut Case, t: &Table<'static>, m: &RefTable) -> R {
    let n = m.len();
    let mut r = c.rng.clone();
    c.rng.u64();
    let start = r.below(3);
    let mut its = vec![(sut("Table::iter", || t.iter())?, 0u64)];
    for _ in 0..r.range(4, 24) {
        let k = r.us(its.len());
        let (mut it, pos) = its[k].clone();
        let far = r.chance(1, 6);
        let huge = r.chance(1, 12);
        let skip = if huge {
            // beyond what narrow counters hold
            let wrap = *r.pick(&[1u64 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 33, 1 << 63]);
            if r.chance(1, 4) { u64::MAX } else { wrap - 1 + r.below(n + 2) }
        } else if far {
            r.below(n + 3)
        } else {
            r.below(4)
        };
        let (got, at, what): (Option<Pair>, u64, &str) = sut("TableIter", || {
            let own = |e: Option<(&[u8], &[u8])>| e.map(|e| (e.0.to_vec(), e.1.to_vec()));
            match if huge { r.range(2, 4) } else { start + r.below(4) } {
                0 | 1 => (own(it.next()), pos + 1, "next"),
                2 | 3 => (own(it.nth(skip as usize)), pos.saturating_add(skip).saturating_add(1), "nth"),
                4 => (own(it.by_ref().skip(skip as usize).next()), pos.saturating_add(skip).saturating_add(1), "skip"),
                _ => (own(it.by_ref().step_by(skip as usize + 1).nth(1)), pos + skip + 2, "step_by"),
            }
        })?;
        let want = m.get(at).map(|e| (e.0.to_vec(), e.1.to_vec()));
        ensure!(got == want, "{}({}) on an iterator after {} of {} entries yields {:?} instead of entry {} {:?}", what, skip, pos, n, got, at, want);
        let left = n.saturating_sub(at);
        let (lo, hi) = sut("TableIter::size_hint", || it.size_hint())?;
        ensure!(lo as u64 <= left && hi.map_or(true, |h| h as u64 >= left), "size_hint of an iterator after {} of {} entries is {:?}", at, n, (lo, hi));
        c.count("iterator steps", 1);
        if at > n {
            ensure!(sut("TableIter::next", || it.next().is_none())?, "an iterator past the end of {} entries yields something", n);
            its[k] = (sut("Table::iter", || t.iter())?, 0);
        } else if its.len() < 4 && r.bool() {
            its.push((it, at));
        } else {
            its[k] = (it, at);
        }
    }
    for (it, pos) in its {
        let left = n - pos;
        let rest = it.clone();
        ensure!(sut("TableIter::count", || it.count())? as u64 == left, "counting an iterator after {} of {} entries", pos, n);
        let last = sut("TableIter::last", || rest.last().map(|e| (e.0.to_vec(), e.1.to_vec())))?;
        ensure!(last.as_ref().map(|e| (&e.0[..], &e.1[..])) == if left > 0 { m.get(n) } else { None }, "the last entry of an iterator after {} of {} is {:?}", pos, n, last);
    }
    Ok(())
}

/// What to search for.
fn h12_query(c: &mut Case, m: &RefTable, pool: &Pool, q: u64) -> Pair {
    match q % 16 {
        0 => pool.pair(&mut c.rng, m),
        1 => (name(&mut c.rng), value(&mut c.rng)),
        2 => {
            let s = STATIC[c.rng.us(61)];
            (s.0.as_bytes().to_vec(), s.1.as_bytes().to_vec())
        }
        3 => {
            let s = STATIC[c.rng.us(61)];
            (s.0.as_bytes().to_vec(), value(&mut c.rng))
        }
        4 => {
            let s = STATIC[c.rng.us(61)];
            (s.0.to_uppercase().into_bytes(), s.1.as_bytes().to_vec())
        }
        5 if !m.dynamic.is_empty() => m.dynamic[m.dynamic.len() - 1].clone(),
        6 if !m.dynamic.is_empty() => m.dynamic[0].clone(),
        7 if !m.dynamic.is_empty() => {
            // swapped name and value, concatenation-preserving split
            let e = &m.dynamic[c.rng.us(m.dynamic.len())];
            let mut s = [&e.0[..], &e.1[..]].concat();
            let k = if s.is_empty() { 0 } else { c.rng.us(s.len() + 1) };
            let tail = s.split_off(k);
            (s, tail)
        }
        8 if !m.dynamic.is_empty() => {
            let e = m.dynamic[c.rng.us(m.dynamic.len())].clone();
            (e.1, e.0)
        }
        9 | 10 if !m.dynamic.is_empty() => m.dynamic[c.rng.us(m.dynamic.len())].clone(),
        11 | 12 if !m.dynamic.is_empty() => (m.dynamic[c.rng.us(m.dynamic.len())].0.clone(), b"no such value".to_vec()),
        13 | 14 if !m.dynamic.is_empty() => {
            // next to an entry
            let mut e = m.dynamic[c.rng.us(m.dynamic.len())].clone();
            let which = c.rng.bool();
            near(&mut c.rng, if which { &mut e.0 } else { &mut e.1 });
            e
        }
        _ => pool.pair(&mut c.rng, m),
    }
}
fn h12_search(c: &mut Case, t: &Table, m: &RefTable, a: &[u8], b: &[u8]) -> R {
    let f = sut("Table::find", || t.find(a, b))?;
    let (full, nm) = (m.full_match(a, b), m.name_match(a));
    match f {
        Some((i, true)) => {
            ensure!(full, "search for {}/{} claims a full match at {} but no such entry exists", show(a), show(b), i);
            ensure!(m.get(i as u64) == Some((a, b)), "search for {}/{} points at {} which holds something else", show(a), show(b), i);
            c.count("full matches", 1);
        }
        Some((i, false)) => {
            ensure!(!full, "search for {}/{} misses the identical entry", show(a), show(b));
            ensure!(nm && m.get(i as u64).map(|e| e.0) == Some(a), "search for {}/{} claims the name at {}", show(a), show(b), i);
            c.count("name matches", 1);
        }
        None => {
            ensure!(!nm, "search for {}/{} finds nothing although the name exists", show(a), show(b));
            c.count("no matches", 1);
        }
    }
    Ok(())
}
fn h12_case(c: &mut Case, max: u32, inserts: u64, pool: Pool, fill: &[Pair]) -> R {
    let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(max))?;
    let mut m = RefTable::new(max as u64);
    let mut h = mix(max as u64);
    for (n, v) in fill {
        m.insert(n, v);
        sut("Table::insert", || t.insert(n.clone(), v.clone()))?;
    }
    if !fill.is_empty() {
        c.count("deep tables", 1);
    }
    // searches between the changes, each repeated after the next one
    let mut asked: Vec<Pair> = vec![];
    let mut looked: Vec<u64> = vec![];
    let some = if m.dynamic.len() < 6000 { 4 } else { 40 };
    for _ in 0..inserts {
        if c.rng.chance(1, some) {
            asked.clear();
            for _ in 0..c.rng.range(1, 3) {
                let q = c.rng.below(16);
                let p = h12_query(c, &m, &pool, q);
                h12_search(c, &t, &m, &p.0, &p.1)?;
                asked.push(p);
            }
        }
        if c.rng.chance(5, 6) {
            let (n, v) = pool.pair(&mut c.rng, &m);
            h = hash_bytes(hash_bytes(h, &n), &v);
            m.insert(&n, &v);
            sut("Table::insert", || t.insert(n, v))?;
        }
        if c.rng.chance(1, if fill.is_empty() { 8 } else { 40 }) {
            let s = if fill.is_empty() && c.rng.bool() { table_size(&mut c.rng) } else { (m.size + 40).saturating_sub(c.rng.below(m.size / 3 + 80)) as u32 };
            sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(s))?;
            m.set_max(s as u64);
            h = mix(h ^ s as u64);
        }
        for p in &asked {
            h12_search(c, &t, &m, &p.0, &p.1)?;
            c.count("searches repeated after a change", 1);
        }
        if c.rng.chance(1, 2) {
            let n = m.len();
            let mut at = vec![n, n + 1, n + 2, n + 1 + c.rng.below(40), c.rng.range(1, n), 62];
            at.append(&mut looked);
            for i in at {
                let g = sut("Table::get", || t.get(i as u32).map(|e| (e.0.to_vec(), e.1.to_vec())))?;
                ensure!(g.as_ref().map(|e| (&e.0[..], &e.1[..])) == m.get(i), "position {} of {} holds {:?} after a change, should hold {:?}", i, n, g, m.get(i));
                c.count("positions looked up between changes", 1);
                if c.rng.chance(1, 3) && looked.len() < 4 {
                    looked.push(i);
                }
            }
        }
        if c.rng.chance(1, 3) {
            asked.clear();
        }
    }
    let n = m.len();
    // position lookup over the whole space and beyond
    let step = 1 + n / 1500;
    for i in (1..=n).step_by(step as usize) {
        let g = sut("Table::get", || t.get(i as u32).map(|e| (e.0.to_vec(), e.1.to_vec())))?;
        let w = m.get(i).unwrap();
        ensure!(g.as_ref().map(|e| (&e.0[..], &e.1[..])) == Some(w), "position {} holds {:?}, should hold {}/{}", i, g, show(w.0), show(w.1));
    }
    let mut beyond = vec![0u32, n as u32 + 1, n as u32 + 2, 1 << 16, 1 << 31, u32::MAX, u32::MAX - 60, u32::MAX - 61];
    beyond.push(c.rng.u32().max(n as u32 + 1));
    for i in beyond {
        if i as u64 > n || i == 0 {
            ensure!(sut("Table::get", || t.get(i).is_none())?, "position {} of a table of {} is occupied", i, n);
            c.count("positions outside the table", 1);
        }
    }
    ensure!(sut("Table::len", || t.len())? as u64 == n, "length differs from {}", n);
    // iteration: exactly the list, in order
    let all: Vec<Pair> = sut("Table::iter", || t.iter().take(n as usize + 5).map(|e| (e.0.to_vec(), e.1.to_vec())).collect())?;
    ensure!(all.len() as u64 == n, "iteration yields {} entries of {}", all.len(), n);
    for (k, e) in all.iter().enumerate() {
        let w = m.get(k as u64 + 1).unwrap();
        ensure!((&e.0[..], &e.1[..]) == w, "iteration step {} yields {}/{} instead of {}/{}", k + 1, show(&e.0), show(&e.1), show(w.0), show(w.1));
    }
    c.count("entries iterated", n);
    h12_iterators(c, &t, &m)?;
    // search
    for q in 0..if fill.is_empty() { 16 } else { 48 } {
        let (a, b) = h12_query(c, &m, &pool, q);
        h12_search(c, &t, &m, &a, &b)?;
    }
    c.distinct(h);
    c.sample(|| format!("max {}, {} entries after {} insertions", max, m.dynamic.len(), inserts));
    Ok(())
}
fn h12_small(c: &mut Case) -> R {
    let max = table_size(&mut c.rng);
    let n = c.rng.below(30);
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    h12_case(c, max, n, pool, &[])
}
fn h12_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, if c.idx % 100 == 99 { 70_000 } else { 5000 });
    let n = c.rng.below(40);
    h12_case(c, d.max, n, d.pool, &d.fill)
}
fn h12_long(c: &mut Case) -> R {
    let max = *c.rng.pick(&[4096, 65536, u32::MAX]);
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    h12_case(c, max, 2500, pool, &[])
}
fn h12_life(c: &mut Case) -> R {
    let max = *c.rng.pick(&[80, 200, 333]);
    let pool = Pool::tiny(&mut c.rng);
    c.max("most changes of one table", LIFE);
    h12_case(c, max, LIFE, pool, &[])
}
/// Every static entry, searched by its full and its partial content in an empty and a filled table.
fn h12_static(c: &mut Case) -> R {
    let t: Table<'static> = sut("Table::default", Table::default)?;
    for i in 0..61usize {
        let e = sut("Table::get", || t.get(i as u32 + 1).map(|e| (e.0.to_vec(), e.1.to_vec())))?;
        let w = STATIC[i];
        ensure!(e == Some((w.0.as_bytes().to_vec(), w.1.as_bytes().to_vec())), "static position {} holds {:?} instead of {:?}", i + 1, e, w);
        let f = sut("Table::find", || t.find(w.0.as_bytes(), w.1.as_bytes()))?;
        ensure!(matches!(f, Some((k, true)) if k <= 61 && k > 0 && STATIC[k - 1] == w), "static entry {:?} searched in full: {:?}", w, f);
        let f = sut("Table::find", || t.find(w.0.as_bytes(), b"\x00no such value"))?;
        ensure!(matches!(f, Some((k, false)) if k <= 61 && k > 0 && STATIC[k - 1].0 == w.0), "static name {:?}: {:?}", w.0, f);
        c.count("full matches", 1);
        c.count("name matches", 1);
        c.distinct(mix(i as u64 + 1));
    }
    let n = sut("Table::iter", || t.iter().take(100).count())?;
    ensure!(n == 61, "iterating an empty table yields {} entries", n);
    Ok(())
}
/// Every number of entries, found at every place and by strings of every length.
fn h12_every(c: &mut Case) -> R {
    let all = lengths_to(c, 20_000, 1 << 19);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0) + 64);
    for n in all {
        // strings of n octets: found as a whole, and not by what merely resembles them
        let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(u32::MAX))?;
        let mut m = RefTable::new(u32::MAX as u64);
        let s = base.take(n);
        for (a, b) in [(s.clone(), vec![]), (b"k".to_vec(), s.clone()), (s.clone(), s.clone()), (b"k".to_vec(), b"v".to_vec())] {
            m.insert(&a, &b);
            sut("Table::insert", || t.insert(a, b))?;
        }
        let mut near = vec![s.clone()];
        if n > 0 {
            let mut x = s.clone();
            x[n - 1] ^= 1;
            near.push(x);
            let mut x = s.clone();
            x[0] ^= 1 << c.rng.us(8);
            near.push(x);
            let mut x = s.clone();
            let at = c.rng.us(n);
            x[at] ^= 0x20;
            near.push(x);
            near.push(s[..n - 1].to_vec());
            near.push([&s[..], &[0][..]].concat());
        }
        for x in &near {
            for (a, b) in [(x, &vec![]), (&b"k".to_vec(), x), (x, &s), (&s, x), (x, &b"v".to_vec())] {
                h12_search(c, &t, &m, a, b)?;
            }
        }
        c.count("string lengths swept", 1);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// Every number of entries.
/// The same searches and positions again after every number of changes.
fn h12_distance(c: &mut Case) -> R {
    for n in distances(c) {
        for (how, pick) in (0..4).flat_map(|h| (0..8).map(move |p| (h, p))) {
            if n > 1100 && pick % 3 != n % 3 {
                continue;
            }
            let max = DISTANT[how];
            let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(max))?;
            let mut m = RefTable::new(max as u64);
            for (a, b) in [(b"a", b"b"), (b"a", b"c"), (b"d", b"e")] {
                t.insert(a.to_vec(), b.to_vec());
                m.insert(a, b);
            }
            let ops = if how == 2 { vec![] } else { between(&mut c.rng, how, n, max as u64) };
            for round in 0..3 {
                // one kind of search alone, or several
                for (i, (a, b)) in [("a", "b"), ("a", "x"), ("zz", ""), ("a", "c"), ("d", "e"), (":method", "GET"), (":method", "x")].iter().enumerate() {
                    if pick == i || pick == 7 || round > 0 {
                        h12_search(c, &t, &m, a.as_bytes(), b.as_bytes())?;
                    }
                }
                for i in [62, 63, 64, 65, m.len(), m.len() + 1] {
                    let g = sut("Table::get", || t.get(i as u32).map(|e| (e.0.to_vec(), e.1.to_vec())))?;
                    ensure!(g.as_ref().map(|e| (&e.0[..], &e.1[..])) == m.get(i), "{}: position {} holds {:?}, should hold {:?}", apart(n, how), i, g, m.get(i));
                }
                if round == 0 {
                    for op in &ops {
                        match op {
                            Op::Lit(a, b, _) => {
                                m.insert(a, b);
                                sut("Table::insert", || t.insert(a.clone(), b.clone()))?;
                            }
                            Op::Size(s) => {
                                m.set_max(*s as u64);
                                sut("Table::update_max_dynamic_size", || t.update_max_dynamic_size(*s))?;
                            }
                            _ => {}
                        }
                    }
                    if how == 2 {
                        for k in 0..n.min(5000) {
                            h12_search(c, &t, &m, &[k as u8, (k >> 8) as u8], b"x")?;
                        }
                    }
                }
            }
            c.count("distances swept", 1);
            c.distinct(mix(n as u64 ^ (how as u64) << 33 ^ (pick as u64) << 36 ^ 1 << 46));
        }
    }
    Ok(())
}
fn h12_counts(c: &mut Case) -> R {
    for n in lengths_to(c, 2500, 1 << 16) {
        let mut t: Table<'static> = sut("Table::with_dynamic_size", || Table::with_dynamic_size(u32::MAX))?;
        let mut m = RefTable::new(u32::MAX as u64);
        for k in 0..n {
            let (x, y) = (vec![b'n', k as u8, (k >> 8) as u8], vec![(k >> 16) as u8]);
            m.insert(&x, &y);
            sut("Table::insert", || t.insert(x, y))?;
        }
        for at in [0, n / 2, n.saturating_sub(1), c.rng.us(n.max(1))] {
            let Some((a, b)) = m.dynamic.get(at).cloned() else { continue };
            h12_search(c, &t, &m, &a, &b)?;
            h12_search(c, &t, &m, &a, b"other")?;
        }
        h12_search(c, &t, &m, b"absent", b"x")?;
        let (l, it, past) = sut("Table queries", || (t.len(), (t.iter().count(), t.iter().last().map(|e| e.0.to_vec())), t.get(62 + n as u32).is_some()))?;
        ensure!(l as usize == 61 + n && it.0 == 61 + n && !past, "{} entries: length {}, {} iterated, one past the end {}", n, l, it.0, past);
        let w = m.get(m.len()).unwrap();
        ensure!(it.1.as_deref() == Some(w.0), "{} entries: the iterator ends with {:?}", n, it.1);
        c.count("entry counts swept", 1);
        c.distinct(mix(n as u64 ^ 1 << 45));
    }
    Ok(())
}
pub fn h12() -> Prop {
    Prop {
        id: "H12",
        rule: "A case is one table built by random insertions and size changes, then every position (and positions outside), a full iteration, and 16 searches (full matches, name matches, near misses) compared with the RFC 7541 list. Distinct by insertions.",
        stages: vec![st("small", 40_000, 1_000_000, h12_small), st("long", 80, 2_500, h12_long), st("lifetime", 1, 12, h12_life), st("deep", 300, 10_000, h12_deep), ex("static", 1, 1, h12_static), ex("every length", SHARES[0], SHARES[1], h12_every), ex("every count", SHARES[0], SHARES[1], h12_counts), ex("every distance", SHARES[0], SHARES[1], h12_distance), st("relatives", 150, 4500, h12_kin)],
        floors: vec![("full matches", 10_000), ("name matches", 10_000), ("no matches", 5_000), ("positions outside the table", 50_000), ("entries iterated", 500_000), ("iterator steps", 100_000), ("deep tables", 100), ("string lengths swept", 12_000), ("entry counts swept", 2_000)],
    }
}

// ---------------------------------------------------------------- H05

/// Bytes of one malformed representation of a chosen class, given the table.
fn malformed(r: &mut Rng, t: &RefTable, limit: u64, out: &mut Vec<u8>) -> &'static str {
    let lit = *r.pick(&[Kind::Incremental, Kind::Without, Kind::Never]);
    let (p, w) = lit.literal_prefix();
    let over = |r: &mut Rng, out: &mut Vec<u8>, first: u8| {
        out.push(first);
        let n = r.range(4, 9);
        for _ in 0..n {
            out.push(0x80 | r.u8());
        }
        if n > 4 && r.bool() {
            out.push(r.u8() & 0x7f);
        }
    };
    let bad_index = |r: &mut Rng| -> u64 {
        match r.below(6) {
            0 | 5 if t.touched.get() > t.len() => t.touched.get(), // gone since its last use
            0..=2 => t.len() + 1,
            3 => t.len() + r.range(2, 70),
            4 => r.range(t.len() + 1, (1 << 28) - 1),
            _ => (1 << 28) - 1,
        }
    };
    // a Huffman string that must be rejected
    let bad_huff = |r: &mut Rng| -> Vec<u8> {
        let n = r.us(6);
        let s = content(r, n);
        let mut w = refhuff::BitWriter::default();
        for &b in &s {
            w.put(refhuff::codes()[b as usize], refhuff::LENGTHS[b as usize] as u32);
        }
        let mut v = match r.below(5) {
            0 => {
                w.put((1 << 30) - 1, 30); // the whole EOS code
                if r.bool() {
                    w.put(refhuff::codes()[b'a' as usize], 5);
                }
                w.finish_with(0xff)
            }
            1 => {
                let mut v = w.finish_with(0xff);
                for _ in 0..r.range(1, 3) {
                    v.push(0xff); // eight or more padding bits
                }
                v
            }
            2 | 3 => {
                let pad = r.u8();
                w.finish_with(pad) // arbitrary padding
            }
            _ => r.bytes(7),
        };
        if refhuff::decode(&v).is_some() {
            v = vec![0xff, 0xff, 0xff, 0xff];
        }
        v
    };
    match r.below(14) {
        0 => {
            out.push(0x80);
            "index zero"
        }
        1 => {
            let i = bad_index(r);
            put_int(out, 0x80, 7, i, 0);
            "index beyond the tables"
        }
        2 => {
            let i = bad_index(r);
            put_int(out, p, w, i, 0);
            let v = text(r);
            let h = r.bool();
            put_str(out, &v, h, 0);
            "name index beyond the tables"
        }
        3 => {
            over(r, out, 0xff);
            "overlong index"
        }
        4 => {
            over(r, out, p | ((1 << w) - 1));
            "overlong name index"
        }
        5 => {
            out.push(p);
            let f = 0x7f | (r.u8() & 0x80);
            over(r, out, f);
            "overlong name length"
        }
        6 => {
            let i = index(r, t);
            put_int(out, p, w, i as u64, 0);
            let f = 0x7f | (r.u8() & 0x80);
            over(r, out, f);
            "overlong value length"
        }
        7 => {
            over(r, out, 0x3f);
            "overlong size update"
        }
        8 => {
            if limit >= MAX_SIZE5 {
                out.push(0x80);
                return "index zero";
            }
            let s = if r.bool() { limit + 1 } else { r.range(limit + 1, MAX_SIZE5) };
            put_int(out, 0x20, 5, s, 0);
            "size update above the limit"
        }
        9 | 10 => {
            let b = bad_huff(r);
            out.push(p);
            put_int(out, 0x80, 7, b.len() as u64, 0);
            out.extend_from_slice(&b);
            let v = text(r);
            put_str(out, &v, false, 0);
            "invalid Huffman name"
        }
        11 | 12 => {
            let b = bad_huff(r);
            let i = index(r, t);
            put_int(out, p, w, i as u64, 0);
            put_int(out, 0x80, 7, b.len() as u64, 0);
            out.extend_from_slice(&b);
            "invalid Huffman value"
        }
        _ => "truncation",
    }
}

/// Feed `block` to the decoder and judge it against the reference decoder in the same
/// state. Returns the number of headers and whether it was valid.
fn judge(c: &mut Case, dec: &mut Dec, rd: &mut RefDecoder, block: &[u8], ctx: &str) -> R<(usize, u8)> {
    let mut want: Vec<Hdr> = vec![];
    let mut at = 0;
    let mut fault = 0;
    while at < block.len() {
        match rd.step(&block[at..]) {
            Step::Ok { used, header, .. } => {
                at += used;
                if let Some(h) = header {
                    want.push(h);
                }
            }
            Step::Bad(f) => {
                fault = f;
                break;
            }
        }
    }
    let mut buf = block.to_vec();
    let mut got = vec![];
    let r = dec.decode(&mut buf, &mut got)?;
    let ctx = format!("{} {}", ctx, hex(block));
    match (&r, fault) {
        (Ok(_), 0) => {}
        (Ok(_), f) => fail!("{}: accepted although RFC 7541 requires {} at octet {} ({} headers returned)", ctx, fault_names(f), at, got.len()),
        (Err(e), 0) => fail!("{}: valid input rejected with {}", ctx, e.1),
        (Err(e), f) => ensure!(e.0 & f != 0, "{}: rejected with {} but the fault at octet {} is documented as {}", ctx, e.1, at, fault_names(f)),
    }
    same_headers(&got, &want, &ctx)?;
    for (bit, name) in [(F_UNDER, "truncated input"), (F_OVER, "overlong integers"), (F_INDEX, "invalid indexes"), (F_HUFF, "invalid Huffman data"), (F_SIZE, "excessive size updates")] {
        if fault & bit != 0 {
            c.count(name, 1);
        }
    }
    c.count(if fault == 0 { "valid inputs" } else { "rejected inputs" }, 1);
    Ok((want.len(), fault))
}

/// A decoder and the reference brought to a common state with a large table.
fn warmed_deep(c: &mut Case, d: &Deep) -> R<(Dec, RefDecoder)> {
    let mut dec = Dec::new(d.max)?;
    let mut rd = RefDecoder::new(d.max as u64);
    dec.fill(&d.fill)?;
    d.fill.iter().for_each(|e| rd.table.insert(&e.0, &e.1));
    c.count("deep tables", 1);
    relimit(c, &mut dec, &mut rd)?;
    Ok((dec, rd))
}
/// Sometimes the application has agreed on another limit, which no update has taken up yet.
fn relimit(c: &mut Case, dec: &mut Dec, rd: &mut RefDecoder) -> R {
    if c.rng.chance(1, 4) {
        rd.limit = match c.rng.below(4) {
            0 => rd.table.size.saturating_sub(c.rng.below(40)),
            1 => rd.table.size + c.rng.below(3),
            _ => table_size(&mut c.rng) as u64,
        }
        .min(u32::MAX as u64);
        dec.set_max(rd.limit as u32)?;
        c.count("limits changed before", 1);
        if rd.limit < rd.table.max {
            c.count("limits lowered before", 1);
        }
    }
    Ok(())
}

/// A decoder and the reference brought to a common random state by valid blocks.
fn warmed(c: &mut Case, max: u32, reps: u64, pool: &Pool) -> R<(Dec, RefDecoder)> {
    let mut dec = Dec::new(max)?;
    let mut rd = RefDecoder::new(max as u64);
    let mut block = vec![];
    let n = c.rng.below(reps + 1);
    for _ in 0..n {
        legal_rep(&mut c.rng, pool, &mut rd.table, &mut block);
    }
    let mut got = vec![];
    let r = dec.decode(&mut block, &mut got)?;
    ensure!(r.is_ok() && got.len() as u64 == n, "warm-up block rejected: {:?}", r);
    relimit(c, &mut dec, &mut rd)?;
    Ok((dec, rd))
}

fn h05_case(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let (dec, rd) = warmed(c, max, 12, &pool)?;
    let n = c.rng.below(4);
    h05_fault(c, dec, rd, pool, n)
}
fn h05_crowded(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let (dec, rd) = warmed(c, max, 12, &pool)?;
    let n = crowd(&mut c.rng);
    c.count("faults in crowded blocks", 1);
    h05_fault(c, dec, rd, pool, n)
}
fn h05_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 2500);
    let (dec, rd) = warmed_deep(c, &d)?;
    let n = c.rng.below(4);
    h05_fault(c, dec, rd, d.pool, n)
}
fn h05_fault(c: &mut Case, mut dec: Dec, mut rd: RefDecoder, pool: Pool, reps: u64) -> R {
    let mut block = vec![];
    let mut scratch = rd.table.clone();
    for _ in 0..reps {
        legal_rep(&mut c.rng, &pool, &mut scratch, &mut block);
        if reps > 4 && c.rng.chance(1, 60) {
            legal_size(&mut c.rng, &mut scratch, rd.limit, &mut block);
        }
    }
    if c.rng.chance(1, 3) {
        legal_size(&mut c.rng, &mut scratch, rd.limit, &mut block);
    }
    let start = block.len();
    let mut what = malformed(&mut c.rng, &scratch, rd.limit, &mut block);
    if what == "truncation" {
        legal_rep(&mut c.rng, &pool, &mut scratch, &mut block);
        let k = c.rng.range(start as u64, block.len() as u64 - 1) as usize;
        block.truncate(k);
        what = "truncated representation";
    } else if c.rng.bool() {
        block.extend(behind(&mut c.rng, reps, 12));
    }
    let (_, f) = judge(c, &mut dec, &mut rd, &block, what)?;
    if c.rng.chance(1, 12) {
        dec.pressure(&mut c.rng, &rd.table, rd.limit, &format!("after {} {}", what, hex(&block)))?;
        c.count("tables pushed out afterwards", 1);
    }
    c.distinct(hash_bytes(f as u64, &block));
    c.sample(|| format!("{}: {} -> {}", what, hex(&block), if f == 0 { "valid".into() } else { fault_names(f) }));
    Ok(())
}
/// One decoder through more rejected blocks than 16 bits count.
fn h05_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80u32, 200, 333]);
    let (mut dec, mut rd) = warmed(c, max, 12, &pool)?;
    let mut block = vec![];
    for k in 0..LIFE / 2 {
        block.clear();
        let mut scratch = rd.table.clone();
        if k % 8 == 0 {
            legal_rep(&mut c.rng, &pool, &mut scratch, &mut block);
        }
        let start = block.len() as u64;
        if k % 64 < 63 && malformed(&mut c.rng, &scratch, rd.limit, &mut block) == "truncation" {
            legal_rep(&mut c.rng, &pool, &mut scratch, &mut block);
            let k = c.rng.range(start, block.len() as u64 - 1) as usize;
            block.truncate(k);
        }
        judge(c, &mut dec, &mut rd, &block, "one of very many")?;
    }
    dec.probe(&rd.table, "after very many rejected blocks")?;
    c.max("most blocks through one decoder", LIFE / 2);
    c.distinct(mix(c.idx ^ 0x11fe));
    Ok(())
}
/// Random edits of valid blocks, over several blocks of one connection.
fn h05_mutate(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let (mut dec, mut rd) = warmed(c, max, 12, &pool)?;
    let mut block = vec![];
    let mut scratch = rd.table.clone();
    for _ in 0..c.rng.range(1, 5) {
        if c.rng.chance(1, 6) {
            legal_size(&mut c.rng, &mut scratch, rd.limit, &mut block);
        }
        legal_rep(&mut c.rng, &pool, &mut scratch, &mut block);
    }
    for _ in 0..c.rng.range(1, 3) {
        let n = block.len();
        match c.rng.below(6) {
            0 if n > 0 => {
                let k = c.rng.us(n);
                block[k] ^= 1 << c.rng.below(8);
            }
            1 if n > 0 => {
                let k = c.rng.us(n);
                block[k] = c.rng.u8();
            }
            2 if n > 0 => {
                let k = c.rng.us(n);
                block.remove(k);
            }
            3 => {
                let k = c.rng.us(n + 1);
                let b = c.rng.u8();
                block.insert(k, b);
            }
            4 if n > 0 => {
                let k = c.rng.us(n);
                block.truncate(k);
            }
            _ if n > 0 => {
                let k = c.rng.us(n);
                block[k] = *c.rng.pick(&[0, 0x80, 0xff, 0x7f, 0x3f, 0x1f, 0x0f, 0x40, 0x20, 0x10]);
            }
            _ => {}
        }
    }
    let (_, f) = judge(c, &mut dec, &mut rd, &block, "edited block")?;
    c.distinct(hash_bytes(f as u64, &block));
    Ok(())
}
/// Every string of one and two octets, and every first octet followed by hostile patterns, on a
/// fresh and on a filled decoder.
fn h05_short(c: &mut Case) -> R {
    let b0 = (c.idx & 255) as u8;
    let filled = c.idx >> 8;
    let mk = || -> R<(Dec, RefDecoder)> {
        let mut dec = Dec::new(4096)?;
        let mut rd = RefDecoder::new(4096);
        for k in 0..filled * 3 {
            rd.table.insert(&[b'a' + k as u8], &[k as u8]);
            let mut b = vec![0x40, 1, b'a' + k as u8, 1, k as u8];
            let r = dec.decode(&mut b, &mut vec![])?;
            ensure!(r.is_ok(), "filling: {:?}", r);
        }
        Ok((dec, rd))
    };
    let (mut dec, mut rd) = mk()?;
    judge(c, &mut dec, &mut rd, &[b0], "one octet")?;
    for b1 in 0..=255u8 {
        let (mut dec, mut rd) = mk()?;
        judge(c, &mut dec, &mut rd, &[b0, b1], "two octets")?;
        c.distinct(mix(c.idx << 8 | b1 as u64));
    }
    for pat in [&[0xff, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0xff, 0xff], &[0xff, 0xff, 0xff, 0xff, 0x00], &[0x80, 0x80, 0x80, 0x00], &[0x80, 0x80, 0x80, 0x80, 0x00], &[0x80, 0x80, 0x00, 0x00], &[0x01, 0x61, 0x81, 0x00], &[0x81, 0xff, 0x00], &[0x00, 0x00], &[0x00, 0x81, 0x1f], &[0x00, 0x81, 0x18], &[0x82, 0xff, 0xff, 0x00], &[0x7f, 0x00], &[0xff, 0x00, 0x00]] {
        let (mut dec, mut rd) = mk()?;
        let mut v = vec![b0];
        v.extend_from_slice(pat);
        judge(c, &mut dec, &mut rd, &v, "octet and pattern")?;
        c.distinct(hash_bytes(c.idx, &v));
    }
    c.evals(256 + 15);
    Ok(())
}
fn h05_random(c: &mut Case) -> R {
    let max = table_size(&mut c.rng);
    let mut dec = Dec::new(max)?;
    let mut rd = RefDecoder::new(max as u64);
    for _ in 0..c.rng.range(1, 4) {
        let n = c.rng.us(24);
        let mut b = c.rng.bytes(n);
        if c.rng.bool() {
            for x in b.iter_mut() {
                if c.rng.chance(2, 3) {
                    *x &= 0x4f; // keep many representations short and valid
                }
            }
        }
        let (_, f) = judge(c, &mut dec, &mut rd, &b, "random octets")?;
        c.distinct(hash_bytes(f as u64, &b));
    }
    Ok(())
}
/// Strings of every length whose last octet is missing, or wrong.
fn h05_every(c: &mut Case) -> R {
    let all = lengths_to(c, usize::MAX, 1 << 20);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    let mut dec = Dec::new(4096)?;
    let mut rd = RefDecoder::new(4096);
    let mut warm = vec![0x40, 1, b'k', 1, b'v'];
    let r = dec.decode(&mut warm, &mut vec![])?;
    ensure!(r.is_ok(), "warm-up rejected: {:?}", r);
    rd.table.insert(b"k", b"v");
    for n in all {
        for form in 0..6 {
            let kind = [Kind::Incremental, Kind::Without, Kind::Never][(form + n) % 3];
            let (p, w) = kind.literal_prefix();
            let mut b = vec![0xbe];
            let mut bad = false;
            match form {
                0 => {
                    put_int(&mut b, p, w, 0, 0);
                    put_str(&mut b, &base.take(n), false, 0);
                }
                1 => {
                    put_int(&mut b, p, w, 0, 0);
                    put_str(&mut b, &base.take(n), true, 0);
                }
                2 => {
                    put_int(&mut b, p, w, 62, 0);
                    put_str(&mut b, &base.take(n), false, 0);
                }
                3 => {
                    put_int(&mut b, p, w, 62, 0);
                    put_str(&mut b, &base.take(n), true, 0);
                }
                4 => {
                    // a Huffman string of n octets and one of padding only
                    put_int(&mut b, p, w, 62, 0);
                    let mut h = crate::refhuff::encode(&base.take(n));
                    h.push(0xff);
                    put_int(&mut b, 0x80, 7, h.len() as u64, 0);
                    b.extend(h);
                    bad = true;
                }
                _ => {
                    // an index that does not exist after a header of n octets
                    put_int(&mut b, 0, 4, 62, 0);
                    put_str(&mut b, &base.take(n), n % 2 == 0, 0);
                    put_int(&mut b, 0x80, 7, 63, 0);
                    bad = true;
                }
            }
            // form 0 and 1 lack the whole value and, every other time, the end of the name
            if !bad && (form > 1 || n % 2 == 1) {
                b.pop();
            }
            let want = if form == 4 { F_HUFF } else if bad { F_INDEX } else { F_UNDER };
            let last = b.len();
            let mut got = vec![];
            let r = dec.decode(&mut b, &mut got)?;
            ensure!(matches!(&r, Err((f, _)) if *f & want != 0), "{:?}, form {}: a string of {} octets ({} in the block) gives {:?} instead of {}", kind, form, n, last, r, fault_names(want));
            let complete = if form == 5 { 2 } else { 1 };
            ensure!(got.len() == complete && got[0] == (b"k".to_vec(), b"v".to_vec(), 0), "{:?}, form {}: a string of {} octets: {} headers before the fault instead of {}", kind, form, n, got.len(), complete);
            c.count(if form == 4 { "invalid Huffman data" } else if bad { "invalid indexes" } else { "truncated input" }, 1);
            c.count("rejected inputs", 1);
        }
        c.count("string lengths swept", 1);
        c.distinct(mix(n as u64));
    }
    dec.probe(&rd.table, "after rejected literals")?;
    Ok(())
}
pub fn h05() -> Prop {
    Prop {
        id: "H05",
        rule: "A case is a decoder in a random state given a block with one planted fault (of every class and field), a randomly edited valid block, or random octets; an independent RFC 7541 decoder determines the fault (or faults) at the first bad representation and the headers before it. Exhaustive over all inputs of one and two octets in three table states. Distinct by input bytes.",
        stages: vec![st("faults", 150_000, 4_000_000, h05_case), st("edits", 100_000, 3_000_000, h05_mutate), st("deep", 400, 12_000, h05_deep), st("crowded", 80, 2_000, h05_crowded), st("lifetime", 1, 12, h05_life), ex("short", 768, 768, h05_short), st("random", 60_000, 2_000_000, h05_random), ex("every length", SHARES[0], SHARES[1], h05_every)],
        floors: vec![("truncated input", 2000), ("overlong integers", 2000), ("invalid indexes", 2000), ("invalid Huffman data", 2000), ("excessive size updates", 1000), ("valid inputs", 1000), ("string lengths swept", 12_000)],
    }
}

// ---------------------------------------------------------------- H06

fn h06_pool(c: &mut Case, n: usize) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = *c.rng.pick(&[100u32, 200, 333, 4096, 4096, 65536]);
    h06_case(c, n, pool, max, &[])
}
fn h06_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 2500);
    let n = c.rng.range(3, 16) as usize;
    h06_case(c, n, d.pool, d.max, &d.fill)
}
fn h06_case(c: &mut Case, n: usize, pool: Pool, max: u32, fill: &[Pair]) -> R {
    let mut enc = Enc::new(max)?;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(max as u64);
    let mut log = vec![];
    let mut secrets: Vec<Pair> = vec![];
    let mut h = mix(max as u64);
    let r = (|| -> R {
        if !fill.is_empty() {
            enc.fill(&mut m, fill)?;
            dec.fill(fill)?;
            c.count("deep tables", 1);
        }
        for k in 0..n {
            let o = match c.rng.below(10) {
                0..=3 => {
                    // a sensitive header: fresh secret value, or equal to an existing entry
                    let (nm, v) = if c.rng.chance(2, 3) {
                        let nm = pool.pair(&mut c.rng, &m).0;
                        (nm, format!("secret-{}-{}", c.idx, k).into_bytes())
                    } else {
                        pool.pair(&mut c.rng, &m)
                    };
                    let f = 8 | (c.rng.u8() & 3) | if c.rng.bool() { 0x10 } else { 0 };
                    if c.rng.chance(1, 3) {
                        Op::IdxName(index(&mut c.rng, &m), v, f & 11)
                    } else {
                        Op::Lit(nm, v, f)
                    }
                }
                4..=5 => {
                    let f = (c.rng.u8() & 3) | if c.rng.bool() { 0x10 } else { 0 };
                    let (nm, v) = pool.pair(&mut c.rng, &m);
                    if c.rng.chance(1, 3) {
                        Op::IdxName(index(&mut c.rng, &m), v, f & 3)
                    } else {
                        Op::Lit(nm, v, f)
                    }
                }
                _ => op(&mut c.rng, &pool, &m, max as u64),
            };
            log.push(show_op(&o));
            h = hash_op(h, &o);
            let mut block = vec![];
            let direct = c.rng.bool();
            enc.must(&o, direct, &mut block)?;
            let before = m.clone();
            let e = apply(&mut m, &o);
            note(c, &e);
            // the wire form, whatever the encoder decided
            let mut got = vec![];
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok(), "{} not decodable: {:?}", show_op(&o), r);
            let flag_never = matches!(&o, Op::Lit(_, _, f) | Op::IdxName(_, _, f) if f & 12 == 8);
            if flag_never {
                ensure!(got.len() == 1 && got[0].2 == 8, "{} sent never-indexed arrived as {}", show_op(&o), got.first().map(show_hdr).unwrap_or_default());
                if let Some(x) = &e.header {
                    // only values made up for this header: a generated one may also be sent indexed
                    if x.1 == format!("secret-{}-{}", c.idx, k).into_bytes() {
                        secrets.push((x.0.clone(), x.1.clone()));
                    }
                }
                c.count("never-indexed headers sent", 1);
            } else if let Some(_x) = &e.header {
                if e.kind != Kind::Never {
                    ensure!(got.len() == 1 && got[0].2 != 8, "{} arrived marked never-indexed", show_op(x_op(&o)));
                }
            }
            if matches!(e.kind, Kind::Never | Kind::Without) {
                ensure!(m == before, "model error");
                let ctx = format!("after {} (which must leave no trace)", show_op(&o));
                dec.probe(&m, &ctx)?;
                enc.probe(&m, &ctx)?;
                c.count("table probes around unindexed headers", 1);
            }
        }
        // No index may produce a secret.
        dec.probe(&m, "at the end")?;
        enc.probe(&m, "at the end")?;
        for (nm, v) in secrets.iter() {
            // a later header may have repeated it and had it indexed: what is asked for is that the header itself leaves no trace
            if m.full_match(nm, v) {
                continue;
            }
            let mut out = vec![];
            enc.must(&Op::Lit(nm.clone(), v.clone(), 0x10), false, &mut out)?;
            ensure!(out[0] & 0x80 == 0, "a never-indexed secret can be referred to by an index: {}/{} -> {}", show(nm), show(v), hex(&out));
            c.count("secrets looked up", 1);
        }
        if c.rng.chance(1, 3) {
            dec.pressure(&mut c.rng, &m, max as u64, "at the end")?;
            enc.pressure(&mut c.rng, &m, "at the end")?;
            c.count("tables pushed out afterwards", 1);
        }
        Ok(())
    })();
    c.distinct(h);
    c.sample(|| format!("table {}: {}", max, log.join("; ")));
    with_history(&log, r)
}
fn x_op(o: &Op) -> &Op {
    o
}
fn h06_small(c: &mut Case) -> R {
    let n = c.rng.range(1, 25) as usize;
    h06_pool(c, n)
}
fn h06_long(c: &mut Case) -> R {
    h06_pool(c, 250)
}
fn h06_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80u32, 120]);
    c.max("most headers on one connection", LIFE / 8);
    h06_case(c, LIFE as usize / 8, pool, max, &[])
}
/// Decoder alone, fed by the reference encoder: unindexed and never-indexed literals of every form.
fn h06_decoder(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = *c.rng.pick(&[100u32, 333, 4096]);
    let (mut dec, rd) = warmed(c, max, 15, &pool)?;
    let (m, limit) = (rd.table, rd.limit);
    let mut h = 0;
    for _ in 0..6 {
        let mut block = vec![];
        let mut want = vec![];
        for _ in 0..c.rng.range(1, 3) {
            let kind = *c.rng.pick(&[Kind::Never, Kind::Without]);
            let (p, w) = kind.literal_prefix();
            let (n, v) = pool.pair(&mut c.rng, &m);
            let n = if c.rng.bool() {
                let i = index(&mut c.rng, &m) as u64;
                put_int(&mut block, p, w, i, 0);
                m.get(i).unwrap().0.to_vec()
            } else {
                block.push(p);
                put_str(&mut block, &n, c.rng.bool(), 0);
                n
            };
            put_str(&mut block, &v, c.rng.bool(), 0);
            want.push((n, v, kind.mark()));
            c.count(if kind == Kind::Never { "never-indexed literals" } else { "literals without indexing" }, 1);
        }
        h = hash_bytes(h, &block);
        let mut got = vec![];
        let txt = hex(&block);
        let r = dec.decode(&mut block, &mut got)?;
        ensure!(r.is_ok(), "{}: {:?}", txt, r);
        same_headers(&got, &want, &txt)?;
        dec.probe(&m, &format!("after unindexed headers {}", txt))?;
        c.count("table probes around unindexed headers", 1);
    }
    if c.rng.chance(1, 3) {
        dec.pressure(&mut c.rng, &m, limit, "after unindexed headers")?;
        c.count("tables pushed out afterwards", 1);
    }
    c.distinct(h);
    Ok(())
}
/// Secrets of every length, in every form.
fn h06_every(c: &mut Case) -> R {
    let all = lengths_to(c, usize::MAX, 1 << 19);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let max = 1 << 22;
        let (mut enc, mut dec, mut m) = (Enc::new(max)?, Dec::new(max)?, RefTable::new(max as u64));
        enc.fill(&mut m, &[(b"k".to_vec(), b"v".to_vec())])?;
        dec.fill(&[(b"k".to_vec(), b"v".to_vec())])?;
        for form in 0..6u32 {
            let s = base.take(n);
            let f = [8u8, 0, 8 | 3, 3, 8 | 0x10, 8 | 2][(form as usize + n) % 6];
            let o = match form % 3 {
                0 => Op::Lit(s.clone(), b"x".to_vec(), f),
                1 => Op::Lit(b"secret".to_vec(), s.clone(), f),
                _ => Op::IdxName(62, s.clone(), f & !0x10),
            };
            let mut block = vec![];
            enc.must(&o, form % 2 == 0, &mut block)?;
            let want = apply(&mut m, &o).header.unwrap();
            let mut got = vec![];
            let r = dec.decode(&mut block, &mut got)?;
            ensure!(r.is_ok(), "{} octets, flags {:#x}: {:?}", n, f, r);
            same_headers(&got, &[want], &format!("{} octets, flags {:#x}", n, f))?;
            let ctx = format!("after an unindexed header of {} octets, flags {:#x}", n, f);
            ensure!(m.dynamic.len() == 1, "the model kept an entry");
            dec.probe(&m, &ctx)?;
            enc.probe(&m, &ctx)?;
            c.count(if f & 8 != 0 { "never-indexed headers sent" } else { "unindexed headers sent" }, 1);
            c.count("table probes around unindexed headers", 1);
            // and the encoder does not know it
            if n > 0 && n < 40_000 {
                let (a, b) = if form % 3 == 0 { (s, b"x".to_vec()) } else if form % 3 == 1 { (b"secret".to_vec(), s) } else { (b"k".to_vec(), s) };
                let o = Op::Lit(a, b, 0x10);
                let mut out = vec![];
                enc.must(&o, false, &mut out)?;
                crate::gen::check_emitted(&m, &o, &out).map_err(|e| Fail(format!("{}: {}", ctx, e)))?;
                c.count("secrets looked up", 1);
            }
        }
        c.count("string lengths swept", 1);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
pub fn h06() -> Prop {
    Prop {
        id: "H06",
        rule: "A case is one connection mixing sensitive, unindexed and indexed headers through a real encoder and decoder; both private tables are probed through the public API (every index, every best-format lookup) after each unindexed or never-indexed header, and every secret is looked up at the end. Distinct by operations.",
        stages: vec![st("mixed", 12_000, 350_000, h06_small), st("long", 60, 2_000, h06_long), st("lifetime", 1, 12, h06_life), st("deep", 200, 6_000, h06_deep), st("decoder", 20_000, 500_000, h06_decoder), ex("every length", SHARES[0], SHARES[1], h06_every)],
        floors: vec![("never-indexed headers sent", 20_000), ("table probes around unindexed headers", 20_000), ("secrets looked up", 5_000), ("string lengths swept", 12_000)],
    }
}

// ---------------------------------------------------------------- H07

struct Bound {
    end: usize,
    header: Option<Hdr>,
    table: RefTable,
}

/// A valid block with the state after each representation.
fn bounded_block(c: &mut Case, pool: &Pool, t: &RefTable, limit: u64, reps: u64) -> (Vec<u8>, Vec<Bound>) {
    let mut t = t.clone();
    let mut block = vec![];
    let mut v = vec![];
    for _ in 0..reps {
        let e = if c.rng.chance(1, 8) { legal_size(&mut c.rng, &mut t, limit, &mut block) } else { legal_rep(&mut c.rng, pool, &mut t, &mut block) };
        v.push(Bound { end: block.len(), header: e.header, table: t.clone() });
    }
    (block, v)
}

fn h07_fragments(c: &mut Case) -> R {
    let pool = if c.rng.chance(3, 4) { Pool::tiny(&mut c.rng) } else { Pool::new(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let (dec, rd) = warmed(c, max, 10, &pool)?;
    let n = c.rng.range(1, 6);
    h07_feed(c, dec, rd, pool, n)
}
fn h07_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 1500);
    let (dec, rd) = warmed_deep(c, &d)?;
    if c.idx % 2 == 0 {
        let n = c.rng.range(1, 6);
        h07_feed(c, dec, rd, d.pool, n)
    } else {
        let n = c.rng.below(4);
        h07_bad(c, dec, rd, d.pool, n)
    }
}
fn h07_feed(c: &mut Case, mut dec: Dec, rd: RefDecoder, pool: Pool, reps: u64) -> R {
    let (block, bounds) = bounded_block(c, &pool, &rd.table, rd.limit, reps);
    let exact = c.rng.chance(1, 3);
    let mode = c.rng.below(3);
    let mut fed = 0;
    let mut buf: Vec<u8> = vec![];
    let mut got: Vec<Hdr> = vec![];
    let mut total = 0usize;
    let mut cuts = vec![];
    while fed < block.len() {
        let left = block.len() - fed;
        let k = match mode {
            0 => 1,
            1 => c.rng.range(1, 4).min(left as u64) as usize,
            _ => c.rng.range(1, left as u64) as usize,
        };
        // long strings byte by byte would only repeat themselves
        let k = if left > 600 { k.max(left / 40) } else { k }.min(left);
        buf.extend_from_slice(&block[fed..fed + k]);
        fed += k;
        cuts.push(fed);
        let attempts = if c.rng.chance(1, 5) { 2 } else { 1 };
        for _ in 0..attempts {
            let r = loop {
                let before = buf.clone();
                let mut part: Vec<Hdr> = if exact { Vec::with_capacity(1 + c.rng.us(3)) } else { vec![] };
                let r = if exact { dec.decode_exact(&mut buf, &mut part)? } else { dec.decode(&mut buf, &mut part)? };
                got.append(&mut part);
                ensure!(before.ends_with(&buf), "input after decoding is not a suffix of the input before ({} -> {})", hex(&before), hex(&buf));
                total += before.len() - buf.len();
                match r {
                    Ok(_) if exact && !buf.is_empty() => continue,
                    r => break r,
                }
            };
            // what must be complete by now
            let done = bounds.iter().take_while(|b| b.end <= fed).count();
            let end = if done == 0 { 0 } else { bounds[done - 1].end };
            let ctx = format!("block {} fed up to octet {} (cuts {:?})", hex(&block), fed, &cuts[cuts.len().saturating_sub(6)..]);
            if end < fed {
                ensure!(matches!(&r, Err((F_UNDER, _))), "{}: the representation at octet {} is incomplete but decode returned {:?}", ctx, end, r);
                c.count("incomplete attempts", 1);
            } else {
                ensure!(r.is_ok(), "{}: complete input rejected with {:?}", ctx, r);
            }
            ensure!(buf[..] == block[end..fed], "{}: {} octets left, should be the {} octets of the incomplete representation", ctx, buf.len(), fed - end);
            ensure!(total == end, "{}: {} octets consumed in total instead of {}", ctx, total, end);
            let want: Vec<Hdr> = bounds[..done].iter().filter_map(|b| b.header.clone()).collect();
            same_headers(&got, &want, &ctx)?;
            if end < fed && c.rng.chance(1, 3) {
                let t = if done == 0 { &rd.table } else { &bounds[done - 1].table };
                dec.probe(t, &ctx)?;
                c.count("table probes after failures", 1);
            }
        }
    }
    if let Some(b) = bounds.last() {
        let ctx = format!("after the fragmented block {}", hex(&block));
        dec.probe(&b.table, &ctx)?;
        if c.rng.chance(1, 8) {
            dec.pressure(&mut c.rng, &b.table, rd.limit, &ctx)?;
            c.count("tables pushed out afterwards", 1);
        }
    }
    c.count("fragmented blocks", 1);
    c.distinct(hash_bytes(mix(cuts.len() as u64), &block));
    c.sample(|| format!("block {} cut at {:?}", hex(&block), cuts));
    Ok(())
}

/// Every cut position of one block, each on a fresh decoder brought to the same state.
fn h07_cuts(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[64u32, 128, 200, 4096]);
    let mut warm = vec![];
    let mut t0 = RefTable::new(max as u64);
    for _ in 0..c.rng.below(6) {
        legal_rep(&mut c.rng, &pool, &mut t0, &mut warm);
    }
    let reps = c.rng.range(1, 4);
    let (block, bounds) = bounded_block(c, &pool, &t0, max as u64, reps);
    if block.len() > 250 {
        return Ok(());
    }
    let want: Vec<Hdr> = bounds.iter().filter_map(|b| b.header.clone()).collect();
    for cut in 0..=block.len() {
        let mut dec = Dec::new(max)?;
        let r = dec.decode(&mut warm.clone(), &mut vec![])?;
        ensure!(r.is_ok(), "warm-up rejected {:?}", r);
        let mut buf = block[..cut].to_vec();
        let mut got = vec![];
        let r1 = dec.decode(&mut buf, &mut got)?;
        let done = bounds.iter().take_while(|b| b.end <= cut).count();
        let end = if done == 0 { 0 } else { bounds[done - 1].end };
        let ctx = format!("block {} cut at {}", hex(&block), cut);
        ensure!(r1.is_ok() == (end == cut), "{}: {:?}", ctx, r1);
        if let Err(e) = &r1 {
            ensure!(e.0 == F_UNDER, "{}: incomplete input reported as {}", ctx, e.1);
        }
        ensure!(buf[..] == block[end..cut], "{}: remaining input is {} instead of {}", ctx, hex(&buf), hex(&block[end..cut]));
        let n = bounds[..done].iter().filter(|b| b.header.is_some()).count();
        same_headers(&got, &want[..n], &ctx)?;
        dec.probe(if done == 0 { &t0 } else { &bounds[done - 1].table }, &ctx)?;
        buf.extend_from_slice(&block[cut..]);
        let r2 = dec.decode(&mut buf, &mut got)?;
        ensure!(r2 == Ok(block.len() - end), "{}: after resuming {:?}", ctx, r2);
        same_headers(&got, &want, &format!("{} and resumed", ctx))?;
        dec.probe(&bounds[bounds.len() - 1].table, &format!("{} and resumed", ctx))?;
        c.count("cut positions", 1);
        c.count("table probes after failures", 1);
    }
    c.evals(block.len() as u64 + 1);
    c.distinct(hash_bytes(1, &block));
    Ok(())
}

/// A malformed representation after valid ones: nothing of it may stick, and the
/// connection state must be as if it had never been received.
fn h07_malformed(c: &mut Case) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    let (dec, rd) = warmed(c, max, 10, &pool)?;
    let n = c.rng.below(4);
    h07_bad(c, dec, rd, pool, n)
}
/// The fault far into a long block, with much behind it.
fn h07_crowded(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng).min(4096);
    let (dec, rd) = warmed(c, max, 10, &pool)?;
    let n = crowd(&mut c.rng);
    c.count("faults in crowded blocks", 1);
    if c.idx % 3 == 0 {
        return h07_feed(c, dec, rd, pool, n + 1);
    }
    h07_bad(c, dec, rd, pool, n)
}
/// How many representations make a long block.
fn crowd(r: &mut Rng) -> u64 {
    *r.pick(&[0u64, 1, 63, 64, 100, 127, 128, 200, 255, 256, 257, 300, 511, 512, 700, 1000, 1024, 1025, 2100]) + r.below(3)
}
/// What may follow in the input: usually little.
fn behind(r: &mut Rng, reps: u64, little: usize) -> Vec<u8> {
    if reps > 4 || r.chance(1, 2000) {
        let n = *r.pick(&[0usize, 1, 5, 4096, 16_384, 65_535, 65_536, 70_000, 131_072, 200_000]);
        if r.bool() {
            r.bytes(n)
        } else {
            vec![*r.pick(&[0x82u8, 0x80, 0, 0xff]); n]
        }
    } else {
        let n = r.us(little);
        r.bytes(n)
    }
}
fn h07_bad(c: &mut Case, mut dec: Dec, rd: RefDecoder, pool: Pool, reps: u64) -> R {
    let (mut block, bounds) = bounded_block(c, &pool, &rd.table, rd.limit, reps);
    let valid_end = block.len();
    let t = bounds.last().map(|b| b.table.clone()).unwrap_or(rd.table.clone());
    let what = malformed(&mut c.rng, &t, rd.limit, &mut block);
    if what == "truncation" {
        return Ok(());
    }
    if let Step::Ok { .. } = (RefDecoder { table: t.clone(), limit: rd.limit }).step(&block[valid_end..]) {
        return Ok(());
    }
    block.extend(behind(&mut c.rng, reps, 5));
    let exact = c.rng.bool();
    let ctx = format!("{} in {} ({} representations, {} octets) at octet {}", what, hex(&block), reps, block.len(), valid_end);
    let mut buf = block.clone();
    let mut got: Vec<Hdr> = vec![(b"earlier".to_vec(), b"header".to_vec(), 4)];
    let mut want = got.clone();
    want.extend(bounds.iter().filter_map(|b| b.header.clone()));
    let mut first = None;
    for attempt in 0..3 {
        let r = if exact {
            let mut part = Vec::with_capacity(40 + reps as usize);
            let r = dec.decode_exact(&mut buf, &mut part)?;
            got.append(&mut part);
            r
        } else {
            dec.decode(&mut buf, &mut got)?
        };
        ensure!(r.is_err(), "{}: accepted", ctx);
        ensure!(buf[..] == block[valid_end..], "{}: attempt {}: remaining input {} should start at the failing representation", ctx, attempt, hex(&buf));
        same_headers(&got, &want, &format!("{}: attempt {}", ctx, attempt))?;
        dec.probe(&t, &format!("{}: attempt {}", ctx, attempt))?;
        if let Some(f) = &first {
            ensure!(&r == f, "{}: retry reports {:?} after {:?}", ctx, r, f);
        }
        first = Some(r);
        c.count("table probes after failures", 1);
    }
    // the connection goes on as if nothing had happened
    let reps = c.rng.range(1, 4);
    let (next, nb) = bounded_block(c, &pool, &t, rd.limit, reps);
    let mut buf = next.clone();
    let mut got = vec![];
    let r = dec.decode(&mut buf, &mut got)?;
    ensure!(r == Ok(next.len()), "{}: a valid block afterwards gives {:?}", ctx, r);
    let want: Vec<Hdr> = nb.iter().filter_map(|b| b.header.clone()).collect();
    same_headers(&got, &want, &format!("{}: valid block afterwards", ctx))?;
    dec.probe(&nb.last().unwrap().table, &ctx)?;
    if what.contains("size update") || c.rng.chance(1, 8) {
        dec.pressure(&mut c.rng, &nb.last().unwrap().table, rd.limit, &ctx)?;
        c.count("tables pushed out afterwards", 1);
    }
    c.count("malformed representations survived", 1);
    c.distinct(hash_bytes(2, &block));
    Ok(())
}
/// A representation cut short and given up, then another of the same shape: nothing of
/// the first may show in the second.
fn h07_abandoned(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let (mut dec, mut rd) = warmed(c, max, 6, &pool)?;
    let mut log = vec![];
    let mut h = mix(max as u64);
    for _ in 0..c.rng.range(1, 5) {
        let kind = *c.rng.pick(&[Kind::Incremental, Kind::Without, Kind::Never]);
        let (p, w) = kind.literal_prefix();
        let by_index = c.rng.chance(1, 3);
        let (hn, hv) = (c.rng.chance(1, 3), c.rng.chance(1, 3));
        let (ln, lv) = (len(&mut c.rng) % 300, len(&mut c.rng) % 300);
        // digits and a few letters are five bits each: Huffman lengths agree as well
        let word = |r: &mut Rng, n: usize| -> Vec<u8> { (0..n).map(|_| *r.pick(b"012aceiost")).collect() };
        let make = |c: &mut Case, t: &RefTable, out: &mut Vec<u8>| -> (Vec<u8>, Vec<u8>) {
            let n = if by_index {
                let i = index(&mut c.rng, t) as u64;
                put_int(out, p, w, i, 0);
                t.get(i).unwrap().0.to_vec()
            } else {
                out.push(p);
                let n = word(&mut c.rng, ln);
                put_str(out, &n, hn, 0);
                n
            };
            let v = word(&mut c.rng, lv);
            put_str(out, &v, hv, 0);
            (n, v)
        };
        let mut first = vec![];
        let given_up = make(c, &rd.table, &mut first);
        // where the strings begin and end is where a decoder may remember something
        let marks = [1, first.len() - 1, first.len().saturating_sub(lv), first.len().saturating_sub(lv + 1), 2 + ln, 1 + ln, 3 + ln];
        let cut = if c.rng.bool() { *c.rng.pick(&marks) } else { c.rng.us(first.len()) }.clamp(1, first.len() - 1);
        log.push(format!("{} cut at {}", hex(&first), cut));
        let lead = c.rng.chance(1, 3) as u64 * c.rng.range(1, 2);
        let (mut buf, bounds) = bounded_block(c, &pool, &rd.table, rd.limit, lead);
        if let Some(b) = bounds.last() {
            rd.table = b.table.clone();
        }
        let mut want: Vec<Hdr> = bounds.iter().filter_map(|b| b.header.clone()).collect();
        let mut got: Vec<Hdr> = vec![];
        // (the index in `given_up` was drawn from the table before the leading representations)
        buf.extend_from_slice(&first[..cut]);
        let r = if c.rng.bool() {
            dec.decode(&mut buf, &mut got)?
        } else {
            let mut part = Vec::with_capacity(20);
            let r = dec.decode_exact(&mut buf, &mut part)?;
            got.append(&mut part);
            r
        };
        ensure!(r.is_err(), "{} cut at {} accepted: {:?}", hex(&first), cut, r);
        let _ = given_up;
        c.count("representations given up", 1);
        // given up: the next block comes, sometimes through another call
        for _ in 0..c.rng.range(1, 2) {
            let mut second = vec![];
            let (n, v) = make(c, &rd.table, &mut second);
            h = hash_bytes(h, &second);
            log.push(hex(&second));
            if kind == Kind::Incremental {
                rd.table.insert(&n, &v);
            }
            want.push((n, v, kind.mark()));
            let len = second.len();
            if c.rng.bool() {
                let k = c.rng.us(len);
                let mut head = second[..k].to_vec();
                let r = dec.decode(&mut head, &mut got)?;
                ensure!(k == 0 || r.is_err(), "{} of {} accepted", k, hex(&second));
            }
            let r = dec.decode(&mut second, &mut got)?;
            ensure!(r == Ok(len), "{:?} for a valid literal after an abandoned one | {}", r, log.join("; "));
        }
        same_headers(&got, &want, &format!("after an abandoned literal | {}", log.join("; ")))?;
    }
    dec.probe(&rd.table, &log.join("; "))?;
    c.distinct(h);
    Ok(())
}
/// Literals of every length that miss one octet, then get it.
fn h07_every(c: &mut Case) -> R {
    let all = lengths_to(c, usize::MAX, 1 << 20);
    let mut base = Base::new(&mut c.rng, *all.iter().max().unwrap_or(&0));
    for n in all {
        let mut dec = Dec::new(1 << 26)?;
        let mut m = RefTable::new(1 << 26);
        dec.fill(&[(b"k".to_vec(), b"v".to_vec())])?;
        m.insert(b"k", b"v");
        for form in 0..4 {
            let kind = [Kind::Incremental, Kind::Without, Kind::Never][(form + n) % 3];
            let (p, w) = kind.literal_prefix();
            let s = base.take(n);
            let mut b = vec![0xbe];
            let h = if form < 2 {
                put_int(&mut b, p, w, 0, 0);
                put_str(&mut b, &s, form == 1, 0);
                put_str(&mut b, b"w", false, 0);
                (s, b"w".to_vec(), kind.mark())
            } else {
                let at = m.len() - c.rng.below(2).min(m.len() - 62);
                put_int(&mut b, p, w, at, 0);
                put_str(&mut b, &s, form == 3, 0);
                (m.get(at).unwrap().0.to_vec(), s, kind.mark())
            };
            let first = m.get(62).map(|e| (e.0.to_vec(), e.1.to_vec(), 0)).unwrap();
            // mostly the last octet; sometimes a few more
            let cut = b.len() - 1 - c.rng.us(3).min(b.len() - 3);
            let mut buf = b[..cut].to_vec();
            let mut got = vec![];
            let r = dec.decode(&mut buf, &mut got)?;
            let ctx = format!("a {:?} literal with {} octets that misses {}", kind, n, b.len() - cut);
            ensure!(matches!(&r, Err((F_UNDER, _))), "{}: {:?}", ctx, r);
            ensure!(buf[..] == b[1..cut], "{}: {} octets are left of {}", ctx, buf.len(), cut - 1);
            same_headers(&got, &[first], &ctx)?;
            if n < 30_000 {
                dec.probe(&m, &ctx)?;
                c.count("table probes after failures", 1);
            }
            c.count("incomplete attempts", 1);
            got.clear();
            buf.extend_from_slice(&b[cut..]);
            let r = dec.decode(&mut buf, &mut got)?;
            ensure!(r == Ok(b.len() - 1), "{}, completed: {:?} of {}", ctx, r, b.len() - 1);
            ensure!(buf.is_empty(), "{}, completed: {} octets left", ctx, buf.len());
            if kind == Kind::Incremental {
                m.insert(&h.0, &h.1);
            }
            same_headers(&got, &[h], &ctx)?;
        }
        dec.probe(&m, &format!("after literals of {} octets", n))?;
        c.count("string lengths swept", 1);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// One literal octet by octet, tens of thousands of attempts.
fn h07_patience(c: &mut Case) -> R {
    let n = [70_000usize, 9_000, 3_000, 1_200][c.idx as usize % 4] / if cfg!(miri) { 100 } else { 1 };
    let mut dec = Dec::new(1 << 20)?;
    let mut m = RefTable::new(1 << 20);
    dec.fill(&[(b"k".to_vec(), b"v".to_vec())])?;
    m.insert(b"k", b"v");
    let kind = [Kind::Incremental, Kind::Without, Kind::Never][c.rng.us(3)];
    let (p, w) = kind.literal_prefix();
    let s = content(&mut c.rng, n);
    let mut b = vec![];
    let h = if c.rng.bool() {
        put_int(&mut b, p, w, 0, 0);
        put_str(&mut b, &s, c.rng.bool(), 0);
        put_str(&mut b, b"w", false, 0);
        (s, b"w".to_vec(), kind.mark())
    } else {
        put_int(&mut b, p, w, 62, 0);
        put_str(&mut b, &s, c.rng.bool(), 0);
        (b"k".to_vec(), s, kind.mark())
    };
    let mut buf = Vec::with_capacity(b.len());
    let mut got = vec![];
    for (k, &o) in b.iter().enumerate() {
        buf.push(o);
        let r = dec.decode(&mut buf, &mut got)?;
        let ctx = || format!("a {:?} literal of {} octets, fed octet by octet, after {}", kind, b.len(), k + 1);
        if k + 1 < b.len() {
            ensure!(matches!(&r, Err((F_UNDER, _))), "{}: {:?}", ctx(), r);
            ensure!(buf.len() == k + 1 && got.is_empty(), "{}: {} octets left, {} headers", ctx(), buf.len(), got.len());
            ensure!((k % 97 > 0 && k > 300) || buf[..] == b[..=k], "{}: the input was changed", ctx());
        } else {
            ensure!(r == Ok(b.len()) && buf.is_empty(), "{}: {:?}, {} octets left", ctx(), r, buf.len());
        }
    }
    c.count("incomplete attempts", b.len() as u64 - 1);
    if kind == Kind::Incremental {
        m.insert(&h.0, &h.1);
    }
    same_headers(&got, &[h], "a literal fed octet by octet")?;
    dec.probe(&m, "after a literal fed octet by octet")?;
    c.count("literals in single octets", 1);
    c.distinct(hash_bytes(91, &b));
    Ok(())
}
pub fn h07() -> Prop {
    Prop {
        id: "H07",
        rule: "A case is a valid block (from a legal-choice encoder, on a warmed-up decoder) fed in random fragments or cut at every position, or a block with a malformed representation; after every attempt the remaining input, delivered headers, consumed total and the probed table are compared with the state at the last complete representation. Distinct by block bytes and number of cuts.",
        stages: vec![st("fragments", 40_000, 1_000_000, h07_fragments), st("deep", 300, 10_000, h07_deep), st("all-cuts", 900, 25_000, h07_cuts), st("malformed", 40_000, 1_000_000, h07_malformed), st("crowded", 24, 600, h07_crowded), st("abandoned", 15_000, 400_000, h07_abandoned), ex("every length", SHARES[0], SHARES[1], h07_every), st("patience", 2, 24, h07_patience)],
        floors: vec![("incomplete attempts", 30_000), ("cut positions", 5_000), ("table probes after failures", 30_000), ("malformed representations survived", 5_000), ("faults in crowded blocks", 20), ("string lengths swept", 12_000)],
    }
}

// ---------------------------------------------------------------- H08

const MIB: usize = 1 << 20;

struct Mem {
    table_max: u64,
    delivered: u64,
}
impl Mem {
    /// Bytes a single decode call may allocate at its peak: a constant factor of what
    /// it was given and what it delivers (an index legitimately expands to its entry).
    fn bound(&self, input: usize, output: &[Hdr]) -> usize {
        let out: usize = output.iter().map(|h| h.0.len() + h.1.len() + 96).sum();
        let table = self.table_max.min(self.delivered + out as u64) as usize;
        MIB + 64 * input + 8 * out + 8 * table
    }
}

fn h08_feed(c: &mut Case, dec: &mut Dec, mem: &mut Mem, bytes: &[u8], exact: bool, ctx: &str) -> R<bool> {
    let mut buf = bytes.to_vec();
    let mut steps = 0usize;
    loop {
        let before = buf.len();
        let mut got: Vec<Hdr> = if exact { Vec::with_capacity(1 + c.rng.us(4)) } else { vec![] };
        let r = if exact { dec.decode_exact(&mut buf, &mut got)? } else { dec.decode(&mut buf, &mut got)? };
        let peak = last_peak();
        let bound = mem.bound(before, &got);
        ensure!(peak <= bound, "{} {}: {} octets of input made the decoder allocate {} bytes (bound {})", ctx, hex(bytes), before, peak, bound);
        mem.delivered += got.iter().map(|h| (h.0.len() + h.1.len() + 32) as u64).sum::<u64>();
        c.max("largest allocation peak", peak as u64);
        c.count("decode calls", 1);
        steps += 1;
        match r {
            Err((0, e)) => fail!("{} {}: undocumented error {}", ctx, hex(bytes), e),
            Err(_) => {
                c.count("errors", 1);
                return Ok(false);
            }
            Ok(_) => {
                if !exact || before == 0 {
                    ensure!(buf.is_empty(), "{} {}: success with {} octets left", ctx, hex(bytes), buf.len());
                }
                if buf.is_empty() {
                    c.count("successes", 1);
                    return Ok(true);
                }
                ensure!(buf.len() < before, "{} {}: a successful bounded call consumed nothing", ctx, hex(bytes));
                ensure!(steps <= bytes.len() + 1, "{} {}: no progress", ctx, hex(bytes));
            }
        }
    }
}

fn hostile_bytes(r: &mut Rng, t: &mut RefTable, pool: &Pool) -> Vec<u8> {
    let mut b = vec![];
    match r.below(9) {
        0 => {
            let n = r.us(64);
            b = r.bytes(n);
        }
        1 => {
            // huge declared lengths with little data
            let pre = *r.pick(&[0x00u8, 0x10, 0x40, 0x41, 0x0f, 0x7f]);
            b.push(pre);
            if pre == 0x0f || pre == 0x7f {
                b.push(r.u8() & 0x3f);
            }
            let l = *r.pick(&[1u64 << 27, (1 << 28) + 126, 1 << 20, 1 << 24, 100_000]);
            let h = if r.bool() { 0x80 } else { 0 };
            put_int(&mut b, h, 7, l, 0);
            let n = r.us(8);
            b.extend(r.bytes(n));
        }
        2 => {
            let n = r.range(1, 12) as usize;
            b = vec![*r.pick(&[0xff, 0x7f, 0x3f, 0x1f, 0x0f, 0x80, 0x00, 0xfe]); n];
        }
        3 => {
            // size updates up and down
            for _ in 0..r.range(1, 5) {
                let s = r.spread64() & 0x0fff_ffff;
                put_int(&mut b, 0x20, 5, s, 0);
            }
        }
        4..=6 => {
            for _ in 0..r.range(1, 5) {
                legal_rep(r, pool, t, &mut b);
            }
            for _ in 0..r.below(4) {
                if !b.is_empty() {
                    let k = r.us(b.len());
                    b[k] = if r.bool() { r.u8() } else { *r.pick(&[0xff, 0x7f, 0x80, 0, 0x3f]) };
                }
            }
        }
        7 => {
            // Huffman garbage of every length
            b.push(*r.pick(&[0x00, 0x40, 0x10]));
            let n = r.us(40);
            put_int(&mut b, 0x80, 7, n as u64, 0);
            b.extend(r.bytes(n));
            let k = r.below(20);
            put_int(&mut b, 0x80, 7, k, 0);
            b.extend(vec![0xff; k as usize]);
        }
        _ => {
            // many one-octet references
            let n = r.range(1, 300) as usize;
            b = (0..n).map(|_| 0x80 | r.range(1, 70) as u8).collect();
        }
    }
    b
}

fn h08_case(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let mut dec = Dec::new(max)?;
    let mut t = RefTable::new(max as u64);
    let mut mem = Mem { table_max: max as u64, delivered: 0 };
    let mut h = mix(max as u64);
    let mut carry: Vec<u8> = vec![];
    for k in 0..c.rng.range(1, 8) {
        let mut b = std::mem::take(&mut carry);
        b.extend(hostile_bytes(&mut c.rng, &mut t, &pool));
        h = hash_bytes(h, &b);
        let exact = c.rng.bool();
        let ok = h08_feed(c, &mut dec, &mut mem, &b, exact, "hostile octets")?;
        if !ok && c.rng.chance(1, 4) {
            carry = b.clone(); // feed the failing bytes again with more behind them
            carry.truncate(200);
        }
        if k == 0 {
            c.sample(|| format!("table {}: {} -> {}", max, hex(&b), if ok { "ok" } else { "error" }));
        }
        if c.rng.chance(1, 10) {
            let l = table_size(&mut c.rng);
            dec.set_max(l)?;
            mem.table_max = mem.table_max.max(l as u64);
        }
        c.count("octets fed", b.len() as u64);
    }
    c.distinct(h);
    Ok(())
}
/// Every three-octet input starting with the given two octets.
fn h08_three(c: &mut Case) -> R {
    let hi = (c.idx * 7919 % 65536) as u16; // spread when only a part is run
    for lo in 0..=255u8 {
        let mut dec = Dec::new(4096)?;
        let mut mem = Mem { table_max: 4096, delivered: 0 };
        h08_feed(c, &mut dec, &mut mem, &[(hi >> 8) as u8, hi as u8, lo], false, "three octets")?;
    }
    c.evals(256);
    c.distinct(mix(hi as u64));
    Ok(())
}
/// A long hostile connection: what stays allocated is bounded by the table.
fn h08_leak(c: &mut Case) -> R {
    let max = *c.rng.pick(&[0u32, 64, 256, 1000, 4096]);
    let pool = Pool::tiny(&mut c.rng);
    let base = crate::alloc::current();
    let mut dec = Dec::new(max)?;
    let mut t = RefTable::new(max as u64);
    let mut mem = Mem { table_max: max as u64, delivered: 0 };
    // what the connection is made of: anything, entries coming and going with the size of the
    // table, the same round for ever, references, or failures
    let way = c.idx % 6;
    let mut round: Vec<u8> = vec![];
    for k in 0..3000u64 {
        let b = if way == 1 || way == 2 {
            if way == 1 || k < 2 {
                round.clear();
                for _ in 0..c.rng.range(1, 6) {
                    round.push(0x40);
                    let long = if c.rng.bool() { 300 } else { 5 };
                    let (x, y) = (c.rng.us(20), c.rng.us(long));
                    let h = c.rng.bool();
                    put_str(&mut round, &c.rng.bytes(x), h, 0);
                    put_str(&mut round, &c.rng.bytes(y), h, 0);
                }
                let low = if c.rng.bool() { 0 } else { c.rng.below(max as u64 + 1) };
                for s in [low, max as u64] {
                    put_int(&mut round, 0x20, 5, s, 0);
                }
            }
            round.clone()
        } else if way == 3 && k > 10 {
            let mut b = vec![];
            put_int(&mut b, 0x40, 6, 1 + c.rng.below(65), 0);
            let n = c.rng.us(200);
            put_str(&mut b, &c.rng.bytes(n), k % 2 == 0, 0);
            b
        } else if way == 4 {
            // cut short somewhere
            let mut b = vec![*c.rng.pick(&[0x40u8, 0, 0x10])];
            let (x, y) = (c.rng.us(100), c.rng.us(300));
            let h = c.rng.bool();
            put_str(&mut b, &c.rng.bytes(x), h, 0);
            put_str(&mut b, &c.rng.bytes(y), h, 0);
            b.truncate(1 + c.rng.us(b.len()));
            b
        } else if k % 3 == 0 {
            hostile_bytes(&mut c.rng, &mut t, &pool)
        } else {
            let mut b = vec![0x40];
            let n = c.rng.us(60);
            put_str(&mut b, &c.rng.bytes(n), false, 0);
            let n = c.rng.us(60);
            put_str(&mut b, &c.rng.bytes(n), true, 0);
            b
        };
        if b.len() > 100_000 {
            continue;
        }
        h08_feed(c, &mut dec, &mut mem, &b, k % 2 == 0, "long hostile connection")?;
    }
    t.dynamic = Default::default();
    let live = crate::alloc::current() - base;
    let bound = 256 * 1024 + 16 * max as isize;
    ensure!(live <= bound, "after 3000 blocks a decoder with a {} octet table keeps {} bytes allocated", max, live);
    c.max("bytes retained by a long connection", live.max(0) as u64);
    c.count("long connections", 1);
    drop(dec);
    c.distinct(mix(c.idx));
    Ok(())
}
/// Many blocks into one destination that is never cleared.
fn h08_append(c: &mut Case) -> R {
    let max = *c.rng.pick(&[0u32, 64, 256, 1000, 4096]);
    let pool = Pool::tiny(&mut c.rng);
    let base = crate::alloc::current();
    let mut dec = Dec::new(max)?;
    let mut t = RefTable::new(max as u64);
    let mut got: Vec<Hdr> = vec![];
    let n = c.rng.range(30, 500);
    let mut h = mix(max as u64);
    let mut fed = 0usize;
    for _ in 0..n {
        let mut b = vec![];
        if c.rng.chance(1, 3) {
            b = hostile_bytes(&mut c.rng, &mut t, &pool);
        } else {
            for _ in 0..c.rng.range(1, 4) {
                legal_rep(&mut c.rng, &pool, &mut t, &mut b);
            }
        }
        h = hash_bytes(h, &b);
        let len = b.len();
        fed += len;
        let old = got.len();
        let _ = dec.decode(&mut b, &mut got)?;
        let peak = last_peak();
        let out: usize = got[old..].iter().map(|h| h.0.len() + h.1.len() + 96).sum();
        let bound = MIB + 64 * len + 8 * out + 8 * max as usize + 4 * 56 * got.len();
        ensure!(peak <= bound, "{} octets into a destination of {} headers allocated {} bytes (bound {})", len, old, peak, bound);
        ensure!(got.capacity() <= 1024 + 8 * got.len() + 2 * fed, "a destination of {} headers has grown to room for {}", got.len(), got.capacity());
    }
    let text: usize = got.iter().map(|h| h.0.len() + h.1.len()).sum();
    let live = crate::alloc::current() - base;
    let bound = 512 * 1024 + 8 * text + 600 * got.len() + 16 * max as usize + 64 * pool.names.len();
    ensure!(live <= bound as isize, "{} octets gave {} headers of {} octets but {} bytes stay allocated", fed, got.len(), text, live);
    c.count("blocks into a growing destination", n);
    c.evals(n);
    c.distinct(h);
    Ok(())
}
/// Lengths claimed of every size, with little behind them.
fn h08_every(c: &mut Case) -> R {
    for n in lengths(c) {
        for form in 0..4 {
            let mut dec = Dec::new(1 << 20)?;
            let mut mem = Mem { table_max: 1 << 20, delivered: 0 };
            let mut b = vec![];
            put_int(&mut b, [0x40, 0, 0x10][(n + form) % 3], [6, 4, 4][(n + form) % 3], if form < 2 { 0 } else { 2 }, 0);
            put_int(&mut b, if form & 1 == 1 { 0x80 } else { 0 }, 7, n as u64, 0);
            let k = [0, 1, n / 2, n.saturating_sub(1), n][c.rng.us(5)].min(70_000);
            b.extend(c.rng.bytes(k));
            h08_feed(c, &mut dec, &mut mem, &b, n % 2 == 0, &format!("a string claimed to be of {} octets", n))?;
        }
        c.count("claimed lengths swept", 1);
        c.distinct(mix(n as u64));
    }
    Ok(())
}
/// As many representations as possible in one call: the way through them may not depend on the stack.
fn h08_crowded(c: &mut Case) -> R {
    let one: &[u8] = [&[0x82u8][..], &[0x20], &[0, 0, 0], &[0x40, 0, 0], &[0x10, 1, b'a', 0], &[0x0f, 0, 0]][c.idx as usize % 6];
    let n = if cfg!(miri) { 300 } else { (if c.tier == Tier::Thorough { 300_000 } else { 160_000 }) / one.len() };
    let whole = one.repeat(n);
    let total = whole.len();
    let mut dec = Dec::new(4096)?;
    let mut got: Vec<Hdr> = vec![];
    let mut buf = whole;
    if c.idx >= 6 {
        buf.push(*c.rng.pick(&[0x80u8, 0xff, 0x41])); // and an end which is malformed or incomplete
    }
    let r = dec.decode(&mut buf, &mut got)?;
    let want = if one[0] == 0x20 { 0 } else { n };
    ensure!(got.len() == want, "{} representations in one call: {} headers, {:?}", n, got.len(), r);
    ensure!(if c.idx < 6 { r == Ok(total) } else { r.is_err() }, "{} representations in one call: {:?}", n, r);
    let (peak, bound) = (last_peak(), Mem { table_max: 4096, delivered: 0 }.bound(total, &got));
    ensure!(peak <= bound, "{} octets made the decoder allocate {} bytes (bound {})", total, peak, bound);
    c.count("crowded calls", 1);
    c.max("representations in one call", n as u64);
    c.distinct(mix(c.idx ^ 79));
    Ok(())
}
pub fn h08() -> Prop {
    Prop {
        id: "H08",
        rule: "A case is one decoder fed a sequence of hostile inputs (random octets, huge declared lengths, saturated integers, size updates, corrupted valid blocks, Huffman garbage), continuing after errors and re-feeding failed input; monitored for panics, non-termination (processor time per call), progress, and peak and retained allocation. Exhaustive over three-octet inputs in the thorough tier. Distinct by input bytes.",
        stages: vec![st("hostile", 120_000, 3_500_000, h08_case), ex("three-octets", 4096, 65536, h08_three), st("long", 24, 400, h08_leak), st("one destination", 200, 6_000, h08_append), ex("every length", SHARES[0], SHARES[1], h08_every), ex("crowded", 12, 12, h08_crowded)],
        floors: vec![("decode calls", 300_000), ("errors", 50_000), ("successes", 50_000), ("octets fed", 1_000_000), ("long connections", 10), ("claimed lengths swept", 12_000), ("crowded calls", 12)],
    }
}

// ---------------------------------------------------------------- H09

fn h09_small(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    let steps = c.rng.range(2, 25);
    h09_case(c, steps, pool, max, &[])
}
fn h09_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 2500);
    let steps = c.rng.range(2, 25);
    h09_case(c, steps, d.pool, d.max, &d.fill)
}
/// More changes of the limit, and of the size, than 16 bits count.
fn h09_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    c.max("most changes on one connection", LIFE + LIFE / 2);
    h09_case(c, LIFE + LIFE / 2, pool, 200, &[])
}
fn h09_case(c: &mut Case, steps: u64, pool: Pool, max: u32, fill: &[Pair]) -> R {
    // sometimes the encoder starts with another size and announces it first
    let own = if fill.is_empty() && c.rng.chance(1, 4) { size_within(&mut c.rng, max as u64) } else { max };
    let mut enc = Enc::new(own)?;
    let mut dec = Dec::new(max)?;
    let mut m = RefTable::new(own as u64);
    let mut limit = max as u64;
    let mut log = vec![];
    let mut h = mix(max as u64);
    let r = (|| -> R {
        ensure!(enc.max()? == own, "a new encoder reports maximum {} instead of {}", enc.max()?, own);
        if own != max {
            log.push(format!("encoder of {} announces that", own));
            h = mix(h ^ own as u64);
            let mut block = vec![];
            enc.must(&Op::Size(own), true, &mut block)?;
            let r = dec.decode(&mut block, &mut vec![])?;
            ensure!(r.is_ok(), "size update {} within limit {} rejected: {:?}", own, max, r);
            c.count("encoders starting with a smaller table", 1);
        }
        ensure!(dec.max()? == max, "a new decoder reports limit {} instead of {}", dec.max()?, max);
        if !fill.is_empty() {
            enc.fill(&mut m, fill)?;
            dec.fill(fill)?;
            c.count("deep tables", 1);
        }
        for _ in 0..steps {
            match c.rng.below(8) {
                0 | 1 => {
                    // change the limit only
                    limit = match c.rng.below(4) {
                        0 => m.size.saturating_sub(c.rng.below(60)),
                        1 => m.max.saturating_sub(c.rng.below(3)),
                        _ => table_size(&mut c.rng) as u64,
                    };
                    log.push(format!("limit {}", limit));
                    dec.set_max(limit as u32)?;
                    h = mix(h ^ limit);
                    dec.probe(&m, &format!("after changing the limit to {}", limit))?;
                    c.count("limit changes", 1);
                }
                2 | 3 => {
                    // announce a size within the limit
                    let s = match c.rng.below(4) {
                        0 => limit.min(MAX_SIZE5),
                        1 if c.rng.chance(1, 3) && m.max <= limit.min(MAX_SIZE5) => m.max, // again
                        1 => m.size.saturating_sub(if c.rng.bool() { c.rng.below(40) } else { c.rng.below(m.size + 1) }).min(limit).min(MAX_SIZE5),
                        _ => size_within(&mut c.rng, limit) as u64,
                    };
                    log.push(format!("announce {}", s));
                    h = mix(h ^ s << 1);
                    let mut block = vec![];
                    let before = m.dynamic.len();
                    enc.must(&Op::Size(s as u32), true, &mut block)?;
                    let r = dec.decode(&mut block, &mut vec![])?;
                    ensure!(r.is_ok(), "size update {} within limit {} rejected: {:?}", s, limit, r);
                    m.set_max(s);
                    if m.dynamic.len() < before {
                        c.count("updates that evict", 1);
                    }
                    c.count("accepted updates", 1);
                    ensure!(enc.max()? as u64 == s, "encoder announced {} but reports {}", s, enc.max()?);
                    let ctx = format!("after size update {} (limit {})", s, limit);
                    dec.probe(&m, &ctx)?;
                    enc.probe(&m, &ctx)?;
                }
                4 if limit < MAX_SIZE5 => {
                    // exceed the limit, alone or after valid representations
                    let s = if c.rng.bool() { limit + 1 } else { c.rng.range(limit + 1, MAX_SIZE5) };
                    log.push(format!("excessive {}", s));
                    h = mix(h ^ s << 2);
                    let mut block = vec![];
                    put_int(&mut block, 0x20, 5, s, 0);
                    let n = block.len();
                    let mut got = vec![];
                    let r = dec.decode(&mut block, &mut got)?;
                    ensure!(matches!(&r, Err((F_SIZE, _))), "size update {} above limit {}: {:?}", s, limit, r);
                    ensure!(block.len() == n && got.is_empty(), "rejected size update {} consumed input or produced headers", s);
                    dec.probe(&m, &format!("after rejected size update {} (limit {})", s, limit))?;
                    c.count("rejected updates", 1);
                }
                _ => {
                    let mut block = vec![];
                    let mut want = vec![];
                    for _ in 0..c.rng.range(1, 6) {
                        let (n, v) = pool.pair(&mut c.rng, &m);
                        let f = *c.rng.pick(&[4u8, 4, 4 | 0x10, 0]);
                        let o = Op::Lit(n, v, f);
                        log.push(show_op(&o));
                        h = hash_op(h, &o);
                        enc.must(&o, false, &mut block)?;
                        want.push(apply(&mut m, &o).header.unwrap());
                    }
                    let mut got = vec![];
                    let r = dec.decode(&mut block, &mut got)?;
                    ensure!(r.is_ok(), "block rejected: {:?}", r);
                    same_headers(&got, &want, "headers between size changes")?;
                    c.count("headers", got.len() as u64);
                }
            }
            let g = dec.max()?;
            ensure!(g as u64 == limit, "decoder reports limit {} instead of {} (the table itself may hold {})", g, limit, m.max);
            let g = enc.max()?;
            ensure!(g as u64 == m.max, "encoder reports maximum {} instead of the last announced {}", g, m.max);
        }
        dec.probe(&m, "at the end")?;
        enc.probe(&m, "at the end")?;
        if c.rng.chance(1, 3) {
            dec.pressure(&mut c.rng, &m, limit, "at the end")?;
            enc.pressure(&mut c.rng, &m, "at the end")?;
            c.count("tables pushed out afterwards", 1);
        }
        Ok(())
    })();
    c.distinct(h);
    c.sample(|| format!("table {}: {}", max, log.join("; ")));
    with_history(&log, r)
}
/// limit x update grid around the boundary
fn h09_grid(c: &mut Case) -> R {
    const V: [u32; 22] = [0, 1, 29, 30, 31, 32, 33, 127, 128, 158, 159, 160, 4095, 4096, 4097, 16414, 16415, 65535, 65536, 2097183, (1 << 28) + 29, (1 << 28) + 30];
    let limit = V[c.idx as usize % V.len()];
    let via_set = c.idx as usize / V.len() == 1;
    for &base in V.iter() {
        for d in [-1i64, 0, 1] {
            let s = base as i64 + d;
            if s < 0 || s as u64 > MAX_SIZE5 {
                continue;
            }
            let mut dec = if via_set {
                let mut d = Dec::new(4096)?;
                d.set_max(limit)?;
                d
            } else {
                Dec::new(limit)?
            };
            let mut b = vec![];
            put_int(&mut b, 0x20, 5, s as u64, 0);
            b.push(0x82);
            let mut got = vec![];
            let r = dec.decode(&mut b, &mut got)?;
            if s as u64 <= limit as u64 {
                ensure!(r.is_ok() && got.len() == 1, "limit {}, size update {}: {:?}", limit, s, r);
                c.count("accepted updates", 1);
            } else {
                ensure!(matches!(&r, Err((F_SIZE, _))) && got.is_empty(), "limit {}, size update {}: {:?}", limit, s, r);
                c.count("rejected updates", 1);
            }
            ensure!(dec.max()? == limit, "limit {} reported as {} after size update {}", limit, dec.max()?, s);
            c.distinct(mix((limit as u64) << 32 | s as u64) ^ via_set as u64);
        }
    }
    c.evals(66);
    Ok(())
}
/// Every size as a limit: it may be announced, its successor may not, what fits stays.
fn h09_every(c: &mut Case) -> R {
    for n in lengths(c) {
        for via in 0..3 {
            let mut enc = Enc::new(if via == 0 { n as u32 } else { 1 << 23 })?;
            let mut dec = Dec::new(if via == 0 { n as u32 } else { 1 << 23 })?;
            let mut m = RefTable::new(if via == 0 { n as u64 } else { 1 << 23 });
            let mut fill = vec![];
            for k in 0..3u8 {
                let room = [n / 2, n - n / 2, 40][k as usize];
                if room >= 34 && (via != 2 || k < 2) {
                    fill.push((vec![k], vec![b'f'; room - 33]));
                }
            }
            enc.fill(&mut m, &fill)?;
            dec.fill(&fill)?;
            let mut block = vec![];
            if via > 0 {
                dec.set_max(n as u32)?;
                c.count("limit changes", 1);
                dec.probe(&m, &format!("after changing the limit to {}", n))?;
                let before = m.dynamic.len();
                enc.must(&Op::Size(n as u32), true, &mut block)?;
                m.set_max(n as u64);
                if m.dynamic.len() < before {
                    c.count("updates that evict", 1);
                }
                let r = dec.decode(&mut block, &mut vec![])?;
                ensure!(r.is_ok(), "size update {} within limit {}: {:?}", n, n, r);
                c.count("accepted updates", 1);
            }
            ensure!(enc.max()? == n as u32 && dec.max()? == n as u32, "sizes {} and {} instead of {}", enc.max()?, dec.max()?, n);
            let ctx = format!("limit and size {} (set {})", n, ["at the start", "later", "later, with room"][via]);
            enc.probe(&m, &ctx)?;
            dec.probe(&m, &ctx)?;
            block.clear();
            put_int(&mut block, 0x20, 5, n as u64 + 1, 0);
            let r = dec.decode(&mut block, &mut vec![])?;
            ensure!(matches!(&r, Err((F_SIZE, _))), "{}: size update {} gives {:?}", ctx, n + 1, r);
            c.count("rejected updates", 1);
            dec.probe(&m, &ctx)?;
            ensure!(dec.max()? == n as u32, "{}: limit {} after a rejected update", ctx, dec.max()?);
            // the next entry evicts the same on both sides
            let o = Op::Lit(b"n".to_vec(), vec![b'v'; c.rng.us(60)], 4);
            block.clear();
            enc.must(&o, true, &mut block)?;
            apply(&mut m, &o);
            let r = dec.decode(&mut block, &mut vec![])?;
            ensure!(r.is_ok(), "{}: {:?}", ctx, r);
            enc.probe(&m, &ctx)?;
            dec.probe(&m, &ctx)?;
            c.count("headers", 1 + fill.len() as u64);
        }
        c.count("limits swept", 1);
        c.distinct(mix(n as u64 ^ 1 << 42));
    }
    Ok(())
}
pub fn h09() -> Prop {
    Prop {
        id: "H09",
        rule: "A case is a history interleaving limit changes, announced sizes within the limit, excessive size updates and headers on a real encoder/decoder pair; getters, acceptance and both probed tables are compared with the model after every step. The grid stage covers every limit/update pair around the integer boundaries. Distinct by operations.",
        stages: vec![st("histories", 25_000, 700_000, h09_small), st("lifetime", 1, 12, h09_life), st("deep", 200, 6_000, h09_deep), ex("grid", 44, 44, h09_grid), ex("every limit", SHARES[0], SHARES[1], h09_every)],
        floors: vec![("limit changes", 20_000), ("accepted updates", 20_000), ("rejected updates", 5_000), ("updates that evict", 3_000), ("headers", 50_000), ("limits swept", 12_000)],
    }
}

// ---------------------------------------------------------------- H10

fn h10_case(c: &mut Case) -> R {
    let pool = if c.rng.chance(1, 4) { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    let max = table_size(&mut c.rng);
    h10_twins(c, pool, max, &[], false, 0)
}
fn h10_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 2500);
    h10_twins(c, d.pool, d.max, &d.fill, false, 0)
}
/// Blocks of hundreds of representations and calls with room for hundreds or very many.
fn h10_wide(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = table_size(&mut c.rng);
    h10_twins(c, pool, max, &[], true, 0)
}
/// A capacity around the sizes at which counters wrap, or any up to a few thousand.
fn wide_capacity(r: &mut Rng) -> usize {
    match r.below(8) {
        0 => 0,
        1 => *r.pick(&[65_535, 65_536, 65_537, 65_538, 131_072, 66_000, 65_791, 65_792]),
        2..=4 => {
            let k = 1usize << r.range(5, 13);
            k - 2 + r.us(5)
        }
        _ => r.us(700),
    }
}
/// More blocks through the two decoders than 16 bits count.
fn h10_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80, 200, 333]);
    c.max("most blocks through one decoder", LIFE / 2);
    h10_twins(c, pool, max, &[], false, LIFE / 2)
}
fn h10_twins(c: &mut Case, pool: Pool, max: u32, fill: &[Pair], wide: bool, life: u64) -> R {
    let mut warm = vec![];
    let mut t0 = RefTable::new(max as u64);
    fill.iter().for_each(|e| t0.insert(&e.0, &e.1));
    for _ in 0..c.rng.below(10) {
        legal_rep(&mut c.rng, &pool, &mut t0, &mut warm);
    }
    let (mut a, mut b) = (Dec::new(max)?, Dec::new(max)?);
    if !fill.is_empty() {
        c.count("deep tables", 1);
    }
    for d in [&mut a, &mut b] {
        d.fill(fill)?;
        let r = d.decode(&mut warm.clone(), &mut vec![])?;
        ensure!(r.is_ok(), "warm-up: {:?}", r);
    }
    let mut rd = RefDecoder { table: t0, limit: max as u64 };
    relimit(c, &mut a, &mut rd)?;
    b.set_max(rd.limit as u32)?;
    // several blocks on the same two decoders, the last perhaps damaged
    let rounds = if life > 0 { life } else if c.rng.chance(1, 3) { c.rng.range(2, 5) } else { 1 };
    for round in 1..=rounds {
        let mut block = vec![];
        match c.rng.below(8) {
            0 if rounds > 1 => {
                let mut t = rd.table.clone();
                for _ in 0..c.rng.range(0, 3) {
                    legal_size(&mut c.rng, &mut t, rd.limit, &mut block);
                }
                c.count("blocks of nothing but size updates", 1);
            }
            _ => {
                let reps = match wide {
                    _ if life > 0 => c.rng.range(0, 4),
                    false => c.rng.range(0, 12),
                    true => *c.rng.pick(&[3, 40, 254, 255, 256, 257, 258, 300, 511, 512, 513, 700, 1500]),
                };
                block = bounded_block(c, &pool, &rd.table, max as u64, reps).0;
            }
        }
        if round == rounds && c.rng.chance(1, 3) {
            match c.rng.below(3) {
                0 => {
                    malformed(&mut c.rng, &rd.table, max as u64, &mut block);
                    if wide {
                        block.extend(behind(&mut c.rng, 5, 1));
                    }
                }
                1 if !block.is_empty() => {
                    let k = c.rng.us(block.len());
                    block.truncate(k);
                }
                _ => {
                    let n = c.rng.us(6);
                    let x = c.rng.bytes(n);
                    block.extend(x);
                }
            }
        }
        if !h10_block(c, &mut a, &mut b, &mut rd, &block, wide)? {
            break;
        }
        c.count("blocks after other blocks", (round > 1) as u64);
    }
    a.probe(&rd.table, "whole-block decoder")?;
    a.probe(&rd.table, "whole-block decoder")?;
    b.probe(&rd.table, "bounded decoder")?;
    if c.rng.chance(1, 12) {
        a.pressure(&mut c.rng, &rd.table, rd.limit, "whole-block decoder")?;
        b.pressure(&mut c.rng, &rd.table, rd.limit, "bounded decoder")?;
        c.count("tables pushed out afterwards", 1);
    }
    Ok(())
}
/// One block, at once on `a` and piecemeal on `b`; whether it was valid.
fn h10_block(c: &mut Case, a: &mut Dec, b: &mut Dec, rd: &mut RefDecoder, block: &[u8], wide: bool) -> R<bool> {
    // reference run: the model of what each representation is
    let mut ends = vec![0usize];
    while *ends.last().unwrap() < block.len() {
        match rd.step(&block[*ends.last().unwrap()..]) {
            Step::Ok { used, .. } => ends.push(ends.last().unwrap() + used),
            Step::Bad(_) => break,
        }
    }
    let valid = *ends.last().unwrap() == block.len();
    let mut buf_a = block.to_vec();
    let mut got_a = vec![];
    let ra = a.decode(&mut buf_a, &mut got_a)?;
    if let Ok(n) = ra {
        ensure!(n == block.len() - buf_a.len(), "decode of {} reports {} octets but removed {}", hex(block), n, block.len() - buf_a.len());
        c.count("octet counts checked", 1);
    }
    ensure!(block.ends_with(&buf_a), "decode changed the rest of the input");
    let mut buf_b = block.to_vec();
    let mut got_b: Vec<Hdr> = vec![];
    let mut caps = vec![];
    let mut guard = 0;
    let rb = loop {
        let cap = match c.rng.below(6) {
            _ if wide => wide_capacity(&mut c.rng),
            0 => 0,
            1..=3 => 1,
            4 => c.rng.us(4),
            _ => c.rng.us(20),
        };
        let mut part: Vec<Hdr> = Vec::with_capacity(cap);
        let cap = part.capacity();
        caps.push(cap);
        let before = buf_b.clone();
        let r = b.decode_exact(&mut buf_b, &mut part)?;
        let ctx = format!("bounded decode, capacity {} at octet {} of {}", cap, block.len() - before.len(), hex(block));
        ensure!(before.ends_with(&buf_b), "{}: the rest of the input was changed", ctx);
        let used = before.len() - buf_b.len();
        let s0 = block.len() - before.len();
        let i0 = ends.binary_search(&s0);
        let i1 = ends.binary_search(&(s0 + used));
        ensure!(i0.is_ok() && i1.is_ok(), "{}: stopped inside a representation (octet {})", ctx, s0 + used);
        let done = i1.unwrap() - i0.unwrap();
        ensure!(done <= cap, "{}: {} representations processed", ctx, done);
        ensure!(part.len() <= cap, "{}: {} headers delivered", ctx, part.len());
        c.count("bounded calls", 1);
        c.max("most representations in one bounded call", done as u64);
        let n_part = part.len();
        got_b.append(&mut part);
        match r {
            Ok(n) => {
                ensure!(n == used, "{}: reports {} octets but removed {}", ctx, n, used);
                c.count("octet counts checked", 1);
                ensure!(buf_b.is_empty() || done == cap || n_part == cap, "{}: stopped after {} representations although more fit", ctx, done);
            }
            Err(e) => break Err(e),
        }
        if buf_b.is_empty() {
            break Ok(0);
        }
        guard += 1;
        ensure!(guard < 2000 + 20 * block.len(), "{}: no progress", ctx);
    };
    let ctx = format!("capacities {:?} on {}", &caps[..caps.len().min(20)], hex(block));
    match (&ra, &rb) {
        (Ok(_), Ok(_)) => ensure!(valid, "{}: both accept an invalid block", ctx),
        (Err(x), Err(y)) => ensure!(x == y, "{}: whole-block decode fails with {} but bounded decode with {}", ctx, x.1, y.1),
        _ => fail!("{}: whole-block decode gives {:?}, bounded decode {:?}", ctx, ra, rb),
    }
    same_headers(&got_b, &got_a, &format!("bounded against whole, {}", ctx))?;
    ensure!(buf_a == buf_b, "{}: remaining inputs differ ({} and {})", ctx, buf_a.len(), buf_b.len());
    c.count(if valid { "valid blocks" } else { "invalid blocks" }, 1);
    c.distinct(hash_bytes(mix(caps.iter().fold(7, |h, &x| mix(h ^ x as u64))), block));
    c.sample(|| ctx.clone());
    Ok(valid)
}
/// Every capacity: that many headers, and the octets they took.
fn h10_every(c: &mut Case) -> R {
    for n in lengths_to(c, 3000, 1 << 17) {
        let mut dec = Dec::new(4096)?;
        let mut b: Vec<u8> = (0..n).map(|i| 0x81 + (i % 61) as u8).collect();
        let tail: &[u8] = [&[0x40, 1, b'k', 1, b'v', 0xbe][..], &[0x3f, 0xe1, 0x1f, 0x82], &[0x82], &[]][c.rng.us(4)];
        b.extend_from_slice(tail);
        let mut got: Vec<Hdr> = Vec::with_capacity(n);
        let room = got.capacity();
        ensure!(room == n, "the allocator rounded {} to {}", n, room);
        let total = b.len();
        let r = dec.decode_exact(&mut b, &mut got)?;
        ensure!(matches!(&r, Ok(k) if *k == total - b.len()), "capacity {}: {:?}, {} octets consumed", n, r, total - b.len());
        ensure!(got.capacity() == room, "capacity {}: grew to {}", n, got.capacity());
        ensure!(got.len() == n, "capacity {}: {} headers of {} delivered", n, got.len(), n + 1);
        // a size update behind the last header may or may not have been taken along
        let left = b.len();
        ensure!(left == tail.len() || (tail.len() == 4 && left == 1), "capacity {}: {} octets left of {}", n, left, total);
        for (i, g) in got.iter().enumerate() {
            let w = STATIC[i % 61];
            ensure!(g.0 == w.0.as_bytes() && g.1 == w.1.as_bytes(), "capacity {}: header {} is {}", n, i, show_hdr(g));
        }
        c.count("capacities swept", 1);
        c.distinct(mix(n as u64 ^ 1 << 43));
    }
    Ok(())
}
pub fn h10() -> Prop {
    Prop {
        id: "H10",
        rule: "A case is one block or several in a row (the last perhaps truncated or malformed), decoded at once by one decoder and through bounded calls of random capacities (including 0) by its twin; headers, marks, errors, remaining input, octet counts and probed tables are compared. Distinct by block and capacities.",
        stages: vec![st("twins", 50_000, 1_400_000, h10_case), st("deep", 300, 10_000, h10_deep), st("lifetime", 1, 12, h10_life), st("wide calls", 400, 12_000, h10_wide), ex("every capacity", SHARES[0], SHARES[1], h10_every)],
        floors: vec![("bounded calls", 100_000), ("octet counts checked", 100_000), ("valid blocks", 10_000), ("invalid blocks", 5_000), ("capacities swept", 2_500)],
    }
}

// ---------------------------------------------------------------- H11

fn h11_pool(c: &mut Case, n: usize, max: u32) -> R {
    let pool = if c.rng.bool() { Pool::new(&mut c.rng) } else { Pool::tiny(&mut c.rng) };
    h11_case(c, n, max, pool, &[])
}
fn h11_deep(c: &mut Case) -> R {
    let d = deep(&mut c.rng, 2500);
    h11_case(c, 25, d.max, d.pool, &d.fill)
}
fn h11_case(c: &mut Case, n: usize, max: u32, pool: Pool, fill: &[Pair]) -> R {
    let mut a = Enc::new(max)?; // sees rejected calls
    let mut b = Enc::new(max)?; // does not
    let mut m = RefTable::new(max as u64);
    let mut h = mix(max as u64);
    let mut log = vec![];
    let r = (|| -> R {
        if !fill.is_empty() {
            a.fill(&mut m, fill)?;
            m = RefTable::new(max as u64);
            b.fill(&mut m, fill)?;
            c.count("deep tables", 1);
        }
        for _ in 0..n {
            for _ in 0..c.rng.below(3) {
                let len = m.len() as u32;
                let i = match c.rng.below(7) {
                    0 => 0,
                    1..=3 => len + 1,
                    4 => len + 2 + c.rng.below(80) as u32,
                    5 => *c.rng.pick(&[u32::MAX, u32::MAX - 1, 1 << 31, 1 << 16, u32::MAX - 61, u32::MAX - 60]),
                    _ => c.rng.u32().max(len + 1),
                };
                let i = if i <= len { 0 } else { i };
                let (op, want) = match c.rng.below(4) {
                    0 => (Op::Idx(i), "InvalidIndex"),
                    3 if c.rng.bool() => (Op::Size(c.rng.range(MAX_SIZE5 + 1, u32::MAX as u64) as u32), "IntegerOverflow"),
                    _ => (Op::IdxName(i, pool.value(&mut c.rng), flags(&mut c.rng, false)), "InvalidIndex"),
                };
                let k = c.rng.us(5);
                let orig = c.rng.bytes(k);
                let mut out = orig.clone();
                log.push(format!("(invalid) {}", show_op(&op)));
                h = hash_op(h, &op);
                let direct = c.rng.bool();
                let r = a.call(&op, direct, &mut out)?;
                match r {
                    Ok(()) => fail!("{} accepted although the table has {} entries (output {})", show_op(&op), len, hex(&out[orig.len().min(out.len())..])),
                    Err(e) => ensure!(e == want, "{} rejected with {} instead of {}", show_op(&op), e, want),
                }
                ensure!(out == orig, "rejected {} changed the output from {} to {}", show_op(&op), hex(&orig), hex(&out));
                ensure!(a.max()? as u64 == m.max, "rejected {} changed the reported maximum to {}", show_op(&op), a.max()?);
                c.count(if want == "InvalidIndex" { "invalid indexes rejected" } else { "oversized updates rejected" }, 1);
            }
            let o = op(&mut c.rng, &pool, &m, max as u64);
            log.push(show_op(&o));
            h = hash_op(h, &o);
            let direct = c.rng.bool();
            let (mut oa, mut ob) = (vec![], vec![]);
            a.must(&o, direct, &mut oa)?;
            b.must(&o, direct, &mut ob)?;
            ensure!(oa == ob, "{}: an encoder that saw rejected calls emits {}, one that did not emits {}", show_op(&o), hex(&oa), hex(&ob));
            apply(&mut m, &o);
            c.count("twin outputs compared", 1);
        }
        // every valid index works, none beyond
        let n = m.len();
        let step = 1 + n / 300;
        let mut junk = vec![];
        for i in (1..=n).step_by(step as usize).chain([n]) {
            junk.clear();
            a.must(&Op::Idx(i as u32), i % 2 == 0, &mut junk)?;
            let mut want = vec![];
            put_int(&mut want, 0x80, 7, i, 0);
            ensure!(junk == want, "index {} emitted as {}", i, hex(&junk));
            junk.clear();
            a.must(&Op::IdxName(i as u32, vec![b'x'], 0), i % 2 == 1, &mut junk)?;
            c.count("valid indexes accepted", 2);
        }
        a.probe(&m, "at the end")?;
        if c.rng.chance(1, 4) {
            a.pressure(&mut c.rng, &m, "at the end")?;
            c.count("tables pushed out afterwards", 1);
        }
        Ok(())
    })();
    c.distinct(h);
    c.sample(|| format!("table {}: {}", max, log.join("; ")));
    with_history(&log, r)
}
fn h11_small(c: &mut Case) -> R {
    let n = c.rng.range(1, 25) as usize;
    let max = table_size(&mut c.rng);
    h11_pool(c, n, max)
}
fn h11_long(c: &mut Case) -> R {
    let max = *c.rng.pick(&[333u32, 4096, 65536]);
    h11_pool(c, 600, max)
}
/// More rejected calls than 16 bits count.
fn h11_life(c: &mut Case) -> R {
    let pool = Pool::tiny(&mut c.rng);
    let max = *c.rng.pick(&[80, 200, 333]);
    c.max("most calls of one encoder", LIFE);
    h11_case(c, LIFE as usize, max, pool, &[])
}
/// Fresh encoder: every index 0..=700 and powers of two.
fn h11_sweep(c: &mut Case) -> R {
    let hollow = c.idx > 200; // nothing in the entries, as many as the table can hold
    let fill = (c.idx % 201) as u32; // 0..=200 entries
    let mut e = Enc::new(if hollow { fill * 32 + c.rng.below(32) as u32 } else { 65536 })?;
    let mut out = vec![];
    for k in 0..fill {
        e.must(&Op::Lit(if hollow { vec![] } else { vec![b'k', k as u8] }, vec![], 4), true, &mut out)?;
    }
    let n = 61 + fill;
    let mut probe: Vec<u32> = (0..n + 40).collect();
    for b in 6..32 {
        probe.extend([(1u32 << b) - 1, 1 << b, (1u32 << b) + 1, (1u32 << b) + 60, (1u32 << b) + 61]);
    }
    for i in probe {
        for o in [Op::Idx(i), Op::IdxName(i, vec![1], 0), Op::IdxName(i, vec![], 8)] {
            out.clear();
            let r = e.call(&o, i % 2 == 0, &mut out)?;
            if i >= 1 && i <= n {
                ensure!(r.is_ok(), "{} with {} entries: {:?}", show_op(&o), n, r);
                c.count("valid indexes accepted", 1);
            } else {
                ensure!(r == Err("InvalidIndex".into()) && out.is_empty(), "{} with {} entries: {:?}, output {}", show_op(&o), n, r, hex(&out));
                c.count("invalid indexes rejected", 1);
            }
        }
    }
    c.distinct(mix(fill as u64));
    Ok(())
}
fn h11_sizes(c: &mut Case) -> R {
    let mut e = Enc::new(300)?;
    let mut m = RefTable::new(300);
    let mut out = vec![];
    for k in 0..6u8 {
        let o = Op::Lit(vec![k], vec![k; 9], 4);
        e.must(&o, true, &mut out)?;
        apply(&mut m, &o);
    }
    for k in 0..30u64 {
        let s = match (c.idx, k) {
            (0, 0..=11) => [MAX_SIZE5 + 1, MAX_SIZE5 + 2, 1 << 29, 1 << 30, 1 << 31, (1 << 31) - 1, u32::MAX as u64, u32::MAX as u64 - 1, (1 << 28) + 31, (1 << 28) + 127, (1 << 28) + 128, (1 << 29) - 1][k as usize],
            _ => c.rng.range(MAX_SIZE5 + 1, u32::MAX as u64),
        };
        out.clear();
        let r = e.call(&Op::Size(s as u32), true, &mut out)?;
        ensure!(r == Err("IntegerOverflow".into()), "size update {} (more than five octets): {:?}, emitted {}", s, r, hex(&out));
        ensure!(out.is_empty(), "rejected size update {} emitted {}", s, hex(&out));
        ensure!(e.max()? as u64 == m.max, "rejected size update {} changed the maximum to {}", s, e.max()?);
        e.probe(&m, &format!("after rejected size update {}", s))?;
        c.count("oversized updates rejected", 1);
        c.distinct(mix(s));
    }
    Ok(())
}
/// Strings whose length needs more than five octets.
fn h11_giant(c: &mut Case) -> R {
    set_cap(8 << 30);
    const LAST: usize = (1 << 28) + 126; // the longest length five octets can carry
    let mut e = Enc::new(300)?;
    let mut m = RefTable::new(300);
    let mut out = vec![];
    for k in 0..4u8 {
        let o = Op::Lit(vec![k], vec![k; 9], 4);
        e.must(&o, true, &mut out)?;
        apply(&mut m, &o);
    }
    out = b"kept".to_vec();
    // 13 bits per octet
    let coded = ((LAST + 1) * 8 + 12) / 13 + 1;
    let op = match c.idx % 6 {
        0 => Op::Lit(b"n".to_vec(), vec![b'v'; LAST + 1], *c.rng.pick(&[0, 4, 8])),
        1 => Op::IdxName(63, vec![b'v'; LAST + 1], *c.rng.pick(&[0, 4, 8])),
        2 => Op::Lit(b"n".to_vec(), vec![b'$'; coded], *c.rng.pick(&[2, 2 | 4])),
        3 => Op::Lit(vec![b'n'; LAST + 1], b"v".to_vec(), 4),
        4 => Op::Lit(vec![b'$'; coded], vec![], 1),
        _ => Op::IdxName(65, vec![b'$'; coded], 2 | 8),
    };
    let (what, len) = match &op {
        Op::Lit(n, v, f) => (format!("literal with flags {:#x}", f), n.len().max(v.len())),
        Op::IdxName(_, v, f) => (format!("indexed name with flags {:#x}", f), v.len()),
        _ => unreachable!(),
    };
    let r = e.call(&op, true, &mut out)?;
    ensure!(r == Err("IntegerOverflow".into()), "{} and a string of {} octets, longer than five octets can tell: {:?}", what, len, r);
    ensure!(out == b"kept", "{} and a string of {} octets was rejected but {} octets were emitted", what, len, out.len() as isize - 4);
    e.probe(&m, &format!("after a rejected {} and a string of {} octets", what, len))?;
    drop(op);
    if c.idx == 0 {
        let v = vec![b'v'; LAST];
        out.clear();
        e.must(&Op::Lit(b"n".to_vec(), v, 0), true, &mut out)?;
        ensure!(out.len() == LAST + 8 && out[..8] == [0, 1, b'n', 0x7f, 0xff, 0xff, 0xff, 0x7f], "a string of {} octets, the longest that five octets can tell, is emitted as {} octets {}..", LAST, out.len(), hex(&out[..out.len().min(9)]));
    }
    c.count("strings too long rejected", 1);
    c.distinct(mix(c.idx + 1000));
    Ok(())
}
/// A string longer than 32 bits can tell.
fn h11_beyond(c: &mut Case) -> R {
    if !roomy(26) {
        return Ok(());
    }
    patient(20);
    let n = [(1usize << 32) + 5, 1 << 32, (1 << 31) + 5][c.idx as usize % 3];
    let v = vec![0u8; n];
    let mut out = b"kept".to_vec();
    let mut e = sut("Encoder::default", httlib_hpack::Encoder::default)?;
    set_cap(22 << 30);
    let r = sut("Encoder::encode_literal", || e.encode_literal(b"n".to_vec(), v, 4, &mut out).map_err(|e| format!("{:?}", e)))?;
    c.max("largest allocation of such a call (MiB)", (last_peak() >> 20) as u64);
    ensure!(r == Err("IntegerOverflow".into()), "a string of {} octets, longer than five octets can tell: {:?}", n, r);
    ensure!(out == b"kept", "a string of {} octets was rejected but {} octets were emitted", n, out.len() as isize - 4);
    let r = sut("Encoder::encode_indexed", || e.encode_indexed(62, &mut out).is_ok())?;
    ensure!(!r, "a rejected string of {} octets was inserted", n);
    c.count("strings beyond 31 bits rejected", 1);
    Ok(())
}
/// Every number of entries: the oldest is valid, the index behind it is not.
/// An index refused, and used after every number of insertions (or refused again after
/// as many operations that insert nothing).
fn h11_distance(c: &mut Case) -> R {
    for n in distances(c) {
        for how in 0..4 {
            let max = DISTANT[how];
            let mut e = Enc::new(max)?;
            let mut m = RefTable::new(max as u64);
            let ops = between(&mut c.rng, how, n, max as u64);
            let last = {
                let mut t = m.clone();
                ops.iter().for_each(|o| {
                    apply(&mut t, o);
                });
                t.len() as u32
            };
            let mut out = vec![];
            for round in 0..2 {
                for i in [last, last + 1, 62, 61 + n as u32, 62 + n as u32, u32::MAX, 0, 61, 1] {
                    for o in [Op::Idx(i), Op::IdxName(i, b"v".to_vec(), [0, 8][n % 2])] {
                        out.clear();
                        let r = e.call(&o, round == 0, &mut out)?;
                        if i >= 1 && i as u64 <= m.len() {
                            ensure!(r.is_ok(), "{}, {} with {} entries: {:?}", apart(n, how), show_op(&o), m.len(), r);
                            check_emitted(&m, &o, &out).map_err(|e| Fail(format!("{}, {}: {}", apart(n, how), show_op(&o), e)))?;
                            c.count("valid indexes accepted", 1);
                        } else {
                            ensure!(r == Err("InvalidIndex".into()) && out.is_empty(), "{}, {} with {} entries: {:?}, output {}", apart(n, how), show_op(&o), m.len(), r, hex(&out));
                            c.count("invalid indexes rejected", 1);
                        }
                    }
                }
                if round == 0 {
                    for op in &ops {
                        out.clear();
                        e.must(op, true, &mut out)?;
                        apply(&mut m, op);
                    }
                }
            }
            c.count("distances swept", 1);
            c.distinct(mix(n as u64 ^ (how as u64) << 33 ^ 1 << 46));
        }
    }
    Ok(())
}
fn h11_counts(c: &mut Case) -> R {
    let all = lengths_to(c, 20_000, 1 << 17);
    let Some(&most) = all.iter().max() else { return Ok(()) };
    let mut e = Enc::new(u32::MAX)?;
    let mut m = RefTable::new(u32::MAX as u64);
    let mut out = vec![];
    let mut left: Vec<usize> = all;
    left.sort();
    let mut left = left.into_iter().peekable();
    for k in 0..=most {
        if left.next_if_eq(&k).is_some() {
            let n = 61 + k as u32;
            for (i, ok) in [(n, true), (n + 1, false), (n + 2, false), (62 + c.rng.us(k.max(1)) as u32, k > 0)] {
                for o in [Op::Idx(i), Op::IdxName(i, vec![1], 0), Op::IdxName(i, vec![2], 4)] {
                    if ok && matches!(&o, Op::IdxName(_, _, 4)) {
                        continue;
                    }
                    out.clear();
                    let r = e.call(&o, i % 2 == 0, &mut out)?;
                    if ok {
                        ensure!(r.is_ok(), "{} with {} entries: {:?}", show_op(&o), k, r);
                        crate::gen::check_emitted(&m, &o, &out).map_err(|e| Fail(format!("{} entries: {}", k, e)))?;
                        c.count("valid indexes accepted", 1);
                    } else {
                        ensure!(r == Err("InvalidIndex".into()) && out.is_empty(), "{} with {} entries: {:?}, output {}", show_op(&o), k, r, hex(&out));
                        c.count("invalid indexes rejected", 1);
                    }
                }
            }
            c.count("entry counts swept", 1);
            c.distinct(mix(k as u64 ^ 1 << 44));
        }
        let o = Op::Lit(vec![b'k', k as u8], vec![(k >> 8) as u8, (k >> 16) as u8], 4);
        out.clear();
        e.must(&o, true, &mut out)?;
        apply(&mut m, &o);
    }
    Ok(())
}
pub fn h11() -> Prop {
    Prop {
        id: "H11",
        rule: "A case is one operation history on two encoders, one of which also receives invalid calls (index 0, just past the end, far, huge; oversized size updates) in between; every rejection, the untouched output, and byte equality of all later outputs are checked, then every valid index. Distinct by operations.",
        stages: vec![st("twins", 30_000, 800_000, h11_small), st("long", 60, 2_000, h11_long), st("lifetime", 1, 12, h11_life), st("deep", 200, 6_000, h11_deep), ex("sweep", 402, 402, h11_sweep), st("sizes", 100, 4_000, h11_sizes), ex("giant", 3, 6, h11_giant), ex("beyond 32 bits", 1, 3, h11_beyond), ex("every count", SHARES[0], SHARES[1], h11_counts), ex("every distance", SHARES[0], SHARES[1], h11_distance)],
        floors: vec![("invalid indexes rejected", 50_000), ("oversized updates rejected", 5_000), ("twin outputs compared", 50_000), ("valid indexes accepted", 50_000), ("entry counts swept", 12_000)],
    }
}
