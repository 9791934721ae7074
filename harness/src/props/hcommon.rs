//! Guarded access to the HPACK crate, and probes of its private tables.

use crate::gen::{hash_op, Op};
use crate::refhpack::*;
use crate::rt::*;
use crate::{ensure, fail};
use httlib_hpack as hp;

pub type Hdr = (Vec<u8>, Vec<u8>, u8);

pub struct Enc {
    pub e: hp::Encoder<'static>,
    calls: u32,
}
pub struct Dec {
    pub d: hp::Decoder<'static>,
    calls: u32,
}

/// Ok(octets) or the set bit of the reported error.
pub type DRes = Result<usize, (u8, String)>;

/// What a connection may have left in its output.
fn long_output(pick: u64) -> &'static [u8] {
    static OLD: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
    let all = OLD.get_or_init(|| (0..(1 << 20) + 9u32).map(|i| (i.wrapping_mul(2_654_435_761) >> 24) as u8).collect());
    let n = [255usize, 256, 1000, 4096, 16_384, 32_767, 65_534, 65_535, 65_536, 65_537, 70_000, 131_072, (1 << 20) + 9];
    &all[..n[pick as usize % if cfg!(miri) { 5 } else { n.len() }]]
}

impl Enc {
    pub fn new(max: u32) -> R<Enc> {
        Ok(Enc { e: sut("Encoder::with_dynamic_size", || if max == 4096 { hp::Encoder::default() } else { hp::Encoder::with_dynamic_size(max) })?, calls: 0 })
    }
    /// `direct` selects the per-representation methods where they exist.
    pub fn call(&mut self, op: &Op, direct: bool, out: &mut Vec<u8>) -> R<Result<(), String>> {
        // Callers write flags as the documented octets or by the constants' names.
        self.calls = self.calls.wrapping_add(1);
        let by_name = self.calls % 3 == 0;
        let best = matches!(op, Op::Lit(_, _, f) if f & 0x10 != 0);
        let e = &mut self.e;
        // and often have something in the output already
        let old: &[u8] = if out.is_empty() && self.calls % 4 == 1 { &[0x3f, 0xe1, 0x1f, 0x82, 0x00, 0xff, 0x40][..1 + self.calls as usize / 4 % 7] } else { &[] };
        let size = match op {
            Op::Lit(n, v, _) => n.len() + v.len(),
            Op::IdxName(_, v, _) => v.len(),
            _ => 0,
        };
        let h = if size > 5000 { 1 } else { hash_op(self.calls as u64, op) };
        let old = if out.is_empty() && h % 499 == 0 { long_output(h / 499) } else { old };
        out.extend_from_slice(old);
        let mut op = op.clone();
        if let (true, Op::IdxName(_, _, f) | Op::Lit(_, _, f)) = (by_name, &mut op) {
            *f = named_flags(*f);
        }
        let r = sut("Encoder::encode*", || match op {
            Op::Size(s) => e.update_max_dynamic_size(s, out),
            Op::Idx(i) => {
                if direct {
                    e.encode_indexed(i, out)
                } else {
                    e.encode(i, out)
                }
            }
            Op::IdxName(i, v, f) => {
                if direct {
                    e.encode_indexed_name(i, v, f, out)
                } else {
                    e.encode((i, v, f), out)
                }
            }
            Op::Lit(n, v, f) => {
                if direct && !best {
                    e.encode_literal(n, v, f, out)
                } else {
                    e.encode((n, v, f), out)
                }
            }
        })?;
        if !old.is_empty() {
            ensure!(out.starts_with(old), "the encoder changed what was in the output before: {} ({} octets) instead of {} ({})", hex(&out[..out.len().min(old.len())]), out.len(), hex(old), old.len());
            out.drain(..old.len());
        }
        Ok(r.map_err(|e| format!("{:?}", e)))
    }
    pub fn max(&mut self) -> R<u32> {
        let e = &mut self.e;
        sut("Encoder::max_dynamic_size", || e.max_dynamic_size())
    }
    pub fn must(&mut self, op: &Op, direct: bool, out: &mut Vec<u8>) -> R {
        match self.call(op, direct, out)? {
            Ok(()) => Ok(()),
            Err(e) => fail!("encoder rejected {} with {}", crate::gen::show_op(op), e),
        }
    }
    /// Insert entries one by one.
    pub fn fill(&mut self, m: &mut RefTable, fill: &[Pair]) -> R {
        let mut junk = Vec::new();
        for (n, v) in fill {
            junk.clear();
            self.must(&Op::Lit(n.clone(), v.clone(), 4), true, &mut junk)?;
            m.insert(n, v);
        }
        Ok(())
    }
    /// Compare the private table with the model through the public API: which indexes
    /// are accepted, and which pairs the best-format search finds. Does not modify the
    /// encoder if unindexed literals leave no trace.
    pub fn probe(&mut self, m: &RefTable, ctx: &str) -> R {
        let mut junk = Vec::new();
        let n = m.len();
        let lo = if n > 61 + 600 { n - 300 } else { 61 };
        for i in lo..=n + 2 {
            junk.clear();
            let r = self.call(&Op::Idx(i as u32), true, &mut junk)?;
            if i <= n {
                ensure!(r.is_ok(), "{}: the encoder's table lacks index {} (the model has {} entries)", ctx, i, n);
            } else {
                ensure!(r.is_err(), "{}: the encoder accepts index {} but its table should end at {}", ctx, i, n);
            }
        }
        let step = 1 + m.dynamic.len() / 64;
        for (k, (name, value)) in m.dynamic.iter().enumerate().step_by(step) {
            junk.clear();
            self.must(&Op::Lit(name.clone(), value.clone(), 0x10), false, &mut junk)?;
            crate::gen::check_emitted(m, &Op::Lit(name.clone(), value.clone(), 0x10), &junk).map_err(|e| Fail(format!("{}: encoder table differs from the model at dynamic position {} {}/{}: {}", ctx, k + 62, show(name), show(value), e)))?;
        }
        Ok(())
    }
}

impl Enc {
    /// As `Dec::pressure`, for the encoder's table.
    pub fn pressure(&mut self, r: &mut crate::rng::Rng, t: &RefTable, ctx: &str) -> R {
        let mut t = t.clone();
        let mut junk = vec![];
        if t.max > 1500 {
            if t.size > 200 && t.size < 1 << 24 {
                let s = t.size - r.range(1, 80);
                t.set_max(s);
                self.must(&Op::Size(s as u32), true, &mut junk)?;
                self.probe(&t, &format!("{}, and after announcing {}", ctx, s))?;
            }
            return Ok(());
        }
        let mut pushed = 0;
        let mut k = 0u8;
        while pushed <= t.max {
            for _ in 0..r.range(1, 4) {
                let e = (vec![b'p', k], vec![b'q'; r.us(40)]);
                k = k.wrapping_add(1);
                junk.clear();
                self.must(&Op::Lit(e.0.clone(), e.1.clone(), 4), true, &mut junk)?;
                t.insert(&e.0, &e.1);
                pushed += 34 + e.1.len() as u64;
            }
            self.probe(&t, &format!("{}, and {} octets inserted since", ctx, pushed))?;
        }
        Ok(())
    }
}

impl Dec {
    pub fn new(max: u32) -> R<Dec> {
        Ok(Dec { d: sut("Decoder::with_dynamic_size", || if max == 4096 { hp::Decoder::default() } else { hp::Decoder::with_dynamic_size(max) })?, calls: 0 })
    }
    pub fn decode(&mut self, buf: &mut Vec<u8>, dst: &mut Vec<Hdr>) -> R<DRes> {
        // Callers collect the headers of several blocks in one vector, with or without
        // room to spare: half of the calls given an empty vector are made that way.
        self.calls = self.calls.wrapping_add(1);
        let k = self.calls as usize;
        let old = if dst.is_empty() && k % 4 == 1 { [1, 2, 3, 7, 16, 40, 300][k / 4 % 7] } else { 0 };
        dst.extend((0..old).map(|i| (vec![b'o', i as u8], vec![b'k'; i % 3], 0x77)));
        if k % 4 > 1 {
            dst.reserve_exact([1, 2, 5, 33][k / 4 % 4]);
        }
        let d = &mut self.d;
        let r = sut("Decoder::decode", || d.decode(buf, dst))?;
        if old > 0 {
            ensure!(dst.len() >= old, "decode removed {} headers that were in the output before", old - dst.len());
            for (i, h) in dst.drain(..old).enumerate() {
                ensure!(h.0 == [b'o', i as u8] && h.1.len() == i % 3 && h.1.iter().all(|&b| b == b'k') && h.2 == 0x77, "decode changed header {} of {} that were in the output before into {}", i, old, show_hdr(&h));
            }
        }
        Ok(cvt(r))
    }
    pub fn decode_exact(&mut self, buf: &mut Vec<u8>, dst: &mut Vec<Hdr>) -> R<DRes> {
        let d = &mut self.d;
        let r = sut("Decoder::decode_exact", || d.decode_exact(buf, dst))?;
        Ok(cvt(r))
    }
    pub fn max(&mut self) -> R<u32> {
        let d = &mut self.d;
        sut("Decoder::max_dynamic_size", || d.max_dynamic_size())
    }
    pub fn set_max(&mut self, v: u32) -> R {
        let d = &mut self.d;
        sut("Decoder::set_max_dynamic_size", || d.set_max_dynamic_size(v))
    }
    /// Insert entries by literals with indexing, in blocks of at most 64. Does not touch a model.
    pub fn fill(&mut self, fill: &[Pair]) -> R {
        for part in fill.chunks(64) {
            let mut block = Vec::new();
            for (n, v) in part {
                block.push(0x40);
                put_str(&mut block, n, false, 0);
                put_str(&mut block, v, false, 0);
            }
            let mut got = Vec::new();
            let r = self.decode(&mut block, &mut got)?;
            ensure!(r.is_ok() && got.len() == part.len(), "filling the table: {:?} after {} of {} literals", r, got.len(), part.len());
            for (g, w) in got.iter().zip(part) {
                ensure!(g.0 == w.0 && g.1 == w.1, "filling the table: {} instead of {}/{}", show_hdr(g), show(&w.0), show(&w.1));
            }
        }
        Ok(())
    }
    /// What a table believes about its own size and limit only shows when it evicts:
    /// insert until everything present now has been pushed out, comparing on the way.
    /// Large tables are shrunk by a size update instead.
    pub fn pressure(&mut self, r: &mut crate::rng::Rng, t: &RefTable, limit: u64, ctx: &str) -> R {
        let mut t = t.clone();
        if t.max > 1500 {
            if t.size > 200 && t.size <= limit.min(1 << 24) {
                let s = t.size - r.range(1, 80);
                let mut block = vec![];
                put_int(&mut block, 0x20, 5, s, 0);
                t.set_max(s);
                let res = self.decode(&mut block, &mut vec![])?;
                ensure!(res.is_ok(), "{}: a later size update to {} is rejected: {:?}", ctx, s, res);
                self.probe(&t, &format!("{}, and after a size update to {}", ctx, s))?;
            }
            return Ok(());
        }
        let mut pushed = 0;
        let mut k = 0u8;
        while pushed <= t.max {
            let mut block = vec![];
            for _ in 0..r.range(1, 4) {
                let e = (vec![b'p', k], vec![b'q'; r.us(40)]);
                k = k.wrapping_add(1);
                block.push(0x40);
                put_str(&mut block, &e.0, false, 0);
                put_str(&mut block, &e.1, false, 0);
                t.insert(&e.0, &e.1);
                pushed += 34 + e.1.len() as u64;
            }
            let mut got = vec![];
            let res = self.decode(&mut block, &mut got)?;
            ensure!(res.is_ok(), "{}: later insertions are rejected: {:?}", ctx, res);
            self.probe(&t, &format!("{}, and {} octets inserted since", ctx, pushed))?;
        }
        Ok(())
    }
    /// Compare the private table with the model: one indexed field per dynamic entry
    /// (these do not modify anything), then one index past the end.
    pub fn probe(&mut self, m: &RefTable, ctx: &str) -> R {
        let n = m.len();
        let step = 1 + (n - 61) / 600;
        let mut idx: Vec<u64> = (61..=n).step_by(step as usize).collect();
        if *idx.last().unwrap() != n {
            idx.push(n);
        }
        let mut buf = Vec::new();
        for &i in &idx {
            put_int(&mut buf, 0x80, 7, i, 0);
        }
        let mut dst = Vec::new();
        let r = self.decode(&mut buf, &mut dst)?;
        ensure!(r.is_ok(), "{}: decoder cannot resolve the {} entries it should hold: {:?} after {} of them", ctx, n - 61, r, dst.len());
        ensure!(dst.len() == idx.len(), "{}: probing {} indexes returned {} headers", ctx, idx.len(), dst.len());
        for (k, &i) in idx.iter().enumerate() {
            let w = m.get(i).unwrap();
            ensure!(dst[k].0 == w.0 && dst[k].1 == w.1, "{}: decoder table index {} holds {}/{} but should hold {}/{}", ctx, i, show(&dst[k].0), show(&dst[k].1), show(w.0), show(w.1));
        }
        for past in [n + 1, n + 2] {
            buf.clear();
            dst.clear();
            put_int(&mut buf, 0x80, 7, past, 0);
            let r = self.decode(&mut buf, &mut dst)?;
            ensure!(matches!(&r, Err((F_INDEX, _))), "{}: decoder table should end at {} but index {} gives {:?} {:?}", ctx, n, past, r, dst.first());
        }
        Ok(())
    }
}

/// The same flags spelled with the encoder's public constants.
fn named_flags(f: u8) -> u8 {
    type E = hp::Encoder<'static>;
    [(1, E::HUFFMAN_NAME), (2, E::HUFFMAN_VALUE), (4, E::WITH_INDEXING), (8, E::NEVER_INDEXED), (16, E::BEST_FORMAT)].iter().fold(f & !0x1f, |a, (bit, c)| if f & bit != 0 { a | c } else { a })
}

/// The marks of a returned header as a user of the decoder's public constants sees them.
fn named_marks(f: u8) -> u8 {
    type D = hp::Decoder<'static>;
    let has = |c: u8, bit: u8| if f & c == c { bit } else { 0 };
    has(D::WITH_INDEXING, 4) | has(D::NEVER_INDEXED, 8)
}

fn cvt<E: std::fmt::Debug>(r: Result<usize, E>) -> DRes {
    r.map_err(|e| {
        let s = format!("{:?}", e);
        (fault_of(&s), s)
    })
}

pub fn show_hdr(h: &Hdr) -> String {
    format!("{}: {} [{:#x}]", show(&h.0), show(&h.1), h.2)
}

pub fn same_headers(got: &[Hdr], want: &[Hdr], ctx: &str) -> R {
    for (k, w) in want.iter().enumerate() {
        match got.get(k) {
            None => fail!("{}: header {} of {} missing: {}", ctx, k, want.len(), show_hdr(w)),
            Some(g) if g != w => fail!("{}: header {} is {} but should be {}", ctx, k, show_hdr(g), show_hdr(w)),
            Some(g) => ensure!(named_marks(g.2) == w.2, "{}: header {} is {}: tested with the decoder's constants its marks are {:#x} instead of {:#x}", ctx, k, show_hdr(g), named_marks(g.2), w.2),
        }
    }
    ensure!(got.len() == want.len(), "{}: {} headers returned instead of {}: extra {}", ctx, got.len(), want.len(), show_hdr(&got[want.len()]));
    Ok(())
}
