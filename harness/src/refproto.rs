//! Reference proto3 wire format: canonical encoding of every field kind, a stream
//! parser, and typed interpretation of raw values. Shares nothing with the code under test.

use crate::gen::content;
use crate::rng::Rng;
use crate::rt::*;
use crate::{ensure, fail};
use httlib_protos as pb;
use pb::{DecoderLit as DL, EncoderLit as EL, Typ};
use std::io::Write;

pub fn varint(mut v: u64) -> Vec<u8> {
    let mut o = vec![];
    while v >= 128 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
    o
}
/// The same value with redundant continuation octets, up to `total` octets (at most ten).
pub fn padded(v: u64, total: usize) -> Vec<u8> {
    let mut o = varint(v);
    let total = total.min(10);
    if o.len() < total {
        let k = o.len() - 1;
        o[k] |= 128;
        while o.len() < total - 1 {
            o.push(128);
        }
        o.push(0);
    }
    o
}
pub fn key(tag: u32, wire: u32) -> u64 {
    (tag as u64) << 3 | wire as u64
}
pub fn zigzag(v: i64) -> u64 {
    ((v as u64) << 1) ^ if v < 0 { u64::MAX } else { 0 }
}
pub fn unzigzag(u: u64) -> i64 {
    ((u >> 1) as i64) ^ -((u & 1) as i64)
}

pub fn wire_no(t: Typ) -> Option<u32> {
    match t {
        Typ::Varint => Some(0),
        Typ::Bit64 => Some(1),
        Typ::LengthDelimited => Some(2),
        Typ::Bit32 => Some(5),
        Typ::Unknown => None,
    }
}

/// A field value of one of the 27 kinds the library offers.
#[derive(Clone, Debug)]
pub enum Val {
    Bytes(Vec<u8>),
    Bool(bool),
    BoolVec(Vec<bool>),
    Int32(i32),
    Int32Vec(Vec<i32>),
    Int64(i64),
    Int64Vec(Vec<i64>),
    UInt32(u32),
    UInt32Vec(Vec<u32>),
    UInt64(u64),
    UInt64Vec(Vec<u64>),
    Float(f32),
    FloatVec(Vec<f32>),
    Double(f64),
    DoubleVec(Vec<f64>),
    SInt32(i32),
    SInt32Vec(Vec<i32>),
    SInt64(i64),
    SInt64Vec(Vec<i64>),
    Fixed32(u32),
    Fixed32Vec(Vec<u32>),
    Fixed64(u64),
    Fixed64Vec(Vec<u64>),
    SFixed32(i32),
    SFixed32Vec(Vec<i32>),
    SFixed64(i64),
    SFixed64Vec(Vec<i64>),
}
use Val::*;
pub const KINDS: u64 = 27;

fn v32(r: &mut Rng) -> u32 {
    match r.below(3) {
        0 => r.spread64() as u32,
        1 => *r.pick(&[0, 1, 0x7f, 0x80, 0x3fff, 0x4000, 0x1fffff, 0x200000, 0x0fffffff, 0x10000000, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0x80000001, 0xffff8000]),
        _ => r.u32() >> r.below(32),
    }
}
fn v64(r: &mut Rng) -> u64 {
    let v = r.spread64();
    if r.chance(1, 4) {
        (v as i64).wrapping_neg() as u64
    } else {
        v
    }
}
fn f32v(r: &mut Rng) -> f32 {
    f32::from_bits(match r.below(4) {
        0 => *r.pick(&[0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc12345, 0x7fffffff, 1, 0x80000001, 0x007fffff, 0x3f800000, 0x7f7fffff]),
        1 => 0x7f800000 | r.u32(),
        _ => r.u32(),
    })
}
fn f64v(r: &mut Rng) -> f64 {
    f64::from_bits(match r.below(4) {
        0 => *r.pick(&[0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0xfff8123456789abc, u64::MAX, 1, 0x3ff0000000000000, 0x7fefffffffffffff]),
        1 => 0x7ff0000000000000 | r.u64(),
        _ => r.u64(),
    })
}
thread_local! {
    static FORCED: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) };
}
fn count(r: &mut Rng) -> usize {
    if let Some(n) = FORCED.with(|f| f.get()) {
        return n;
    }
    match r.below(12) {
        0..=1 => 0,
        2..=3 => 1,
        4..=8 => r.us(9),
        9..=10 => r.us(60),
        _ => *r.pick(&[12, 13, 15, 16, 17, 31, 32, 33, 63, 64, 126, 127, 128, 129, 255, 256, 400]),
    }
}
/// Payload sizes around every boundary of the length varint.
pub fn payload_len(r: &mut Rng) -> usize {
    if let Some(n) = FORCED.with(|f| f.get()) {
        return n;
    }
    match r.below(12) {
        0..=6 => r.us(20),
        7..=8 => *r.pick(&[0, 1, 126, 127, 128, 129, 130, 255, 256]),
        9 => *r.pick(&[16382, 16383, 16384, 16385]),
        _ => r.us(400),
    }
}

macro_rules! each {
    ($r:expr, $f:expr) => {{
        let n = count($r);
        (0..n).map(|_| $f($r)).collect()
    }};
}

impl Val {
    pub fn random(r: &mut Rng) -> Val {
        let k = r.below(KINDS);
        Val::of_kind(k, r)
    }
    /// A value of the kind; lists get exactly `n` elements, bytes exactly `n` octets.
    pub fn sized(k: u64, n: usize, r: &mut Rng) -> Val {
        FORCED.with(|f| f.set(Some(n)));
        let v = Val::of_kind(k, r);
        FORCED.with(|f| f.set(None));
        v
    }
    pub fn of_kind(k: u64, r: &mut Rng) -> Val {
        match k {
            0 => {
                let n = payload_len(r);
                Bytes(content(r, n))
            }
            1 => Bool(r.bool()),
            2 => BoolVec(each!(r, |r: &mut Rng| r.bool())),
            3 => Int32(v32(r) as i32),
            4 => Int32Vec(each!(r, |r: &mut Rng| v32(r) as i32)),
            5 => Int64(v64(r) as i64),
            6 => Int64Vec(each!(r, |r: &mut Rng| v64(r) as i64)),
            7 => UInt32(v32(r)),
            8 => UInt32Vec(each!(r, v32)),
            9 => UInt64(v64(r)),
            10 => UInt64Vec(each!(r, v64)),
            11 => Float(f32v(r)),
            12 => FloatVec(each!(r, f32v)),
            13 => Double(f64v(r)),
            14 => DoubleVec(each!(r, f64v)),
            15 => SInt32(v32(r) as i32),
            16 => SInt32Vec(each!(r, |r: &mut Rng| v32(r) as i32)),
            17 => SInt64(v64(r) as i64),
            18 => SInt64Vec(each!(r, |r: &mut Rng| v64(r) as i64)),
            19 => Fixed32(v32(r)),
            20 => Fixed32Vec(each!(r, v32)),
            21 => Fixed64(v64(r)),
            22 => Fixed64Vec(each!(r, v64)),
            23 => SFixed32(v32(r) as i32),
            24 => SFixed32Vec(each!(r, |r: &mut Rng| v32(r) as i32)),
            25 => SFixed64(v64(r) as i64),
            _ => SFixed64Vec(each!(r, |r: &mut Rng| v64(r) as i64)),
        }
    }
    /// Wire type of the field.
    pub fn wire(&self) -> u32 {
        match self {
            Bool(_) | Int32(_) | Int64(_) | UInt32(_) | UInt64(_) | SInt32(_) | SInt64(_) => 0,
            Double(_) | Fixed64(_) | SFixed64(_) => 1,
            Float(_) | Fixed32(_) | SFixed32(_) => 5,
            _ => 2,
        }
    }
    /// The value bytes (for wire type 2: the payload without its length).
    pub fn raw(&self) -> Vec<u8> {
        fn cat<T, F: Fn(&T) -> Vec<u8>>(v: &[T], f: F) -> Vec<u8> {
            v.iter().flat_map(f).collect()
        }
        match self {
            Bytes(v) => v.clone(),
            Bool(v) => vec![*v as u8],
            BoolVec(v) => cat(v, |x| vec![*x as u8]),
            Int32(v) => varint(*v as i64 as u64),
            Int32Vec(v) => cat(v, |x| varint(*x as i64 as u64)),
            Int64(v) => varint(*v as u64),
            Int64Vec(v) => cat(v, |x| varint(*x as u64)),
            UInt32(v) => varint(*v as u64),
            UInt32Vec(v) => cat(v, |x| varint(*x as u64)),
            UInt64(v) => varint(*v),
            UInt64Vec(v) => cat(v, |x| varint(*x)),
            Float(v) => v.to_bits().to_le_bytes().to_vec(),
            FloatVec(v) => cat(v, |x| x.to_bits().to_le_bytes().to_vec()),
            Double(v) => v.to_bits().to_le_bytes().to_vec(),
            DoubleVec(v) => cat(v, |x| x.to_bits().to_le_bytes().to_vec()),
            SInt32(v) => varint(zigzag(*v as i64)),
            SInt32Vec(v) => cat(v, |x| varint(zigzag(*x as i64))),
            SInt64(v) => varint(zigzag(*v)),
            SInt64Vec(v) => cat(v, |x| varint(zigzag(*x))),
            Fixed32(v) => v.to_le_bytes().to_vec(),
            Fixed32Vec(v) => cat(v, |x| x.to_le_bytes().to_vec()),
            Fixed64(v) => v.to_le_bytes().to_vec(),
            Fixed64Vec(v) => cat(v, |x| x.to_le_bytes().to_vec()),
            SFixed32(v) => v.to_le_bytes().to_vec(),
            SFixed32Vec(v) => cat(v, |x| x.to_le_bytes().to_vec()),
            SFixed64(v) => v.to_le_bytes().to_vec(),
            SFixed64Vec(v) => cat(v, |x| x.to_le_bytes().to_vec()),
        }
    }
    pub fn canonical(&self, tag: u32) -> Vec<u8> {
        let mut o = varint(key(tag, self.wire()));
        let raw = self.raw();
        if self.wire() == 2 {
            o.extend(varint(raw.len() as u64));
        }
        o.extend(raw);
        o
    }
    pub fn lit(&self) -> EL<'_> {
        match self {
            Bytes(v) => EL::Bytes(v),
            Bool(v) => EL::Bool(v),
            BoolVec(v) => EL::BoolVec(v),
            Int32(v) => EL::Int32(v),
            Int32Vec(v) => EL::Int32Vec(v),
            Int64(v) => EL::Int64(v),
            Int64Vec(v) => EL::Int64Vec(v),
            UInt32(v) => EL::UInt32(v),
            UInt32Vec(v) => EL::UInt32Vec(v),
            UInt64(v) => EL::UInt64(v),
            UInt64Vec(v) => EL::UInt64Vec(v),
            Float(v) => EL::Float(v),
            FloatVec(v) => EL::FloatVec(v),
            Double(v) => EL::Double(v),
            DoubleVec(v) => EL::DoubleVec(v),
            SInt32(v) => EL::SInt32(v),
            SInt32Vec(v) => EL::SInt32Vec(v),
            SInt64(v) => EL::SInt64(v),
            SInt64Vec(v) => EL::SInt64Vec(v),
            Fixed32(v) => EL::Fixed32(v),
            Fixed32Vec(v) => EL::Fixed32Vec(v),
            Fixed64(v) => EL::Fixed64(v),
            Fixed64Vec(v) => EL::Fixed64Vec(v),
            SFixed32(v) => EL::SFixed32(v),
            SFixed32Vec(v) => EL::SFixed32Vec(v),
            SFixed64(v) => EL::SFixed64(v),
            SFixed64Vec(v) => EL::SFixed64Vec(v),
        }
    }
    /// Encode through the real library, with the encoder this thread uses throughout a
    /// case (also after failed calls). `form` 0: generic call; 1: per-kind call;
    /// 2: generic call through the plain reference conversion, where the kind has one.
    pub fn put(&self, form: u64, tag: u32, w: &mut dyn Write) -> R<Result<usize, String>> {
        let guard = shared_encoder();
        let e = &*guard;
        let t = &tag;
        let r = sut("protos Encoder", || match form {
            0 => e.encode((t, self.lit()), w),
            1 => match self {
                Bytes(v) => e.encode_bytes(t, v, w),
                Bool(v) => e.encode_bool(t, v, w),
                BoolVec(v) => e.encode_bool_vec(t, v, w),
                Int32(v) => e.encode_int32(t, v, w),
                Int32Vec(v) => e.encode_int32_vec(t, v, w),
                Int64(v) => e.encode_int64(t, v, w),
                Int64Vec(v) => e.encode_int64_vec(t, v, w),
                UInt32(v) => e.encode_uint32(t, v, w),
                UInt32Vec(v) => e.encode_uint32_vec(t, v, w),
                UInt64(v) => e.encode_uint64(t, v, w),
                UInt64Vec(v) => e.encode_uint64_vec(t, v, w),
                Float(v) => e.encode_float(t, v, w),
                FloatVec(v) => e.encode_float_vec(t, v, w),
                Double(v) => e.encode_double(t, v, w),
                DoubleVec(v) => e.encode_double_vec(t, v, w),
                SInt32(v) => e.encode_sint32(t, v, w),
                SInt32Vec(v) => e.encode_sint32_vec(t, v, w),
                SInt64(v) => e.encode_sint64(t, v, w),
                SInt64Vec(v) => e.encode_sint64_vec(t, v, w),
                Fixed32(v) => e.encode_fixed32(t, v, w),
                Fixed32Vec(v) => e.encode_fixed32_vec(t, v, w),
                Fixed64(v) => e.encode_fixed64(t, v, w),
                Fixed64Vec(v) => e.encode_fixed64_vec(t, v, w),
                SFixed32(v) => e.encode_sfixed32(t, v, w),
                SFixed32Vec(v) => e.encode_sfixed32_vec(t, v, w),
                SFixed64(v) => e.encode_sfixed64(t, v, w),
                SFixed64Vec(v) => e.encode_sfixed64_vec(t, v, w),
            },
            _ => match self {
                Bytes(v) => e.encode((t, v), w),
                Bool(v) => e.encode((t, v), w),
                BoolVec(v) => e.encode((t, v), w),
                Int32(v) => e.encode((t, v), w),
                Int32Vec(v) => e.encode((t, v), w),
                Int64(v) => e.encode((t, v), w),
                Int64Vec(v) => e.encode((t, v), w),
                UInt32(v) => e.encode((t, v), w),
                UInt32Vec(v) => e.encode((t, v), w),
                UInt64(v) => e.encode((t, v), w),
                UInt64Vec(v) => e.encode((t, v), w),
                Float(v) => e.encode((t, v), w),
                FloatVec(v) => e.encode((t, v), w),
                Double(v) => e.encode((t, v), w),
                DoubleVec(v) => e.encode((t, v), w),
                _ => e.encode((t, self.lit()), w),
            },
        })?;
        Ok(r.map_err(|e| format!("{:?}", e)))
    }
    /// Convert raw bytes as this value's kind with the real library; bit-identical?
    pub fn same_when_read(&self, raw: Vec<u8>) -> R<bool> {
        macro_rules! rd {
            ($t:ty, $k:ident) => {
                sut("protos DecoderLit conversion", || <$t>::from(DL::$k(raw)))?
            };
        }
        Ok(match self {
            Bytes(v) => {
                let s = raw.clone();
                let as_str = sut("String::from(DecoderLit)", || String::from(DL::Bytes(s)))?;
                let want = String::from_utf8(v.clone()).unwrap_or_default();
                rd!(Vec<u8>, Bytes) == *v && as_str == want
            }
            Bool(v) => rd!(bool, Bool) == *v,
            BoolVec(v) => rd!(Vec<bool>, BoolVec) == *v,
            Int32(v) => rd!(i32, Int32) == *v,
            Int32Vec(v) => rd!(Vec<i32>, Int32Vec) == *v,
            Int64(v) => rd!(i64, Int64) == *v,
            Int64Vec(v) => rd!(Vec<i64>, Int64Vec) == *v,
            UInt32(v) => rd!(u32, UInt32) == *v,
            UInt32Vec(v) => rd!(Vec<u32>, UInt32Vec) == *v,
            UInt64(v) => rd!(u64, UInt64) == *v,
            UInt64Vec(v) => rd!(Vec<u64>, UInt64Vec) == *v,
            Float(v) => rd!(f32, Float).to_bits() == v.to_bits(),
            FloatVec(v) => rd!(Vec<f32>, FloatVec).iter().map(|x| x.to_bits()).eq(v.iter().map(|x| x.to_bits())),
            Double(v) => rd!(f64, Double).to_bits() == v.to_bits(),
            DoubleVec(v) => rd!(Vec<f64>, DoubleVec).iter().map(|x| x.to_bits()).eq(v.iter().map(|x| x.to_bits())),
            SInt32(v) => rd!(i32, SInt32) == *v,
            SInt32Vec(v) => rd!(Vec<i32>, SInt32Vec) == *v,
            SInt64(v) => rd!(i64, SInt64) == *v,
            SInt64Vec(v) => rd!(Vec<i64>, SInt64Vec) == *v,
            Fixed32(v) => rd!(u32, Fixed32) == *v,
            Fixed32Vec(v) => rd!(Vec<u32>, Fixed32Vec) == *v,
            Fixed64(v) => rd!(u64, Fixed64) == *v,
            Fixed64Vec(v) => rd!(Vec<u64>, Fixed64Vec) == *v,
            SFixed32(v) => rd!(i32, SFixed32) == *v,
            SFixed32Vec(v) => rd!(Vec<i32>, SFixed32Vec) == *v,
            SFixed64(v) => rd!(i64, SFixed64) == *v,
            SFixed64Vec(v) => rd!(Vec<i64>, SFixed64Vec) == *v,
        })
    }
    /// The default value of this kind, for data that cannot be read as it.
    pub fn default_of(&self) -> Val {
        match self {
            Bytes(_) => Bytes(vec![]),
            Bool(_) => Bool(false),
            BoolVec(_) => BoolVec(vec![]),
            Int32(_) => Int32(0),
            Int32Vec(_) => Int32Vec(vec![]),
            Int64(_) => Int64(0),
            Int64Vec(_) => Int64Vec(vec![]),
            UInt32(_) => UInt32(0),
            UInt32Vec(_) => UInt32Vec(vec![]),
            UInt64(_) => UInt64(0),
            UInt64Vec(_) => UInt64Vec(vec![]),
            Float(_) => Float(0.0),
            FloatVec(_) => FloatVec(vec![]),
            Double(_) => Double(0.0),
            DoubleVec(_) => DoubleVec(vec![]),
            SInt32(_) => SInt32(0),
            SInt32Vec(_) => SInt32Vec(vec![]),
            SInt64(_) => SInt64(0),
            SInt64Vec(_) => SInt64Vec(vec![]),
            Fixed32(_) => Fixed32(0),
            Fixed32Vec(_) => Fixed32Vec(vec![]),
            Fixed64(_) => Fixed64(0),
            Fixed64Vec(_) => Fixed64Vec(vec![]),
            SFixed32(_) => SFixed32(0),
            SFixed32Vec(_) => SFixed32Vec(vec![]),
            SFixed64(_) => SFixed64(0),
            SFixed64Vec(_) => SFixed64Vec(vec![]),
        }
    }
    pub fn is_list(&self) -> bool {
        self.wire() == 2 && !matches!(self, Bytes(_))
    }
}

/// What proto3 makes of a varint read as kind `k` (numbered as in `of_kind`, scalar kinds only).
pub fn from_varint(k: u64, u: u64) -> Val {
    match k {
        1 => Bool(u != 0),
        3 => Int32(u as i32),
        5 => Int64(u as i64),
        7 => UInt32(u as u32),
        9 => UInt64(u),
        15 => SInt32(unzigzag(u) as i32),
        _ => SInt64(unzigzag(u)),
    }
}
pub fn list_from_varints(k: u64, us: &[u64]) -> Val {
    match k {
        2 => BoolVec(us.iter().map(|&u| u != 0).collect()),
        4 => Int32Vec(us.iter().map(|&u| u as i32).collect()),
        6 => Int64Vec(us.iter().map(|&u| u as i64).collect()),
        8 => UInt32Vec(us.iter().map(|&u| u as u32).collect()),
        10 => UInt64Vec(us.to_vec()),
        16 => SInt32Vec(us.iter().map(|&u| unzigzag(u) as i32).collect()),
        _ => SInt64Vec(us.iter().map(|&u| unzigzag(u)).collect()),
    }
}

pub fn tag(r: &mut Rng) -> u32 {
    match r.below(4) {
        0 => *r.pick(&[1, 2, 15, 16, 17, 2047, 2048, 2049, 262143, 262144, 33554431, 33554432, (1 << 29) - 1, (1 << 29) - 2, 1 << 28]),
        1 => r.range(1, 20) as u32,
        2 => r.range(1, 3000) as u32,
        _ => (r.range(1, (1 << 29) - 1) >> r.below(29)).max(1) as u32,
    }
}

/// A field on the wire: tag, wire type, raw value, its bytes.
#[derive(Clone, Debug, PartialEq)]
pub struct Field {
    pub tag: u32,
    pub wire: u32,
    pub raw: Vec<u8>,
    pub bytes: Vec<u8>,
}

/// A well-formed field written by any conformant writer (padding allowed).
pub fn field(r: &mut Rng) -> Field {
    let tag = tag(r);
    let pad = |r: &mut Rng, v: u64| {
        let n = varint(v).len();
        if r.chance(1, 5) {
            padded(v, r.range(n as u64, 10) as usize)
        } else {
            varint(v)
        }
    };
    let wire = *r.pick(&[0, 0, 1, 2, 2, 2, 5]);
    let mut bytes = pad(r, key(tag, wire));
    let raw = match wire {
        0 => {
            let v = r.spread64();
            pad(r, v)
        }
        1 => r.bytes(8),
        5 => r.bytes(4),
        _ => {
            let n = payload_len(r);
            content(r, n)
        }
    };
    if wire == 2 {
        let l = pad(r, raw.len() as u64);
        bytes.extend(l);
    }
    bytes.extend(&raw);
    Field { tag, wire, raw, bytes }
}

pub fn message(r: &mut Rng, max: u64) -> Vec<Field> {
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        _ => r.range(1, max),
    };
    let mut v: Vec<Field> = vec![];
    for _ in 0..n {
        if !v.is_empty() && r.chance(1, 6) {
            let k = r.us(v.len());
            v.push(v[k].clone());
        } else {
            v.push(field(r));
        }
    }
    v
}
/// A message of many short fields, at most `bytes` bytes in all.
pub fn many(r: &mut Rng, bytes: usize) -> Vec<Field> {
    let mut v = vec![];
    let mut n = 0;
    let small = r.bool();
    loop {
        let f = if small {
            let wire = *r.pick(&[0u32, 0, 2]);
            let tag = r.range(1, 15) as u32;
            let raw = if wire == 0 { vec![r.u8() & 0x7f] } else { vec![9; r.us(2)] };
            let mut bytes = varint(key(tag, wire));
            if wire == 2 {
                bytes.push(raw.len() as u8);
            }
            bytes.extend(&raw);
            Field { tag, wire, raw, bytes }
        } else {
            let f = field(r);
            if f.bytes.len() > 60 {
                continue;
            }
            f
        };
        n += f.bytes.len();
        if n > bytes {
            return v;
        }
        v.push(f);
    }
}
pub fn wire_of(v: &[Field]) -> Vec<u8> {
    v.iter().flat_map(|f| f.bytes.iter().copied()).collect()
}

pub struct PDec {
    pub d: pb::Decoder,
    calls: u32,
}
pub type Out = Vec<(u32, Typ, Vec<u8>)>;

impl PDec {
    pub fn new() -> R<PDec> {
        Ok(PDec { d: sut("protos Decoder::default", pb::Decoder::default)?, calls: 0 })
    }
    /// One call, with the bookkeeping every call must satisfy: what it reports equals
    /// what has left the input, and the rest of the input is untouched.
    pub fn feed(&mut self, buf: &mut Vec<u8>, dst: &mut Out) -> R<Result<usize, String>> {
        let before = buf.clone();
        // an output with fields in it, or room for more, is no different from an empty one
        self.calls = self.calls.wrapping_add(1);
        let shape = (self.calls as usize + before.len()) % 8;
        let mark = |k: usize| (7 + k as u32, if k % 2 == 0 { Typ::LengthDelimited } else { Typ::Varint }, vec![0xa5; k]);
        let held = if dst.is_empty() && shape >= 4 { [1, 2, 3, 17][shape - 4] } else { 0 };
        dst.extend((0..held).map(mark));
        if shape % 2 == 1 {
            dst.reserve(shape * 3);
            buf.reserve(shape * 40);
        }
        let had = dst.len();
        let d = &mut self.d;
        let r = sut("protos Decoder::decode", || d.decode(buf, dst))?;
        ensure!(buf.len() <= before.len() && before.ends_with(buf), "decode changed the input beyond removing bytes from its front: {} became {}", hex(&before), hex(buf));
        ensure!(dst.len() >= had, "decode removed fields from the output");
        ensure!((0..held).all(|k| dst[k] == mark(k)), "decode changed a field already in the output");
        dst.drain(..held);
        if let Ok(n) = &r {
            ensure!(*n == before.len() - buf.len(), "decode reported {} bytes but removed {} of {}", n, before.len() - buf.len(), hex(&before));
        }
        Ok(r.map_err(|e| format!("{:?}", e)))
    }
}

pub fn same_fields(got: &Out, want: &[Field], ctx: &str) -> R {
    for (k, w) in want.iter().enumerate() {
        match got.get(k) {
            None => fail!("{}: field {} of {} missing (tag {}, wire type {}, {} value bytes)", ctx, k, want.len(), w.tag, w.wire, w.raw.len()),
            Some(g) => {
                ensure!(g.0 == w.tag && wire_no(g.1) == Some(w.wire), "{}: field {} has tag {} and type {:?} instead of tag {} and wire type {}", ctx, k, g.0, g.1, w.tag, w.wire);
                ensure!(g.2 == w.raw, "{}: field {} (tag {}) has value {} instead of {}", ctx, k, w.tag, hex(&g.2), hex(&w.raw));
            }
        }
    }
    ensure!(got.len() == want.len(), "{}: {} fields delivered instead of {}", ctx, got.len(), want.len());
    Ok(())
}

thread_local! {
    static ENCODER: std::cell::RefCell<std::rc::Rc<pb::Encoder>> = std::cell::RefCell::new(std::rc::Rc::new(pb::Encoder::default()));
}
fn shared_encoder() -> std::rc::Rc<pb::Encoder> {
    ENCODER.with(|e| e.borrow().clone())
}
/// Called when a case starts: cases do not depend on each other.
pub fn fresh_encoder() {
    ENCODER.with(|e| *e.borrow_mut() = std::rc::Rc::new(pb::Encoder::default()));
}
