//! Reference Huffman code of RFC 7541 Appendix B, rebuilt from its code lengths (the
//! code is canonical: within a length, codes ascend with the symbol), and a
//! bit-by-bit encoder and decoder. Shares nothing with the code under test.

use std::sync::OnceLock;

pub const LENGTHS: [u8; 257] = [
    13, 23, 28, 28, 28, 28, 28, 28, 28, 24, 30, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 30, 28, 28, 28, 28, 28, 28, 28, 28, 28, 6, 10, 10, 12, 13, 6, 8, 11, 10, 10, 8, 11, 8, 6, 6, 6, 5, 5, 5, 6, 6, 6, 6, 6, 6, 6, 7, 8, 15, 6, 12, 10, 13, 6, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 8, 7, 8, 13, 19, 13, 14, 6, 15, 5, 6, 5, 6, 5, 6, 6, 6, 5, 7, 7, 6, 6, 6, 5, 6, 7, 6, 5, 5, 6, 7, 7, 7, 7, 7, 15, 11, 14, 13, 28, 20, 22, 20, 20, 22, 22, 22, 23, 22, 23, 23, 23, 23, 23, 24, 23, 24, 24, 22, 23, 24, 23, 23, 23, 23, 21, 22, 23, 22, 23, 23, 24, 22, 21, 20, 22, 22, 23, 23, 21, 23, 22, 22, 24, 21, 22, 23, 23, 21, 21, 22, 21, 23, 22, 23, 23, 20, 22, 22, 22, 23, 22, 22, 23, 26, 26, 20, 19, 22, 23, 22, 25, 26, 26, 26, 27, 27, 26, 24, 25, 19, 21, 26, 27, 27, 26, 27, 24, 21, 21, 26, 26, 28, 27, 27, 27, 20, 24, 20, 21, 22, 21, 21, 23, 22, 22, 25, 25, 24, 24, 26, 23, 26, 27, 26, 26, 27, 27, 27, 27, 27, 28, 27, 27, 27, 27, 27, 26, 30,
];

/// Canonical codes for the given lengths (0 = unused).
pub fn canonical(lengths: &[u8]) -> Vec<u32> {
    let mut order: Vec<usize> = (0..lengths.len()).filter(|&i| lengths[i] > 0).collect();
    order.sort_by_key(|&i| (lengths[i], i));
    let mut codes = vec![0u32; lengths.len()];
    let (mut code, mut prev) = (0u64, 0u8);
    for i in order {
        code <<= lengths[i] - prev;
        prev = lengths[i];
        codes[i] = code as u32;
        code += 1;
    }
    codes
}

pub fn codes() -> &'static [u32] {
    static C: OnceLock<Vec<u32>> = OnceLock::new();
    C.get_or_init(|| canonical(&LENGTHS))
}

/// A plain binary tree: node -> [child on 0, child on 1]; leaves hold symbols.
pub struct Tree {
    pub kids: Vec<[i32; 2]>, // >0 node, 0 none, <0 leaf -(sym+1)
}

impl Tree {
    pub fn build(codes: &[(u8, u32)]) -> Tree {
        let mut t = Tree { kids: vec![[0, 0]] };
        for (sym, &(len, code)) in codes.iter().enumerate() {
            if len == 0 {
                continue;
            }
            let mut n = 0usize;
            for k in (0..len).rev() {
                let b = (code >> k & 1) as usize;
                if k == 0 {
                    assert_eq!(t.kids[n][b], 0, "not a prefix code");
                    t.kids[n][b] = -(sym as i32 + 1);
                } else {
                    if t.kids[n][b] == 0 {
                        t.kids.push([0, 0]);
                        t.kids[n][b] = (t.kids.len() - 1) as i32;
                    }
                    assert!(t.kids[n][b] > 0, "not a prefix code");
                    n = t.kids[n][b] as usize;
                }
            }
        }
        t
    }
}

pub fn tree() -> &'static Tree {
    static T: OnceLock<Tree> = OnceLock::new();
    T.get_or_init(|| {
        let v: Vec<(u8, u32)> = LENGTHS.iter().copied().zip(codes().iter().copied()).collect();
        Tree::build(&v)
    })
}

#[derive(Default)]
pub struct BitWriter {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl BitWriter {
    pub fn put(&mut self, bits: u32, len: u32) {
        for k in (0..len).rev() {
            self.acc = self.acc << 1 | (bits >> k & 1) as u64;
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    pub fn partial(&self) -> u32 {
        self.n
    }
    /// Complete the last octet with the low bits of `pad`.
    pub fn finish_with(mut self, pad: u8) -> Vec<u8> {
        if self.n > 0 {
            let k = 8 - self.n;
            self.put(pad as u32, k);
        }
        self.out
    }
}

pub fn encode(src: &[u8]) -> Vec<u8> {
    let c = codes();
    let mut w = BitWriter::default();
    for &b in src {
        w.put(c[b as usize], LENGTHS[b as usize] as u32);
    }
    w.finish_with(0xff)
}

pub fn encoded_len(src: &[u8]) -> usize {
    let bits: u64 = src.iter().map(|&b| LENGTHS[b as usize] as u64).sum();
    ((bits + 7) / 8) as usize
}

/// RFC 7541 section 5.2: complete codes other than EOS, then fewer than 8 one bits.
pub fn decode(src: &[u8]) -> Option<Vec<u8>> {
    let t = tree();
    let mut out = Vec::new();
    let mut n = 0usize;
    let (mut pend, mut ones) = (0u32, true);
    for &b in src {
        for k in (0..8).rev() {
            let bit = (b >> k & 1) as usize;
            pend += 1;
            ones &= bit == 1;
            let x = t.kids[n][bit];
            if x < 0 {
                let sym = (-x - 1) as usize;
                if sym == 256 {
                    return None;
                }
                out.push(sym as u8);
                n = 0;
                pend = 0;
                ones = true;
            } else if x == 0 {
                return None;
            } else {
                n = x as usize;
            }
        }
    }
    if pend >= 8 || !ones {
        return None;
    }
    Some(out)
}
