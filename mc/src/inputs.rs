//! Finite, indexed families of inputs and options.
use deflate::{CompressionOptions, MatchingType, SpecialOptions};
use std::sync::OnceLock;

pub fn o(checks: u16, lazy: u16, m: MatchingType) -> CompressionOptions {
    CompressionOptions { max_hash_checks: checks, lazy_if_less_than: lazy, matching_type: m, special: SpecialOptions::Normal }
}
pub const L: MatchingType = MatchingType::Lazy;
pub const G: MatchingType = MatchingType::Greedy;

/// The presets and the corners of the option space.
pub fn opts_core() -> Vec<CompressionOptions> {
    vec![
        CompressionOptions::default(),
        CompressionOptions::fast(),
        CompressionOptions::high(),
        CompressionOptions::huffman_only(),
        CompressionOptions::rle(),
        o(32768, 0, G),
        o(32768, 258, L),
        o(1, 258, L),
        o(65535, 4, L),
    ]
}
pub fn opts_few() -> Vec<CompressionOptions> {
    vec![CompressionOptions::default(), CompressionOptions::fast(), CompressionOptions::rle(), o(32768, 258, L), CompressionOptions::huffman_only()]
}
pub fn opts_grid() -> Vec<CompressionOptions> {
    let mut v = vec![];
    for &m in &[L, G] {
        for &c in &[0u16, 1, 2, 3, 4, 7, 128, 1768, 32767, 32768, 65535] {
            for &l in &[0u16, 1, 2, 3, 4, 5, 32, 128, 257, 258, 259, 32768, 65535] {
                v.push(o(c, l, m));
            }
        }
    }
    for s in [SpecialOptions::_ForceFixed, SpecialOptions::_ForceStored] {
        v.push(CompressionOptions { special: s, ..Default::default() });
    }
    v
}

/// Number of strings over k letters of length <= max.
pub fn n_strings(k: u64, max: u32) -> u64 {
    (0..=max).map(|l| k.pow(l)).sum()
}
/// The idx-th string (shortest first) over the alphabet.
pub fn string(idx: u64, alpha: &[u8]) -> Vec<u8> {
    let k = alpha.len() as u64;
    let mut i = idx;
    let mut len = 0u32;
    while i >= k.pow(len) {
        i -= k.pow(len);
        len += 1;
    }
    string_fixed(i, alpha, len as usize)
}
pub fn string_fixed(mut i: u64, alpha: &[u8], len: usize) -> Vec<u8> {
    let k = alpha.len() as u64;
    let mut v = vec![0; len];
    for b in v.iter_mut().rev() {
        *b = alpha[(i % k) as usize];
        i /= k;
    }
    v
}

pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self) -> u32 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) as u32
    }
}

/// A fixed byte sequence in which no three-byte group occurs twice.
pub fn uniq(n: usize) -> &'static [u8] {
    static U: OnceLock<Vec<u8>> = OnceLock::new();
    let v = U.get_or_init(|| {
        let n = 420_000;
        let mut seen = vec![false; 1 << 24];
        let mut g = Lcg(1);
        let mut v: Vec<u8> = vec![17, 201];
        while v.len() < n {
            let l = v.len();
            let p = (v[l - 2] as usize) << 16 | (v[l - 1] as usize) << 8;
            let mut b = (g.next() & 255) as usize;
            while seen[p | b] {
                b = (b + 1) & 255;
            }
            seen[p | b] = true;
            v.push(b as u8);
        }
        v
    });
    &v[..n]
}

/// The same over 7-bit values, so that it gets Huffman coded.
pub fn uniq7(n: usize) -> &'static [u8] {
    static U: OnceLock<Vec<u8>> = OnceLock::new();
    let v = U.get_or_init(|| {
        let mut seen = vec![false; 1 << 21];
        let mut g = Lcg(5);
        let mut v: Vec<u8> = vec![17, 101];
        while v.len() < 300_000 {
            let l = v.len();
            let p = (v[l - 2] as usize) << 14 | (v[l - 1] as usize) << 7;
            let mut b = (g.next() & 127) as usize;
            while seen[p | b] {
                b = (b + 1) & 127;
            }
            seen[p | b] = true;
            v.push(b as u8);
        }
        v
    });
    &v[..n]
}

/// Noise over only 2^bits different byte values.
pub fn noise(seed: u64, n: usize, bits: u32) -> Vec<u8> {
    let mut g = Lcg(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567);
    (0..n).map(|_| (g.next() & ((1 << bits) - 1)) as u8).collect()
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Seg {
    /// Unique-trigram noise starting at this offset of the fixed sequence.
    U(usize, usize),
    /// The same with 7-bit bytes.
    V(usize, usize),
    Run(u8, usize),
    /// Copy (len) from (dist) back.
    Copy(usize, usize),
    /// Period-p text.
    Per(usize, usize),
    /// Low-entropy noise (2 bits).
    Low(u64, usize),
    /// Full-entropy LCG noise with this seed.
    N(u64, usize),
    Byte(u8),
}

pub fn build(segs: &[Seg]) -> Vec<u8> {
    let mut v: Vec<u8> = vec![];
    for s in segs {
        match *s {
            Seg::U(off, n) => v.extend_from_slice(&uniq(off + n)[off..]),
            Seg::V(off, n) => v.extend_from_slice(&uniq7(off + n)[off..]),
            Seg::Run(b, n) => v.extend(std::iter::repeat(b).take(n)),
            Seg::Copy(d, n) => {
                for _ in 0..n {
                    if d == 0 || d > v.len() {
                        v.push(0x5a);
                    } else {
                        let b = v[v.len() - d];
                        v.push(b);
                    }
                }
            }
            Seg::Per(p, n) => v.extend((0..n).map(|i| b'a'.wrapping_add((i % p) as u8))),
            Seg::Low(s, n) => v.extend(noise(s, n, 2).into_iter().map(|b| b"etao"[b as usize])),
            Seg::N(s, n) => v.extend(noise(s, n, 8)),
            Seg::Byte(b) => v.push(b),
        }
    }
    v
}

/// Lengths around every limit of the encoder.
pub fn boundary_lengths() -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for (c, r) in [(2usize, 2usize), (258, 2), (31744, 2), (32768, 3), (33026, 2), (63488, 2), (65536, 3), (65794, 3), (98304, 2)] {
        for x in c.saturating_sub(r)..=c + r {
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    v
}

/// Distances around every distance code boundary.
pub fn boundary_distances() -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for b in crate::inflate::DIST_BASE {
        for x in [b as usize - 1, b as usize, b as usize + 1] {
            if x >= 1 {
                v.push(x);
            }
        }
    }
    for x in [8191, 8192, 8193, 16383, 16384, 32505, 32506, 32507, 32509, 32510, 32511, 32765, 32766, 32767, 32768, 32769, 32770] {
        v.push(x);
    }
    v.sort();
    v.dedup();
    v
}

/// Structured 48-byte payloads for the scaled-down build: every kind of match behaviour at window 8.
pub fn small_payloads() -> Vec<Vec<u8>> {
    let n = 64;
    let mut v: Vec<Vec<u8>> = vec![];
    v.push(vec![b'a'; n]);
    v.push((0..n).map(|i| b"ab"[i % 2]).collect());
    v.push((0..n).map(|i| b"aab"[i % 3]).collect());
    v.push((0..n).map(|i| b"abcde"[i % 5]).collect());
    v.push((0..n).map(|i| b"abcdefgh"[i % 8]).collect());
    v.push((0..n).map(|i| b"abcdefghi"[i % 9]).collect());
    v.push((0..n).map(|i| 150 + i as u8).collect());
    v.push(noise(3, n, 1).iter().map(|b| b + b'a').collect());
    v.push(noise(11, n, 1).iter().map(|b| b + b'x').collect());
    v.push(noise(5, n, 2).iter().map(|b| b + 200).collect());
    v.push((0..n).map(|i| if i % 11 < 7 { 1 } else { (i * 37) as u8 }).collect());
    v.push((0..n).map(|i| if (i / 6) % 2 == 0 { b'r' } else { b"xyz"[i % 3] }).collect());
    v.push((0..n).map(|i| b"aaaaabaaaac"[i % 11]).collect());
    v
}
