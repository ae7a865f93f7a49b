//! Reference LZ77 parses, straight from the documentation of the options.
use crate::exec::{MAXM, TOO_FAR, W};
use crate::inflate::Tok;
use std::collections::HashMap;

pub struct Index<'a> {
    d: &'a [u8],
    at: HashMap<u32, Vec<u32>>,
}

impl<'a> Index<'a> {
    pub fn new(d: &'a [u8]) -> Index<'a> {
        let mut at: HashMap<u32, Vec<u32>> = HashMap::new();
        for (i, w) in d.windows(3).enumerate() {
            at.entry((w[0] as u32) << 16 | (w[1] as u32) << 8 | w[2] as u32).or_default().push(i as u32);
        }
        Index { d, at }
    }
    /// Longest match for position p (not going beyond `end`) among the `checks` nearest occurrences of the next three
    /// bytes in the previous W bytes, nearest if tied; (0, 0) if shorter than 3.
    pub fn longest_to(&self, p: usize, end: usize, checks: usize) -> (usize, usize) {
        let d = self.d;
        if p + 3 > end {
            return (0, 0);
        }
        let k = (d[p] as u32) << 16 | (d[p + 1] as u32) << 8 | d[p + 2] as u32;
        let v = match self.at.get(&k) {
            Some(v) => v,
            None => return (0, 0),
        };
        let max = MAXM.min(end - p);
        let mut best = (0, 0);
        let e = v.partition_point(|&x| (x as usize) < p);
        for &q in v[..e].iter().rev().take(checks) {
            let q = q as usize;
            if p - q > W {
                break;
            }
            if best.0 > 0 && best.0 < max && d[q + best.0] != d[p + best.0] {
                continue;
            }
            let l = (0..max).take_while(|&i| d[q + i] == d[p + i]).count();
            if l > best.0 {
                best = (l, p - q);
                if l == max {
                    break;
                }
            }
        }
        if best.0 == 3 && best.1 > TOO_FAR {
            (0, 0)
        } else {
            best
        }
    }
}

fn lit(b: u8) -> Tok {
    Tok { len: b as u16, dist: 0 }
}
fn mat(m: (usize, usize)) -> Tok {
    Tok { len: m.0 as u16, dist: m.1 as u16 }
}

/// The greedy parse of data that is flushed at the (ascending) positions `cuts`: no match goes beyond the next one.
pub fn greedy_cut(d: &[u8], cuts: &[usize], checks: usize) -> Vec<Tok> {
    let ix = Index::new(d);
    let mut t = vec![];
    let mut p = 0;
    for &end in cuts.iter().chain([&d.len()]) {
        while p < end {
            let m = ix.longest_to(p, end, checks);
            if m.0 >= 3 {
                t.push(mat(m));
                p += m.0;
            } else {
                t.push(lit(d[p]));
                p += 1;
            }
        }
    }
    t
}

/// `checks` is at most 32768 (no more positions are in the window). A quarter of the checks is spent on improving a match of 32 bytes or more.
pub fn lazy_cut(d: &[u8], cuts: &[usize], lazy_if_less: usize, checks: usize) -> Vec<Tok> {
    let ix = Index::new(d);
    let mut t = vec![];
    let mut p = 0;
    for &end in cuts.iter().chain([&d.len()]) {
        let mut m = ix.longest_to(p, end, checks);
        while p < end {
            if m.0 < 3 {
                t.push(lit(d[p]));
                p += 1;
                m = ix.longest_to(p, end, checks);
                continue;
            }
            if m.0 < lazy_if_less && m.0 < MAXM {
                let m2 = ix.longest_to(p + 1, end, if m.0 >= 32 { checks / 4 } else { checks });
                if m2.0 > m.0 {
                    t.push(lit(d[p]));
                    p += 1;
                    m = m2;
                    continue;
                }
            }
            t.push(mat(m));
            p += m.0;
            m = ix.longest_to(p, end, checks);
        }
    }
    t
}

/// Run-length parse: at each byte equal to its predecessor, a distance-1 match if the run goes on for at least 3 (not
/// beyond the next cut).
pub fn rle_cut(d: &[u8], cuts: &[usize]) -> Vec<Tok> {
    let mut t = vec![];
    let mut p = 0;
    for &end in cuts.iter().chain([&d.len()]) {
        while p < end {
            let n = if p > 0 { d[p..end].iter().take(MAXM).take_while(|&&b| b == d[p - 1]).count() } else { 0 };
            if n >= 3 {
                t.push(mat((n, 1)));
                p += n;
            } else {
                t.push(lit(d[p]));
                p += 1;
            }
        }
    }
    t
}
pub fn rle(d: &[u8]) -> Vec<Tok> {
    rle_cut(d, &[])
}

pub fn show(t: &[Tok]) -> String {
    t.iter().take(40).map(|t| if t.dist == 0 { format!("{:02x} ", t.len) } else { format!("<{},{}> ", t.len, t.dist) }).collect()
}
