//! Indexed families of one-shot cases (data, options, block type override).
use crate::exec::*;
use crate::inputs::*;
use deflate::{CompressionOptions, MatchingType};
use std::sync::Arc;

#[derive(Clone)]
pub struct Case {
    pub data: Vec<u8>,
    pub opts: CompressionOptions,
    pub mode: u8,
}

impl Case {
    pub fn show(&self) -> String {
        format!("data={} {} mode={}", hex(&self.data), show_opts(&self.opts), self.mode)
    }
}

#[derive(Clone)]
pub struct Corpus {
    pub name: String,
    pub what: String,
    pub n: u64,
    pub gen: Arc<dyn Fn(u64) -> Case + Send + Sync>,
}

fn mk(name: &str, what: String, n: u64, gen: impl Fn(u64) -> Case + Send + Sync + 'static) -> Corpus {
    Corpus { name: name.into(), what, n, gen: Arc::new(gen) }
}

/// Cartesian product of data x options x block modes.
pub fn product(name: &str, what: &str, n_data: u64, data: impl Fn(u64) -> Vec<u8> + Send + Sync + 'static, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    let k = (opts.len() * modes.len()) as u64;
    let what = format!("{} x {} option sets x {} block type modes", what, opts.len(), modes.len());
    mk(name, what, n_data * k, move |i| {
        let j = (i % k) as usize;
        Case { data: data(i / k), opts: opts[j % opts.len()], mode: modes[j / opts.len()] }
    })
}

/// The same inputs with 7-bit bytes, which makes Huffman coding worthwhile, so that the parse is visible.
pub fn seven(c: Corpus) -> Corpus {
    let g = c.gen.clone();
    mk(&format!("{}-7bit", c.name), format!("{}, all bytes reduced to 7 bits", c.what), c.n, move |i| {
        let mut c = g(i);
        c.data.iter_mut().for_each(|b| *b &= 0x7f);
        c
    })
}
/// Repeats at the largest distances, at every place around a window edge.
pub fn r_far(r: usize, lens: Vec<usize>, opts: Vec<CompressionOptions>) -> Corpus {
    let ds = [32765usize, 32766, 32767, 32768, 32769, 32770];
    let nl = lens.len() as u64;
    let w = 2 * r as u64 + 1;
    product(
        "r-far",
        &format!("a repeat of {:?} bytes at distances {:?}, at each place within {} of 4 window edges, nothing else repeated", lens, ds, r),
        4 * w * 6 * nl,
        move |mut i| {
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let l = lens[take(nl)];
            let d = ds[take(6)];
            let base = [32768usize, 65536, 65536 + 32768, 131072][take(4)];
            let pos = (base + take(w) - r).max(d);
            build(&[Seg::V(0, pos), Seg::Copy(d, l), Seg::V(pos + 50, 60)])
        },
        opts,
        vec![0],
    )
}

/// Long hash chains in which the best match is the N-th candidate.
/// Shape 0: the candidates are a run; 1: they are short groups with varied continuation; 2: the better match is at
/// the next position, with a long match at hand.
pub fn r_chain(q: bool, only_max: bool) -> Corpus {
    let mut ns: Vec<usize> = vec![];
    for k in 2..=14u32 {
        for d in if q { -1i64..=1 } else { -3..=3 } {
            ns.push((2i64.pow(k) + d) as usize);
        }
    }
    for base in [10_000usize, 10_001, 20_000, 32_500, 32_700] {
        ns.push(base);
    }
    for d in 0..if q { 9 } else { 16 } {
        ns.push(32_752 + d);
    }
    ns.retain(|&n| n > 3);
    let pres: Vec<usize> = if q { vec![0, 20_001] } else { vec![0, 1, 20_001, 33_000, 70_000] };
    let checks = if only_max { 1u64 } else { 8 };
    let dims = [ns.len() as u64, pres.len() as u64, 3, 2, checks, 2];
    let what = format!("chains of N candidates for N around all powers of two and up to the window ({} values), the best one last, in three shapes, after {:?} other bytes, {}, greedy and lazy", ns.len(), pres, if only_max { "max_hash_checks 32768" } else { "max_hash_checks N-1..=N+1, 4N-1..=4N+3" });
    mk("r-chain", what, dims.iter().product(), move |idx| {
        let mut i = idx;
        let mut take = |k: u64| {
            let r = i % k;
            i /= k;
            r as usize
        };
        let n = ns[take(dims[0])];
        let pre = pres[take(dims[1])];
        let shape = take(3);
        let gap = [1usize, 40][take(2)];
        let c = take(checks);
        let lazy = take(2) == 1;
        let mut d: Vec<u8> = noise(5, pre, 3).iter().map(|b| b'b' + (b & 7)).collect();
        let s: Vec<u8> = (0..40usize).map(|i| b'k' + ((i * i) % 7) as u8).collect();
        let cut = [28usize, 27][gap % 2]; // 4 + cut is 32 or 31
        match shape {
            0 => {
                d.extend_from_slice(b"aaaqqs");
                d.extend(std::iter::repeat(b'a').take(n + 1));
                d.extend(std::iter::repeat(b'z').take(gap));
                d.extend_from_slice(b"aaaqqt");
            }
            1 => {
                d.extend_from_slice(b"abcqqs");
                for k in 0..n.min(8000) - 1 {
                    d.extend_from_slice(b"abc");
                    d.push(b'e' + (k * k % 11) as u8);
                }
                d.extend(std::iter::repeat(b'z').take(gap));
                d.extend_from_slice(b"abcqqt");
            }
            _ => {
                d.extend_from_slice(b"caaa");
                d.extend_from_slice(&s[..cut]);
                d.extend_from_slice(b"zzyx");
                d.extend(std::iter::repeat(b'a').take(n));
                d.extend(std::iter::repeat(b'z').take(gap));
                d.extend_from_slice(b"baaa");
                d.extend_from_slice(&s[..cut]);
                d.extend_from_slice(b"rbaaa");
                d.extend_from_slice(&s[..cut]);
                d.extend_from_slice(b"zzyw");
            }
        }
        d.extend_from_slice(b"ut");
        let n = if shape == 1 { n.min(8000) } else { n };
        let checks = if only_max { 32768 } else { [n - 1, n, n + 1, 4 * n - 1, 4 * n, 4 * n + 1, 4 * n + 3, 2 * n][c].min(32768) };
        let opts = if lazy { o(checks as u16, 258, MatchingType::Lazy) } else { o(checks as u16, 0, MatchingType::Greedy) };
        Case { data: d, opts, mode: 0 }
    })
}

// ---- scaled-down build -------------------------------------------------------------------------

pub fn s_bin(max: u32, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    product("s-bin", &format!("all strings of length <= {} over 2 letters", max), n_strings(2, max), |i| string(i, b"ab"), opts, modes)
}
pub fn s_tern(max: u32, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    product("s-tern", &format!("all strings of length <= {} over 3 letters (9-bit literals)", max), n_strings(3, max), |i| string(i, &[b'a', b'b', 200]), opts, modes)
}
pub fn s_quad(max: u32, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    product("s-quad", &format!("all strings of length <= {} over 4 letters", max), n_strings(4, max), |i| string(i, &[b'a', b'b', b'c', 200]), opts, modes)
}
/// Structured prefix of every length in lo..hi, then every binary string of the given length.
pub fn s_pre(lo: usize, hi: usize, tail: u32, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    let p = small_payloads();
    let np = p.len() as u64;
    let t = 2u64.pow(tail);
    let nl = (hi - lo) as u64;
    product(
        "s-pre",
        &format!("{} structured prefixes of every length {}..{} followed by all {}-letter binary strings", np, lo, hi, tail),
        np * nl * t,
        move |i| {
            let (a, b) = (i / t, i % t);
            let mut v = p[(a % np) as usize][..lo + (a / np) as usize].to_vec();
            v.extend(string_fixed(b, b"ab", tail as usize));
            v
        },
        opts,
        modes,
    )
}
/// Every binary string of a length, repeated: long streams through many windows.
pub fn s_rep(len: u32, total: usize, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    product(
        "s-rep",
        &format!("all strings of length 1..={} over 3 letters, repeated cyclically with a changing letter every 13 bytes, to {} bytes", len, total),
        n_strings(3, len) - 1,
        move |i| {
            let s = string(i + 1, b"abc");
            (0..total).map(|k| if k % 13 == 12 { b'0' + (k / 13 % 10) as u8 } else { s[k % s.len()] }).collect()
        },
        opts,
        modes,
    )
}

/// Long inputs: many windows, many blocks, counters far past any buffer size.
pub fn s_long(max: u64, opts: Vec<CompressionOptions>, modes: Vec<u8>) -> Corpus {
    let p = small_payloads();
    let np = p.len() as u64;
    let lens: Vec<u64> = (0..max).map(|k| 250 * (k + 1) + 3 * k).collect();
    product(
        "s-long",
        &format!("{} lengths from 250 to {} bytes x {} structured contents, each repeated with one byte changed per round", lens.len(), lens[lens.len() - 1], np * np),
        np * np * lens.len() as u64,
        move |i| {
            let (a, b) = (&p[(i % np) as usize], &p[(i / np % np) as usize]);
            let n = lens[(i / np / np) as usize] as usize;
            let mut v = vec![];
            let mut k = 0usize;
            while v.len() < n {
                let s = if k % 3 == 2 { b } else { a };
                let at = v.len();
                v.extend_from_slice(&s[..40 + k * 7 % 24]);
                v[at + k * 5 % 40] = k as u8;
                k += 1;
            }
            v.truncate(n);
            v
        },
        opts,
        modes,
    )
}

// ---- real constants ----------------------------------------------------------------------------

pub fn r_bytes(opts: Vec<CompressionOptions>) -> Corpus {
    product(
        "r-bytes",
        "empty input, all single bytes, all byte pairs",
        65536 + 256 + 1,
        |i| match i {
            0 => vec![],
            1..=256 => vec![(i - 1) as u8],
            _ => vec![((i - 257) >> 8) as u8, (i - 257) as u8],
        },
        opts,
        vec![0],
    )
}
pub fn r_short(max: u32, opts: Vec<CompressionOptions>) -> Corpus {
    product("r-short", &format!("all strings of length <= {} over {{0,'a',200}}", max), n_strings(3, max), |i| string(i, &[0, b'a', 200]), opts, vec![0])
}
pub fn content(kind: u64, n: usize) -> Vec<u8> {
    match kind {
        0 => build(&[Seg::Run(0, n)]),
        1 => build(&[Seg::U(3, n)]),
        2 => build(&[Seg::Low(9, n)]),
        3 => build(&[Seg::Per(7, n)]),
        4 => build(&[Seg::Per(257, n)]),
        5 => {
            // Two thirds noise, then a copy of its start up to the end.
            let a = n - n / 3;
            build(&[Seg::U(7, a), Seg::Copy(a, n - a)])
        }
        6 => {
            let mut v = vec![];
            let mut g = Lcg(77);
            while v.len() < n {
                let r = g.next();
                let c = (r >> 8) as u8;
                v.extend(std::iter::repeat(c).take(1 + (r % 6) as usize));
            }
            v.truncate(n);
            v
        }
        _ => noise(1000, n, 8),
    }
}
/// Very long inputs (sizes beyond any plausible threshold for treating large data differently).
pub fn r_large(lens: Vec<usize>, opts: Vec<CompressionOptions>) -> Corpus {
    let nl = lens.len() as u64;
    product(
        "r-large",
        &format!("inputs of {:?} bytes: one long run, incompressible, text-like with repeats (the latter of at most a quarter of the length)", lens),
        nl * 3,
        move |i| {
            let n = lens[(i / 3) as usize] / if i % 3 == 2 { 4 } else { 1 };
            let m = mixed(0);
            let mut x = 88172645463325252u64;
            match i % 3 {
                0 => vec![7; n],
                1 => (0..n)
                    .map(|_| {
                        x ^= x << 13;
                        x ^= x >> 7;
                        x ^= x << 17;
                        (x >> 24) as u8
                    })
                    .collect(),
                _ => (0..n).map(|k| m[(k + k / 50_000 * 4099) % m.len()] & 0x7f).collect(),
            }
        },
        opts,
        vec![0],
    )
}
pub const N_CONTENT: u64 = 8;
pub fn r_len(max: u64, opts: Vec<CompressionOptions>) -> Corpus {
    product("r-len", &format!("every length 0..={} x {} kinds of content", max, N_CONTENT), (max + 1) * N_CONTENT, |i| content(i % N_CONTENT, (i / N_CONTENT) as usize), opts, vec![0])
}
/// Long inputs.
pub fn r_long(lens: Vec<usize>, opts: Vec<CompressionOptions>) -> Corpus {
    let nl = lens.len() as u64;
    product(
        "r-long",
        &format!("inputs of {:?} bytes, {} kinds of content", lens, N_CONTENT + N_MIXED),
        nl * (N_CONTENT + N_MIXED),
        move |i| {
            let n = lens[(i % nl) as usize];
            let k = i / nl;
            if k < N_CONTENT && k != 1 && k != 5 {
                return content(k, n);
            }
            // Differently shifted copies of a mixed input.
            let m = match k {
                1 => uniq(400_000).to_vec(),
                5 => uniq7(40_000).to_vec(),
                _ => mixed(k - N_CONTENT),
            };
            let mut v = vec![];
            let mut r = 0;
            while v.len() < n {
                v.extend_from_slice(&m[r * 4099 % m.len()..]);
                r += 1;
            }
            v.truncate(n);
            v
        },
        opts,
        vec![0],
    )
}
pub fn r_bound(opts: Vec<CompressionOptions>) -> Corpus {
    let l = boundary_lengths();
    product("r-bound", &format!("{} lengths around every buffer limit x {} kinds of content", l.len(), N_CONTENT), l.len() as u64 * N_CONTENT, move |i| content(i % N_CONTENT, l[(i / N_CONTENT) as usize]), opts, vec![0])
}
pub fn mixed(i: u64) -> Vec<u8> {
    match i {
        0 => build(&[Seg::U(0, 300), Seg::Run(0, 700), Seg::Low(1, 30000), Seg::Copy(30900, 1200), Seg::Per(5, 400), Seg::U(400, 600), Seg::Copy(32768, 400), Seg::Low(2, 33000), Seg::Run(255, 600), Seg::Copy(300, 5000)]),
        1 => build(&[Seg::U(0, 33000), Seg::Copy(32768, 258), Seg::Copy(32767, 259), Seg::Copy(1, 258), Seg::U(33000, 31000), Seg::Copy(31000, 2000), Seg::Run(7, 3000)]),
        2 => build(&[Seg::Run(b'x', 70000), Seg::Byte(1), Seg::Run(b'x', 30000)]),
        3 => build(&[Seg::Low(3, 70000)]),
        4 => content(6, 80000),
        5 => build(&[Seg::Per(300, 70000), Seg::U(0, 100), Seg::Per(4, 9000)]),
        _ => {
            let mut v = vec![];
            for k in 0..40 {
                v.extend(build(&[Seg::U(k * 811, 811), Seg::Low(k as u64, 950)]));
                let n = v.len();
                v.extend_from_within(n / 2..n / 2 + (k * 31) % 600);
            }
            v
        }
    }
}
pub const N_MIXED: u64 = 7;
pub fn r_grid(opts: Vec<CompressionOptions>, inputs: u64) -> Corpus {
    product("r-grid", &format!("{} mixed inputs of 70-100 KB", inputs), inputs, mixed, opts, vec![0])
}
pub fn r_dist(dists: Vec<usize>, lens: Vec<usize>, opts: Vec<CompressionOptions>) -> Corpus {
    let nl = lens.len() as u64;
    product(
        "r-dist",
        &format!("repeat at {} distances x {} lengths after unique noise", dists.len(), lens.len()),
        dists.len() as u64 * nl,
        move |i| {
            let (d, l) = (dists[(i / nl) as usize], lens[(i % nl) as usize]);
            build(&[Seg::U(0, d), Seg::Copy(d, l), Seg::U(d + 10, 3)])
        },
        opts,
        vec![0],
    )
}
/// Repeat whose second copy starts around the end of window 1 or 2.
pub fn r_edge(opts: Vec<CompressionOptions>, step: usize) -> Corpus {
    let mut v: Vec<(usize, usize, usize)> = vec![];
    for &base in &[32768usize, 65536] {
        for off in (0..540).step_by(step) {
            for &(l, d) in &[(258usize, 300usize), (3, 3), (4, 9000), (258, 32768), (258, 32510), (100, 1), (517, 2), (20, 31744)] {
                v.push((base + 270 - off, l, d));
            }
        }
    }
    product(
        "r-edge",
        &format!("{} placements of a repeat (length, distance) at every {}th offset around window edges", v.len(), step),
        v.len() as u64,
        move |i| {
            let (pos, l, d) = v[i as usize];
            let d = d.min(pos);
            build(&[Seg::U(0, pos), Seg::Copy(d, l), Seg::U(pos + 5, 40), Seg::Copy(20, 6)])
        },
        opts,
        vec![0],
    )
}
/// The token buffer fills exactly delta bytes from a window edge; a repeat starts x bytes before the edge.
pub fn r_tok(opts: Vec<CompressionOptions>, dr: i64, xs: Vec<usize>) -> Corpus {
    let nx = xs.len() as u64;
    let nd = (2 * dr + 1) as u64;
    product(
        "r-tok",
        &format!("token buffer fills at window edge +-{} for two windows x {} offsets of a repeat over the edge", dr, nx),
        2 * nd * nx,
        move |i| {
            let x = xs[(i % nx) as usize];
            let delta = ((i / nx) % nd) as i64 - dr;
            let k = 1 + (i / nx / nd) as i64;
            // Token number 31744*k is emitted so that it ends at this position.
            let pos = 32768 * k + delta;
            let save = (pos - 31744 * k) as usize;
            let (full, rest) = (save / 257, save % 257);
            let (full, rest) = if rest < 2 { (full - 1, rest + 257) } else { (full, rest) };
            let mut segs = vec![Seg::Run(0, 1 + 258 * full)];
            let mut n = 1 + 258 * full;
            // One more match, of rest+1 bytes (<= 258 + 1 only if rest = 258: split).
            if rest + 1 > 258 {
                segs.push(Seg::Run(0, 258 - 100));
                segs.push(Seg::Byte(1));
                segs.push(Seg::Run(1, rest + 1 - (258 - 100) + 1));
                n += 258 - 100 + 1 + rest + 1 - 158 + 1;
            } else {
                segs.push(Seg::Run(0, rest + 1));
                n += rest + 1;
            }
            let edge = 32768 * k as usize;
            let u = edge - x - n;
            segs.push(Seg::U(0, u));
            segs.push(Seg::Copy(400, 200.min(x + 60)));
            segs.push(Seg::U(u + 3, 300));
            segs.push(Seg::Copy(310, 40));
            segs.push(Seg::U(u + 500, 33_000));
            segs.push(Seg::Copy(500, 40));
            build(&segs)
        },
        opts,
        vec![0],
    )
}
pub fn r_runs(max: u64, opts: Vec<CompressionOptions>) -> Corpus {
    product(
        "r-runs",
        &format!("runs of every length 1..={} between noise bytes", max),
        max,
        |i| build(&[Seg::U(0, 5), Seg::Run(9, i as usize + 1), Seg::U(9, 3), Seg::Run(0, i as usize / 2), Seg::Byte(3)]),
        opts,
        vec![0],
    )
}
/// Sequences of segments whose lengths are buffer limits.
pub fn r_seg(depth: u32, opts: Vec<CompressionOptions>) -> Corpus {
    const A: [Seg; 11] = [
        Seg::U(0, 32768),
        Seg::U(32768, 31744),
        Seg::Run(0, 258),
        Seg::Run(0, 32769),
        Seg::Copy(32768, 258),
        Seg::Copy(32510, 517),
        Seg::Copy(1, 3),
        Seg::Low(5, 16385),
        Seg::Per(3, 1000),
        Seg::U(70000, 1022),
        Seg::Byte(250),
    ];
    let k = A.len() as u64;
    product(
        "r-seg",
        &format!("all sequences of {} segments from {} whose sizes are buffer limits", depth, k),
        k.pow(depth),
        move |mut i| {
            let mut s = vec![];
            for _ in 0..depth {
                s.push(A[(i % k) as usize]);
                i /= k;
            }
            build(&s)
        },
        opts,
        vec![0],
    )
}
/// Incompressible data of every length near multiples of the block limits, with an optional compressible prefix.
pub fn r_inc(radius: usize, opts: Vec<CompressionOptions>) -> Corpus {
    let mut v: Vec<usize> = vec![];
    for b in [0usize, 31744, 32767, 32768, 33026, 63488, 65534, 65535, 65536, 95232, 98301] {
        for x in b.saturating_sub(radius)..=b + radius {
            v.push(x);
        }
    }
    v.sort();
    v.dedup();
    let nv = v.len() as u64;
    product(
        "r-inc",
        &format!("incompressible data of {} lengths around multiples of the block limits, alone or after a short run", nv),
        nv * 3,
        move |i| {
            let n = v[(i % nv) as usize];
            match i / nv {
                0 => build(&[Seg::U(11, n)]),
                1 => build(&[Seg::Run(0, 40), Seg::U(11, n)]),
                _ => build(&[Seg::N(5, n)]),
            }
        },
        opts,
        vec![0],
    )
}
/// Inputs with prescribed symbol counts (compressed without matches).
pub fn freq_shapes() -> Vec<Vec<u32>> {
    let mut v: Vec<Vec<u32>> = vec![];
    let cap = 31743u32;
    let mut add = |f: Vec<u32>| {
        let s: u32 = f.iter().sum();
        if s >= 1 && s <= cap * 3 && f.iter().any(|&x| x > 0) {
            v.push(f);
        }
    };
    // Fibonacci-like with every length, offset and growth.
    for n in 2..=22usize {
        for &(a, b) in &[(1u32, 1u32), (1, 2), (2, 2), (1, 3), (3, 3), (1, 4)] {
            let mut f = vec![a, b];
            while f.len() < n {
                let l = f.len();
                f.push(f[l - 1] + f[l - 2]);
            }
            let s: u32 = f.iter().sum();
            if s < cap {
                add(f.clone());
                // With a flat tail.
                for extra in [1usize, 10, 100, 200] {
                    let mut g = f.clone();
                    g.extend(std::iter::repeat(1).take(extra.min(256 - n)));
                    add(g);
                }
            }
        }
    }
    // Powers of a ratio (numerator over 8), largest first.
    for num in 9..=24u32 {
        for n in [2usize, 5, 10, 16, 20, 30, 60, 120, 256] {
            let mut f = vec![];
            let mut x = 1.0f64;
            let mut s = 0.0;
            for _ in 0..n {
                s += x.ceil();
                if s > 31000.0 {
                    break;
                }
                f.push(x.ceil() as u32);
                x *= num as f64 / 8.0;
            }
            add(f);
        }
    }
    // Flat with every number of symbols.
    for n in 1..=256usize {
        add(vec![1; n]);
        add(vec![3; n]);
        if n * 100 < 31000 {
            add(vec![100; n]);
        }
    }
    // Two levels: k symbols with count c, the rest with 1.
    for k in [1usize, 2, 3, 4, 7, 8, 15, 16, 31, 64, 127, 128] {
        for c in [2u32, 5, 17, 100, 240] {
            for n in [k + 1, k + 2, k + 5, (k + 50).min(256), 256] {
                let mut f = vec![c; k];
                f.resize(n.min(256), 1);
                add(f);
            }
        }
    }
    // All small count vectors over 5 symbols.
    for i in 0..6u32.pow(5) {
        let mut f = vec![];
        let mut j = i;
        for _ in 0..5 {
            f.push([0, 1, 2, 3, 7, 40][(j % 6) as usize]);
            j /= 6;
        }
        add(f);
    }
    v
}
pub fn r_freq(place: Vec<u32>, opts: Vec<CompressionOptions>) -> Corpus {
    let sh = freq_shapes();
    let ns = sh.len() as u64;
    let np = place.len() as u64;
    product(
        "r-freq",
        &format!("{} symbol-count vectors (Fibonacci-like, geometric, flat, two-level, all small ones) x {} placements of the symbols", ns, np),
        ns * np,
        move |i| {
            let f = &sh[(i % ns) as usize];
            let p = place[(i / ns) as usize];
            let mut v = vec![];
            for (k, &c) in f.iter().enumerate() {
                // Placement: stride through the byte values.
                let sym = (k as u32).wrapping_mul(p) as u8;
                v.extend(std::iter::repeat(sym).take(c as usize));
            }
            // De-cluster so that even other options see mixed data.
            let n = v.len();
            let mut w = Vec::with_capacity(n);
            let step = (1..).map(|k| n * 5 / 8 + k).find(|s| gcd(*s, n) == 1).unwrap_or(1);
            let mut p = 0;
            for _ in 0..n {
                w.push(v[p]);
                p = (p + step) % n;
            }
            w
        },
        opts,
        vec![0],
    )
}
/// A second block which starts at any bit position modulo 48, with content for which the encodings cost about the same.
pub fn r_second(q: bool) -> Corpus {
    let tails = |j: u64| -> Vec<u8> {
        if j < 80 {
            // 9-bit literals spread so that a dynamic header is expensive: fixed against stored.
            let (m, e) = (12 + (j % 40), j / 40 * 3);
            let mut v: Vec<u8> = (0..e).map(|i| (i * 37) as u8).collect();
            v.extend((0..m).map(|i| (144 + i * 4 % 112 + i / 28) as u8));
            v
        } else {
            // k different literals, about equally often: dynamic against the others.
            let k = 40 + (j - 80) * 2;
            (0..k * 3 / 2).map(|i| (i % k * 256 / k) as u8).collect()
        }
    };
    let n_tails = 80 + 108u64;
    let opts = vec![CompressionOptions::huffman_only(), CompressionOptions::default()];
    mk(
        "r-second",
        format!("first block of exactly 31744 tokens ending at each of 48 bit positions x {} second blocks (fixed against stored, dynamic against both) x literals only and default options", n_tails),
        48 * n_tails * if q { 1 } else { 2 },
        move |i| {
            let (k, t, o) = (i % 48, i / 48 % n_tails, (i / 48 / n_tails) as usize);
            let mut v: Vec<u8>;
            if o == 0 {
                // One bit for an 'a', two for the others.
                v = vec![b'a'; 31744];
                for x in 0..1000 + k as usize {
                    v[x * 29] = b'b' + (x & 1) as u8;
                }
            } else {
                let mut x = 12345u32;
                v = (0..31744)
                    .map(|_| {
                        x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                        (x >> 25) as u8
                    })
                    .collect();
                for j in 0..k as usize * 3 {
                    v[j * 200 + 50] = b'a';
                }
            }
            v.extend(tails(t));
            Case { data: v, opts: opts[o], mode: 0 }
        },
    )
}
/// Prescribed counts of the distance codes: matches of 4 bytes whose sources are used only once.
pub fn r_dfreq(opts: Vec<CompressionOptions>) -> Corpus {
    let fib = |n: usize, a: u32, b: u32| {
        let (mut a, mut b, mut v) = (a, b, vec![]);
        for _ in 0..n {
            v.push(a);
            let c = a + b;
            a = b;
            b = c;
        }
        v
    };
    let mut sh: Vec<Vec<u32>> = vec![];
    for n in 2..=17 {
        sh.push(fib(n, 1, 1));
        sh.push(fib(n.min(16), 1, 2));
    }
    for n in [2, 3, 5, 8, 9, 16, 17] {
        sh.push(vec![7; n]);
        sh.push((0..n).map(|k| if k == 0 { 500 } else { 1 }).collect());
        sh.push((0..n.min(11)).map(|k| 1 << k).collect());
        sh.push((0..n).map(|k| 1 + k as u32 * 13).collect());
    }
    let ns = sh.len() as u64;
    // The first code, and whether the counts rise or fall from there.
    let bases = [10usize, 8];
    product(
        "r-dfreq",
        &format!("{} vectors of distance code counts (Fibonacci-like, geometric, flat, two-level) x 2 first codes x rising or falling, as matches with sources used once", ns),
        ns * 4,
        move |i| {
            let mut f = sh[(i % ns) as usize].clone();
            if i / ns / 2 % 2 == 1 {
                f.reverse();
            }
            let c0 = bases[(i / ns % 2) as usize];
            let codes: Vec<usize> = f.iter().enumerate().flat_map(|(k, &n)| std::iter::repeat(c0 + k).take(n as usize)).collect();
            let n = codes.len();
            let step = (1..).map(|k| n * 5 / 8 + k).find(|s| gcd(*s, n) == 1).unwrap_or(1);
            let base = |c: usize| crate::inflate::DIST_BASE[c] as usize;
            let pre = base(c0 + f.len() - 1) + 16;
            let u = uniq(pre + 4 * n + 100);
            let mut v = u[..pre].to_vec();
            let mut used = vec![false; pre];
            let mut next = pre;
            let mut p = 0;
            for _ in 0..n {
                let c = codes[p];
                p = (p + step) % n;
                let end = if c == 29 { 32768 } else { base(c + 1) - 1 };
                let d = (base(c)..=end.min(v.len())).find(|&d| used[v.len() - d..].iter().take(4).all(|x| !x)).unwrap_or(base(c));
                for _ in 0..4 {
                    used[v.len() - d] = true;
                    v.push(v[v.len() - d]);
                    used.push(true);
                }
                v.extend_from_slice(&u[next..next + 4]);
                used.extend([false; 4]);
                next += 4;
            }
            v
        },
        opts,
        vec![0],
    )
}
fn gcd(a: usize, b: usize) -> usize {
    if b == 0 {
        a
    } else {
        gcd(b, a % b)
    }
}
/// Match lengths and distances with prescribed variety: exercises length and distance codes of dynamic blocks.
pub fn r_mat(n: u64, opts: Vec<CompressionOptions>) -> Corpus {
    product(
        "r-mat",
        &format!("{} inputs of many repeats with systematically varied lengths and distances", n),
        n,
        |i| {
            let mut v = uniq(600 + (i as usize % 7) * 4000).to_vec();
            let (a, b) = (1 + i as usize % 29, 1 + (i as usize / 29) % 31);
            let (mut l, mut d) = (3usize, 1usize);
            for k in 0..400 {
                let n = v.len();
                let dd = 1 + (d % n.min(32768));
                for _ in 0..l {
                    let c = v[v.len() - dd];
                    v.push(c);
                }
                v.push((k * 7) as u8);
                v.push((k * 13 + l) as u8);
                l = 3 + (l + a * 3 + k) % 256;
                d = d * 2 + b + k;
                if d > 32768 {
                    d %= 977;
                }
            }
            v
        },
        opts,
        vec![0],
    )
}
