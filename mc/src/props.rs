//! What is explored for each property, and what is checked on every execution.
use crate::corpus::*;
use crate::exec::*;
use crate::explore::*;
use crate::frame::*;
use crate::hist::*;
use crate::inflate::{self, inflate, Decoded, Tok, LEN_BASE, LEN_EXTRA};
use crate::inputs::*;
use crate::sums::{adler32, adler32_zeros, crc32, crc_force, crc32_zeros, hash64, mix};
use crate::{alloc, huff, parse};
use deflate::write::{DeflateEncoder, GzEncoder, ZlibEncoder};
use deflate::{Compression, CompressionOptions, SpecialOptions};
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;
use std::sync::Arc;

pub const ALL: [&str; 26] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26",
];

fn oneshot(kind: Kind, data: &[u8], opts: CompressionOptions, gz: u8) -> Vec<u8> {
    match kind {
        Kind::Raw => deflate::deflate_bytes_conf(data, opts),
        Kind::Zlib => deflate::deflate_bytes_zlib_conf(data, opts),
        Kind::Gzip => deflate::deflate_bytes_gzip_conf(data, opts, builder(gz)),
    }
}
fn gzh(kind: Kind, gz: u8) -> Vec<u8> {
    if kind == Kind::Gzip {
        builder(gz).into_header()
    } else {
        vec![]
    }
}

impl Ctx {
    /// One execution of a one-shot function.
    fn shot(&mut self, c: &Case, out: &[u8]) {
        self.traces += 1;
        self.transitions += 1;
        let o = mix(mix(c.opts.max_hash_checks as u64, c.opts.lazy_if_less_than as u64), c.opts.matching_type as u64 | (c.mode as u64) << 4);
        self.state(mix(o, mix(hash64(&c.data), hash64(out))));
        self.outcome(hash64(out));
    }
}

fn fam(c: Corpus, f: impl Fn(&Case, &mut Ctx) + Send + Sync + 'static) -> Family {
    let gen = c.gen.clone();
    Family::new(&c.name, &c.what, c.n, move |i, ctx| {
        let case = gen(i);
        ctx.describe(|| case.show());
        set_block_mode(case.mode);
        f(&case, ctx)
    })
}
fn named(mut f: Family, prefix: &str) -> Family {
    f.name = format!("{}{}", prefix, f.name);
    f
}

const ALWAYS: [&str; 2] = ["panic", "term"];

fn quick(t: &str) -> bool {
    t == "quick"
}

/// The standard one-shot input corpus.
fn corpus(tier: &str) -> Vec<Corpus> {
    let q = quick(tier);
    if SMALL {
        vec![
            s_bin(if q { 15 } else { 19 }, opts_core(), vec![0, 1, 2]),
            s_tern(if q { 9 } else { 12 }, opts_core(), vec![0, 1, 2]),
            s_quad(if q { 7 } else { 9 }, opts_few(), vec![0, 2]),
            s_pre(8, if q { 30 } else { 42 }, if q { 7 } else { 10 }, opts_core(), vec![0, 1, 2]),
            s_rep(if q { 5 } else { 8 }, 90, opts_core(), vec![0, 1, 2]),
            s_long(if q { 4 } else { 16 }, opts_core(), vec![0, 1, 2]),
        ]
    } else {
        vec![
            r_long(if q { vec![700_001] } else { vec![1 << 20, 2_000_003, 5_000_000] }, opts_few()),
            r_large(if q { vec![1_100_003, 4_300_001, 17_000_003] } else { vec![1_100_003, 4_300_001, 17_000_003, 40_000_001] }, vec![CompressionOptions::default(), CompressionOptions::huffman_only()]),
            r_bytes(opts_few()),
            r_short(if q { 7 } else { 10 }, opts_core()),
            r_len(if q { 300 } else { 700 }, opts_core()),
            r_runs(if q { 800 } else { 3000 }, opts_core()),
            r_bound(opts_core()),
            r_grid(opts_grid(), if q { 2 } else { N_MIXED }),
            r_dist(boundary_distances(), if q { vec![3, 4, 10, 11, 66, 67, 257, 258, 259] } else { (3..=259).collect() }, if q { opts_few()[..4].to_vec() } else { opts_core() }),
            r_edge(opts_few()[..4].to_vec(), if q { 9 } else { 1 }),
            r_tok(if q { vec![opts_core()[0], opts_core()[5], opts_core()[6]] } else { opts_core() }, if q { 4 } else { 40 }, if q { vec![0, 1, 2, 3, 100, 257, 258, 259] } else { (0..=262).step_by(3).chain([1, 2, 4, 5, 256, 257, 259, 260]).collect() }),
            r_seg(if q { 2 } else { 4 }, opts_few()),
            r_inc(if q { 2 } else { 12 }, vec![opts_core()[0], opts_core()[1]]),
            r_freq(if q { vec![1] } else { vec![1, 7, 11, 37] }, vec![CompressionOptions::huffman_only()]),
            r_mat(if q { 60 } else { 29 * 31 }, opts_few()),
            r_dfreq(if q { vec![CompressionOptions::default()] } else { opts_few() }),
            r_second(q),
        ]
    }
}

// ---- histories ---------------------------------------------------------------------------------

/// Payloads of the scaled-down build used with histories.
fn sp(n: usize) -> Arc<Vec<Vec<u8>>> {
    let all = strs_of(&[8, 4, 12, 0, 7, 9, 1, 6, 2, 3, 5, 10, 11]);
    Arc::new(all[..n].to_vec())
}
fn rp(n: usize) -> Arc<Vec<Vec<u8>>> {
    // Real payloads, long enough for several windows.
    let v: Vec<Vec<u8>> = [0u64, 1, 6, 3, 2]
        .iter()
        .take(n)
        .map(|&i| {
            let mut v = mixed(i);
            let w = v.clone();
            while v.len() < 240_000 {
                v.extend_from_slice(&w);
            }
            v.truncate(240_000);
            v
        })
        .collect();
    Arc::new(v)
}
fn space() -> Space {
    Space {
        kinds: vec![Kind::Raw],
        payloads: if SMALL { sp(4) } else { rp(2) },
        opts: vec![CompressionOptions::default(), o(32768, 0, G)],
        modes: if SMALL { vec![0, 2] } else { vec![0] },
        alphabet: vec![],
        depth: 3,
        min: 0,
        ends: vec![Op::Finish],
        policies: vec![Policy::Retry(3)],
        builders: vec![0],
    }
}
/// Write sizes: small ones, around the lookahead, the window and the input buffer, and several windows.
fn wr() -> Vec<Op> {
    if SMALL {
        vec![Op::Write(0), Op::Write(1), Op::Write(3), Op::Write(9), Op::WriteAll(22), Op::WriteAll(40)]
    } else {
        vec![Op::Write(0), Op::Write(1), Op::Write(300), Op::Write(32768), Op::WriteAll(65794), Op::WriteAll(100_000)]
    }
}
fn wra() -> Vec<Op> {
    if SMALL {
        vec![Op::WriteAll(1), Op::WriteAll(3), Op::WriteAll(9), Op::WriteAll(22)]
    } else {
        vec![Op::WriteAll(300), Op::WriteAll(32768), Op::WriteAll(65795)]
    }
}
fn plus(mut v: Vec<Op>, x: &[Op]) -> Vec<Op> {
    v.extend_from_slice(x);
    v
}

/// History families that only need a cooperating sink, with the clauses a property is about.
fn hist_ok(tier: &str, kinds: &[Kind], clauses: &'static [&'static str], builders: Vec<u8>) -> Vec<Family> {
    let q = quick(tier);
    let mut v = vec![];
    let mut s = space();
    s.kinds = kinds.to_vec();
    s.alphabet = plus(wr(), &[Op::Flush, Op::Reset]);
    s.ends = vec![Op::Finish, Op::Drop];
    s.builders = builders;
    if SMALL {
        s.depth = if q { 4 } else { 5 };
        s.payloads = if q { sp(3) } else { sp(8) };
        s.opts = vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle(), CompressionOptions::huffman_only()];
        s.modes = vec![0, 1, 2];
    } else {
        s.depth = if q { 2 } else { 3 };
        s.opts = if q { vec![CompressionOptions::default(), CompressionOptions::rle()] } else { opts_few() };
    }
    v.push(s.family("hist", "cooperating sink", move |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        exec(it, &s, clauses, ctx, false);
    }));
    v.push(std_writes(tier, kinds, clauses));
    v
}

/// The other writing methods of std::io::Write, which an encoder might override.
fn std_writes(tier: &str, kinds: &[Kind], clauses: &'static [&'static str]) -> Family {
    let q = quick(tier);
    let mut s = space();
    s.kinds = kinds.to_vec();
    s.ends = vec![Op::Finish, Op::Drop];
    s.policies = vec![Policy::Proceed];
    if SMALL {
        s.alphabet = vec![Op::Std(0), Op::Std(3), Op::Std(22), Op::Std(40), Op::Vec(2), Op::Vec(9), Op::Vec(50), Op::Flush];
        s.depth = if q { 3 } else { 4 };
        s.payloads = sp(if q { 2 } else { 4 });
    } else {
        s.alphabet = vec![Op::Std(0), Op::Std(300), Op::Std(65794), Op::Std(100_000), Op::Vec(300), Op::Vec(70_000), Op::Flush];
        s.depth = if q { 2 } else { 3 };
        s.payloads = rp(1);
        s.opts = vec![CompressionOptions::default()];
    }
    let pats = [vec![Ans::All], vec![Ans::One, Ans::Intr, Ans::Half], vec![Ans::Half]];
    s.family("std-writes", "Write::write_all and Write::write_vectored; accepting sink and two slow ones", move |it, ctx| {
        for p in &pats {
            let s = Script { pre: vec![], then: p.clone(), cap: None, empties: false };
            ctx.describe(|| it.show(&s));
            exec(it, &s, clauses, ctx, false);
        }
    })
}

/// Flushes between writes of every size.
fn hist_flush(tier: &str, kinds: &[Kind], clauses: &'static [&'static str]) -> Vec<Family> {
    let q = quick(tier);
    let mut v = vec![];
    let mut s = space();
    s.kinds = kinds.to_vec();
    s.ends = vec![Op::Finish];
    if SMALL {
        s.alphabet = vec![Op::WriteAll(1), Op::WriteAll(2), Op::WriteAll(4), Op::WriteAll(7), Op::WriteAll(13), Op::WriteAll(21), Op::Flush];
        s.depth = if q { 5 } else { 6 };
        s.payloads = if q { sp(2) } else { sp(6) };
        s.opts = if q { vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle()] } else { opts_few() };
        s.modes = if q { vec![0, 2] } else { vec![0, 1, 2] };
    } else {
        s.alphabet = vec![Op::WriteAll(1), Op::WriteAll(259), Op::WriteAll(32510), Op::WriteAll(32768), Op::WriteAll(65794), Op::Flush];
        s.depth = if q { 3 } else { 4 };
        s.payloads = rp(if q { 2 } else { 4 });
        s.opts = if q { vec![CompressionOptions::default(), CompressionOptions::rle()] } else { vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle(), CompressionOptions::huffman_only()] };
    }
    v.push(s.family("flush", "cooperating sink", move |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        exec(it, &s, clauses, ctx, false);
    }));
    // Two flushes at every pair of positions.
    let (n, pl, opts): (usize, Arc<Vec<Vec<u8>>>, Vec<CompressionOptions>) = if SMALL {
        (if q { 40 } else { 60 }, sp(if q { 6 } else { 13 }), opts_core())
    } else {
        (0, rp(1), vec![])
    };
    if SMALL {
        let (kinds, np) = (kinds.to_vec(), pl.len() as u64);
        let k = opts.len() as u64;
        let m = (n + 1) as u64;
        v.push(Family::new(
            "flush-pairs",
            &format!("flush at every pair of positions 0..={} of {} payloads, 60 bytes in all, x {} option sets x 3 block modes", n, np, k),
            m * m * np * k * 3 * kinds.len() as u64,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let opts = opts[take(k)];
                let mode = take(3) as u8;
                let kind = kinds[take(kinds.len() as u64)];
                let p = take(np);
                let (a, b) = (take(m), take(m));
                if a > b {
                    return;
                }
                set_block_mode(mode);
                let ops = [Op::WriteAll(a), Op::Flush, Op::WriteAll(b - a), Op::Flush, Op::WriteAll(60 - b), Op::Finish];
                let it = Item { h: Hist { kind, opts, payload: &pl[p], ops: &ops, policy: Policy::Proceed, gz: 0, check: true }, mode };
                let s = Script::ok();
                ctx.describe(|| it.show(&s));
                exec(&it, &s, clauses, ctx, false);
            },
        ));
    } else {
        // Real build: a flush at every boundary position.
        let mut pos: Vec<usize> = vec![0, 1, 2, 3, 4, 257, 258, 259, 260];
        for b in [31744usize, 32510, 32768, 33026, 65278, 65536, 65794, 98304] {
            for d in 0..=(if q { 3usize } else { 6 }) {
                pos.push(b + d);
                pos.push(b - d);
            }
        }
        pos.sort();
        pos.dedup();
        let pl = rp(if q { 3 } else { 5 });
        let opts = vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle(), CompressionOptions::fast(), CompressionOptions::huffman_only()];
        let second = [0usize, 1, 2, 258, 32768, 32769];
        let (np, nl, no, ns) = (pos.len() as u64, pl.len() as u64, if q { 3 } else { opts.len() as u64 }, second.len() as u64);
        v.push(Family::new(
            "flush-pos",
            &format!("flush at {} positions around every buffer limit, and again {:?} bytes later, {} payloads of 140 KB x {} option sets", np, second, nl, no),
            np * nl * no * ns,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let opts = opts[take(no)];
                let p = take(nl);
                let d = second[take(ns)];
                let a = pos[take(np)];
                let ops = [Op::WriteAll(a), Op::Flush, Op::WriteAll(d), Op::Flush, Op::WriteAll(140_000 - a - d), Op::Finish];
                let it = Item { h: Hist { kind: Kind::Raw, opts, payload: &pl[p], ops: &ops, policy: Policy::Proceed, gz: 0, check: true }, mode: 0 };
                let s = Script::ok();
                ctx.describe(|| it.show(&s));
                exec(&it, &s, clauses, ctx, false);
            },
        ));
        // A flush placed so that the next block fills up with a match that ends at a window edge.
        let edges = [32768i64, 65536, 98304];
        let lens: Vec<i64> = vec![3, 4, 258];
        let dists: Vec<i64> = if q { vec![300] } else { vec![259, 300, 8000] };
        let deltas: Vec<i64> = if q { vec![-1, 0, 1, 2] } else { vec![-2, -1, 0, 1, 2, 3, 257, 258] };
        let tails: Vec<i64> = if q { vec![0, 1, 300] } else { vec![0, 1, 2, 3, 300, 33000] };
        let opts = vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::high()];
        let dims = [3, lens.len() as u64, dists.len() as u64, deltas.len() as u64, tails.len() as u64, 3, 2, if q { 2 } else { 3 }];
        v.push(Family::new(
            "flush-block",
            &format!("a flush placed so that the token buffer fills (31744 tokens -1..+1) with a match ending {:?} bytes from the window edges {:?}: match lengths {:?}, distances {:?}, {:?} bytes after it, stored and Huffman-coded content, {} option sets", deltas, edges, lens, dists, tails, dims[7]),
            dims.iter().product(),
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let edge = edges[take(dims[0])];
                let l = lens[take(dims[1])];
                let d = dists[take(dims[2])];
                let e = edge + deltas[take(dims[3])];
                let n = e + tails[take(dims[4])];
                let p = e - l - 31743 + take(dims[5]) as i64 - 1;
                let huff = take(dims[6]) == 1;
                let opts = opts[take(dims[7])];
                let mut data = if huff { uniq7(n as usize).to_vec() } else { uniq(n as usize).to_vec() };
                for k in e - l..e {
                    data[k as usize] = data[(k - d) as usize];
                }
                let ops = [Op::WriteAll(p as usize), Op::Flush, Op::WriteAll((n - p) as usize), Op::Finish];
                let it = Item { h: Hist { kind: Kind::Raw, opts, payload: &data, ops: &ops, policy: Policy::Proceed, gz: 0, check: true }, mode: 0 };
                let s = Script::ok();
                ctx.describe(|| it.show(&s));
                exec(&it, &s, clauses, ctx, false);
            },
        ));
    }
    v
}

/// Long payloads for repeated calls.
fn long_payloads(n: usize) -> Arc<Vec<Vec<u8>>> {
    let c = if SMALL { s_long(16, vec![CompressionOptions::default()], vec![0]) } else { r_long(vec![900_000], vec![CompressionOptions::default()]) };
    // Mixed contents first.
    let pick: Vec<u64> = if SMALL { vec![8 + 13 * 3 + 169 * 15, 7 + 13 * 12 + 169 * 15, 6 + 13 * 6 + 169 * 15, 169 * 15, 10 + 13 * 9 + 169 * 15] } else { vec![N_CONTENT, 1, N_CONTENT + 6, 0, N_CONTENT + 3] };
    Arc::new(pick.iter().take(n).map(|&i| (c.gen)(i).data).collect())
}
/// Short call sequences repeated many times on one encoder.
fn cycles(tier: &str, kinds: &[Kind], end: &[Op], clauses: &'static [&'static str]) -> Family {
    let q = quick(tier);
    let mut s = space();
    s.kinds = kinds.to_vec();
    s.ends = end.to_vec();
    s.min = 1;
    s.policies = vec![Policy::Proceed];
    s.payloads = long_payloads(if q { 2 } else { 5 });
    let rounds = if SMALL { 30 } else { 10 };
    if SMALL {
        s.alphabet = vec![Op::Write(0), Op::Write(1), Op::WriteAll(2), Op::WriteAll(9), Op::WriteAll(22), Op::Flush, Op::Reset];
        s.depth = if q { 3 } else { 4 };
        s.opts = if q { vec![CompressionOptions::default(), o(32768, 0, G)] } else { opts_few() };
    } else {
        s.alphabet = vec![Op::Write(1), Op::WriteAll(300), Op::WriteAll(33000), Op::Flush, Op::Reset];
        s.depth = if q { 2 } else { 3 };
        s.opts = if q { vec![CompressionOptions::default()] } else { opts_few() };
    }
    s.family("cycles", &format!("each sequence repeated {} times on one encoder, cooperating sink", rounds), move |it, ctx| {
        let s = Script::ok();
        let n = it.h.ops.len() - 1;
        let mut ops = it.h.ops[..n].repeat(rounds);
        ops.push(it.h.ops[n]);
        let it = Item { h: Hist { ops: &ops, ..it.h.clone() }, mode: it.mode };
        ctx.describe(|| it.show(&s));
        exec(&it, &s, clauses, ctx, false);
    })
}

/// So many calls on one encoder that every 16-bit count of calls, flushes, resets, empty writes or blocks wraps.
fn many(tier: &str, kinds: &[Kind], ends: &[Op], clauses: &'static [&'static str]) -> Family {
    let q = quick(tier);
    let rounds: usize = if q { 66_000 } else { 140_000 };
    let cyc: Vec<Vec<Op>> = vec![
        vec![Op::Write(1)],
        vec![Op::Write(0)],
        vec![Op::Flush],
        vec![Op::Write(1), Op::Flush],
        vec![Op::Write(3), Op::Flush, Op::Write(0), Op::Flush],
        vec![Op::Reset],
        vec![Op::Write(9), Op::Reset],
        vec![Op::Write(0), Op::Reset],
        vec![Op::Flush, Op::Reset],
        vec![Op::Write(9), Op::Flush, Op::Write(1), Op::Reset],
    ];
    let firsts: Vec<usize> = if SMALL { vec![0, 50, 700_000] } else { vec![0, 70_000] };
    let opts = if q { vec![CompressionOptions::default()] } else { vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle(), CompressionOptions::huffman_only()] };
    let (kinds, ends) = (kinds.to_vec(), ends.to_vec());
    let dims = [cyc.len() as u64, firsts.len() as u64, opts.len() as u64, kinds.len() as u64, ends.len() as u64];
    let mut pay: Vec<u8> = long_payloads(1)[0].clone();
    while pay.len() < 700_000 + 4 * rounds {
        let c = pay.clone();
        pay.extend_from_slice(&c);
    }
    let what = format!("each of {:?} repeated {} times on one encoder x first write of {:?} bytes x {} option sets x {:?} x ends {:?}; every flush, every reset and the final streams checked", cyc, rounds, firsts, opts.len(), kinds, ends);
    Family::new("many", &what, dims.iter().product(), move |idx, ctx| {
        let mut i = idx;
        let mut take = |k: u64| {
            let r = i % k;
            i /= k;
            r as usize
        };
        let cy = &cyc[take(dims[0])];
        let first = firsts[take(dims[1])];
        let op = opts[take(dims[2])];
        let kind = kinds[take(dims[3])];
        let end = ends[take(dims[4])];
        set_block_mode(0);
        ctx.describe(|| format!("{:?} first write {} then {:?} x {} then {:?} {}", kind, first, cy, rounds, end, show_opts(&op)));
        let resets = cy.contains(&Op::Reset);
        let mut bad: Vec<(&'static str, String)> = vec![];
        let put = |e: &mut Enc, d: &[u8], bad: &mut Vec<(&'static str, String)>| {
            let mut p = 0;
            let mut idle = 0;
            while p < d.len() || d.is_empty() {
                match e.write(&d[p..]) {
                    Ok(k) if k <= d.len() - p && (k > 0 || d.is_empty()) => p += k,
                    Err(e) if e.kind() == io::ErrorKind::Interrupted && idle < 50 => {
                        idle += 1;
                        continue;
                    }
                    r => {
                        bad.push(("write-count", format!("write of {} bytes returned {:?}", d.len() - p, r)));
                        return;
                    }
                }
                idle = 0;
                if d.is_empty() {
                    return;
                }
            }
        };
        let mut fresh: Vec<Vec<u8>> = vec![];
        if resets {
            for k in 0..7 {
                let (s, d) = plain_sink(0);
                let mut e = Enc::new(kind, op, 0, s);
                let mut p = k;
                for c in cy {
                    match c {
                        Op::Write(n) => {
                            put(&mut e, &pay[p..p + n], &mut bad);
                            p += n;
                        }
                        Op::Flush => e.flush().unwrap(),
                        _ => {}
                    }
                }
                let _ = e.finish();
                fresh.push(d.borrow().clone());
            }
        }
        let (s, mut data) = plain_sink(0);
        let mut e = Enc::new(kind, op, 0, s);
        put(&mut e, &pay[..first], &mut bad);
        // The current stream holds pay[start..p].
        let (mut start, mut p) = (0, first);
        let mut done = 0;
        for r in 0..rounds {
            if resets && r > 0 {
                p = r % 7;
                start = p;
            }
            for c in cy {
                match c {
                    Op::Write(n) => {
                        put(&mut e, &pay[p..p + n], &mut bad);
                        p += n;
                    }
                    Op::Flush => {
                        if let Err(x) = e.flush() {
                            bad.push(("spurious-error", format!("flush in round {}: {}", r, x)));
                        }
                        if !data.borrow().ends_with(&[0, 0, 0xff, 0xff]) {
                            bad.push(("flush-incomplete", format!("no sync point after the flush in round {}", r)));
                        }
                    }
                    _ => {
                        let (s, d) = plain_sink(r + 1);
                        match e.reset(s, None) {
                            Ok(old) if old.id == r => {}
                            Ok(old) => bad.push(("returned-writer", format!("reset {} returned writer {}", r, old.id))),
                            Err(x) => bad.push(("spurious-error", format!("reset {}: {}", r, x))),
                        }
                        let old = data.borrow();
                        if r == 0 {
                            if let Err(m) = check_complete(kind, &old, &pay[start..p], &gzh(kind, 0), &LIM) {
                                bad.push(("reset-incomplete", format!("first stream: {}", m)));
                            }
                        } else if *old != fresh[r % 7] {
                            bad.push(("reset", format!("stream {} is {} instead of {}", r, hex(&old), hex(&fresh[r % 7]))));
                            if let Err(m) = check_complete(kind, &old, &pay[start..p], &gzh(kind, 0), &LIM) {
                                bad.push(("reset-incomplete", format!("stream {}: {}", r, m)));
                            }
                        }
                        drop(old);
                        data = d;
                        start = 0;
                        p = 0;
                    }
                }
            }
            if r % 4096 < 3 || (65_530..65_545).contains(&r) {
                let acc = &pay[start..p];
                let want = match kind {
                    Kind::Raw => None,
                    Kind::Zlib => Some(adler32(acc)),
                    Kind::Gzip => Some(crc32(acc)),
                };
                if e.checksum() != want {
                    bad.push(("checksum", format!("after round {}: checksum() is {:x?}, expected {:x?}", r, e.checksum(), want)));
                }
            }
            done = r + 1;
            if !bad.is_empty() {
                break;
            }
        }
        if end == Op::Drop {
            drop(e);
        } else if let Err(x) = e.finish() {
            bad.push(("spurious-error", format!("finish: {}", x)));
        }
        let d = data.borrow();
        if let Err(m) = check_complete(kind, &d, &pay[start..p], &gzh(kind, 0), &LIM) {
            bad.push((if end == Op::Drop { "drop-incomplete" } else { "finish-incomplete" }, format!("after {} rounds: {}", done, m)));
        }
        ctx.traces += 1;
        ctx.transitions += (done * cy.len()) as u64 + 2;
        ctx.state(hash64(&d));
        for (c, m) in bad {
            if clauses.contains(&c) {
                ctx.fail(c, m);
                return;
            }
        }
    })
}

/// All sink faults up to k deviations.
#[allow(clippy::too_many_arguments)]
fn hist_faults(name: &'static str, s: Space, alts: &'static [Ans], k: u32, horizon: usize, clauses: &'static [&'static str]) -> Family {
    s.family(name, &format!("at every history all sink answer sequences with <= {} deviations from {:?} within the first {} sink calls", k, alts, horizon), move |it, ctx| {
        let base = Script::ok();
        ctx.describe(|| it.show(&base));
        explore(it, &base, alts, k, horizon, ctx, &mut |s, r, ctx| account(it, s, r, clauses, ctx));
    })
}
/// Sinks that follow a cyclic pattern forever.
fn hist_cyclic(name: &'static str, s: Space, pats: Vec<Vec<Ans>>, clauses: &'static [&'static str]) -> Family {
    s.family(name, &format!("at every history {} cyclic sink patterns", pats.len()), move |it, ctx| {
        for p in &pats {
            let s = Script { pre: vec![], then: p.clone(), cap: None, empties: false };
            ctx.describe(|| it.show(&s));
            exec(it, &s, clauses, ctx, false);
        }
    })
}

const ERRS: &[Ans] = &[Ans::One, Ans::Zero, Ans::Intr, Ans::Block, Ans::Other];
const SOFT: &[Ans] = &[Ans::One, Ans::Half, Ans::AllBut1, Ans::Intr];

fn fault_space(q: bool, kinds: &[Kind], pol: Vec<Policy>) -> Space {
    let mut s = space();
    s.kinds = kinds.to_vec();
    s.ends = vec![Op::Finish, Op::Drop];
    s.policies = pol;
    s.alphabet = plus(if SMALL { vec![Op::Write(0), Op::Write(1), Op::Write(9), Op::WriteAll(22)] } else { vec![Op::Write(300), Op::WriteAll(100_000)] }, &[Op::Flush, Op::Reset]);
    s.opts = vec![CompressionOptions::default()];
    s.depth = if SMALL {
        if q { 4 } else { 5 }
    } else {
        2
    };
    s.payloads = if SMALL { sp(if q { 2 } else { 4 }) } else { rp(1) };
    s.modes = if SMALL { vec![0, 2] } else { vec![0] };
    s
}
fn fault_families(tier: &str, kinds: &[Kind], pol: Vec<Policy>, alts: &'static [Ans], clauses: &'static [&'static str]) -> Vec<Family> {
    let q = quick(tier);
    let mut v = vec![];
    let mut a = fault_space(q, kinds, pol.clone());
    if !SMALL {
        a.depth = if q { 1 } else { 2 };
    }
    v.push(hist_faults("faults1", a, alts, 1, if SMALL { 60 } else { 12 }, clauses));
    let mut b = fault_space(q, kinds, pol);
    b.depth = if SMALL { 3 } else { 1 };
    if SMALL && !q {
        let mut c = b.clone();
        c.depth = 2;
        c.payloads = sp(2);
        c.modes = vec![0];
        v.push(hist_faults("faults3", c, alts, 3, 12, clauses));
    }
    if !SMALL && q {
        b.alphabet = vec![Op::WriteAll(100_000), Op::Flush, Op::Reset];
    }
    // A sink which answers to calls without data like to any other.
    let mut e = b.clone();
    e.depth = if SMALL { if q { 3 } else { 4 } } else if q { 2 } else { 3 };
    if SMALL {
        e.alphabet = plus(vec![Op::Write(1), Op::Write(22)], &[Op::Flush, Op::Reset]);
    } else {
        e.alphabet = vec![Op::WriteAll(300), Op::Flush, Op::Reset];
    }
    e.modes = vec![0];
    v.push(e.family("faults-empty", &format!("at every history all answer sequences with <= 2 deviations from {:?} within the first 12 sink calls, those without data included", alts), move |it, ctx| {
        let mut base = Script::ok();
        base.empties = true;
        ctx.describe(|| it.show(&base));
        explore(it, &base, alts, 2, 12, ctx, &mut |s, r, ctx| account(it, s, r, clauses, ctx));
    }));
    let mut h = b.clone();
    v.push(hist_faults("faults2", b, alts, 2, if SMALL { if q { 16 } else { 40 } } else { 6 }, clauses));
    if kinds.contains(&Kind::Gzip) {
        h.kinds = vec![Kind::Gzip];
        h.builders = vec![3, if SMALL { 6 } else { 8 }];
        h.alphabet.push(Op::ResetB(if SMALL { 6 } else { 8 }));
        v.push(hist_faults("faults-header", h, alts, 1, if SMALL { 40 } else { 12 }, clauses));
    }
    v
}

/// Every other error kind of std, once at every sink call, and for ever from every sink call on.
fn kind_faults(tier: &str, kinds: &[Kind], pol: Vec<Policy>, clauses: &'static [&'static str]) -> Vec<Family> {
    let q = quick(tier);
    let mut s = fault_space(q, kinds, pol);
    if SMALL {
        s.alphabet = vec![Op::Write(9), Op::WriteAll(22), Op::Flush, Op::Reset];
        s.depth = if q { 2 } else { 3 };
        s.payloads = sp(1);
    } else {
        s.alphabet = vec![Op::WriteAll(100_000), Op::Flush, Op::Reset];
        s.depth = 1;
    }
    let what = format!("at every history each of {} further error kinds of std ({:?} ...), at every sink call, once, twice and for ever", KIND_LIST.len(), &KIND_LIST[..4]);
    vec![s.family("error-kinds", &what, move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        let base = exec(it, &ok, clauses, ctx, true);
        for at in 0..base.log.len() {
            for k in 0..KIND_LIST.len() {
                let a = Ans::K(k as u8);
                let mut pre = vec![Ans::All; at];
                let sustained = Script { pre: pre.clone(), then: vec![a], cap: None, empties: false };
                pre.push(a);
                let once = Script { pre: pre.clone(), then: vec![Ans::All], cap: None, empties: false };
                pre.push(a);
                let twice = Script { pre, then: vec![Ans::All], cap: None, empties: false };
                for s in [once, twice, sustained] {
                    exec(it, &s, clauses, ctx, false);
                }
                if !ctx.viols.is_empty() {
                    return;
                }
            }
        }
    })]
}

// ---- simple sinks ------------------------------------------------------------------------------

#[derive(Clone, Default)]
struct Shared(Rc<RefCell<Vec<u8>>>);
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn enc_bytes(kind: Kind, data: &[u8], opts: CompressionOptions, gz: u8) -> Vec<u8> {
    match kind {
        Kind::Raw => {
            let mut e = DeflateEncoder::new(Vec::new(), opts);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Kind::Zlib => {
            let mut e = ZlibEncoder::new(Vec::new(), opts);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Kind::Gzip => {
            let mut e = GzEncoder::from_builder(builder(gz), Vec::new(), opts);
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
    }
}

// ---- C01 .. C04 --------------------------------------------------------------------------------

fn miniz(out: &[u8]) -> Result<Vec<u8>, String> {
    miniz_oxide::inflate::decompress_to_vec(out).map_err(|e| format!("{:?}", e))
}

fn check_c01(c: &Case, ctx: &mut Ctx) {
    let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &out);
    match inflate(&out, &inflate::Limits { window: 32768, max_match: 258, want_toks: false }) {
        Ok(d) if matches!(d.end, inflate::End::Final { .. }) && d.out == c.data => {}
        r => {
            // Not strictly valid: ask a lenient decoder whether it still decompresses to the input.
            ctx.count("decided by the second decoder", 1);
            match miniz(&out) {
                Ok(d) if d == c.data => {}
                m => ctx.fail(
                    "roundtrip",
                    format!(
                        "{} input bytes do not decompress to themselves: {} / {} | out={}",
                        c.data.len(),
                        match r {
                            Ok(d) => format!("{:?}, {} bytes, equal prefix {}", d.end, d.out.len(), d.out.iter().zip(&c.data).take_while(|(a, b)| a == b).count()),
                            Err(e) => e,
                        },
                        match m {
                            Ok(d) => format!("second decoder: {} bytes", d.len()),
                            Err(e) => e,
                        },
                        hex(&out)
                    ),
                ),
            }
        }
    }
}

fn check_complete_case(kind: Kind, gz: u8, c: &Case, ctx: &mut Ctx) {
    let out = oneshot(kind, &c.data, c.opts, gz);
    ctx.shot(c, &out);
    if let Err(e) = check_complete(kind, &out, &c.data, &gzh(kind, gz), &LIM) {
        ctx.fail("stream", format!("{} | out={}", e, hex(&out)));
    }
}

/// Data that is hard on checksum implementations, written in one or several calls: checksum() after each, and the
/// trailers of the encoder and of the one-shot function.
fn sums(tier: &str, kinds: &[Kind]) -> Vec<Family> {
    if SMALL {
        return vec![];
    }
    let q = quick(tier);
    let mut datas: Vec<Vec<u8>> = vec![];
    // Sizes around where the sums of Adler-32 have to be reduced, and around powers of two.
    let mut sizes: Vec<usize> = vec![];
    for n in [256usize, 3854, 4096, 5552, 5804, 8192, 11104, 16384, 16656, 22208, 27760, 33312, 65521, 65536, 200_000] {
        for d in if q { vec![0] } else { vec![-1i64, 0, 1] } {
            sizes.push((n as i64 + d) as usize);
        }
    }
    for &n in &sizes {
        for b in [0u8, 1, 127, 128, 254, 255] {
            datas.push(vec![b; n]);
        }
        datas.push(uniq(n).to_vec());
        // Starting with the largest values of the sums.
        for first in [[255u8; 256].iter().copied().chain([239]).collect::<Vec<u8>>(), [255u8; 256].iter().copied().chain([240]).collect()] {
            let mut v = first;
            v.extend(std::iter::repeat(255).take(n));
            datas.push(v);
        }
    }
    // Checksums with special values.
    for base in [&b""[..], b"a", b"hello hello hello hello", uniq(1000)] {
        for t in [0u32, 1, 0xff, 0xff00_0000, 0x8000_0000, !0] {
            let mut v = base.to_vec();
            v.extend_from_slice(&crc_force(base, t));
            assert_eq!(crc32(&v), t);
            datas.push(v);
        }
    }
    for i in 0..=256usize {
        let mut v = vec![255u8; 257];
        v[i] = 240;
        assert_eq!(adler32(&v) & 0xffff, 0);
        datas.push(v);
    }
    let splits: Vec<usize> = vec![0, 1, 257, 4096, 5553, 65_000];
    let (nd, ns, nk) = (datas.len() as u64, splits.len() as u64, kinds.len() as u64);
    let kinds = kinds.to_vec();
    vec![Family::new(
        "sums",
        &format!("{} inputs (extreme bytes, lengths around {:?}, checksums with special values) x first write of {:?} bytes x {:?}: checksum() after each write, trailers", nd, sizes, splits, kinds),
        nd * ns * nk,
        move |idx, ctx| {
            let kind = kinds[(idx % nk) as usize];
            let s = splits[(idx / nk % ns) as usize];
            let d = &datas[(idx / nk / ns) as usize];
            let s = s.min(d.len());
            let op = CompressionOptions::fast();
            ctx.describe(|| format!("{:?} {} bytes {} first write of {}", kind, d.len(), hex(&d[..d.len().min(40)]), s));
            let sum = |d: &[u8]| if kind == Kind::Zlib { adler32(d) } else { crc32(d) };
            let mut outs: Vec<Vec<u8>> = vec![oneshot(kind, d, op, 0)];
            macro_rules! go {
                ($e:expr) => {{
                    let mut e = $e;
                    let mut p = 0;
                    for part in [&d[..s], &d[s..]] {
                        e.write_all(part).unwrap();
                        p += part.len();
                        if e.checksum() != sum(&d[..p]) {
                            ctx.fail("checksum", format!("{:?}: checksum() {:08x} after {} bytes, expected {:08x}", kind, e.checksum(), p, sum(&d[..p])));
                        }
                    }
                    outs.push(e.finish().unwrap());
                }};
            }
            match kind {
                Kind::Raw => return,
                Kind::Zlib => go!(ZlibEncoder::new(Vec::new(), op)),
                Kind::Gzip => go!(GzEncoder::new(Vec::new(), op)),
            }
            ctx.traces += 2;
            ctx.transitions += 4;
            for o in outs {
                ctx.state(hash64(&o));
                if let Err(e) = check_complete(kind, &o, d, &gzh(kind, 0), &LIM) {
                    ctx.fail("stream", format!("{} | out={}", e, hex(&o)));
                }
            }
        },
    )]
}

const STREAM: &[&str] = &["panic", "term", "prefix", "finish-incomplete", "drop-incomplete", "reset-incomplete", "flush-incomplete"];

/// What the header for builder i must say, independently of the gzip_header crate's serialiser.
fn check_builder_header(i: u8, h: &GzHeader) -> Result<(), String> {
    let mut w = GzHeader { os: 255, ..Default::default() };
    match i {
        0 => {}
        1 => w.name = Some(b"n".to_vec()),
        2 => {
            w.comment = Some(b"a comment".to_vec());
            w.mtime = 0x01020304;
        }
        3 => {
            w.extra = Some(b"\x01\x02\x02\x00zz".to_vec());
            w.name = Some(b"file.txt".to_vec());
            w.comment = Some(b"c".to_vec());
        }
        4 => {
            w.xfl = 2;
        }
        5 => {
            w.os = 3;
            w.name = Some(vec![]);
        }
        6 => {
            w.extra = Some(vec![7; 300]);
            w.mtime = u32::MAX;
        }
        8 => {
            w.extra = Some(vec![9; 65535]);
            w.name = Some(vec![b'n'; 40_000]);
        }
        _ => {
            w.name = Some(b"x".to_vec());
            w.os = 11;
            w.mtime = 1;
            w.extra = Some(vec![]);
        }
    }
    let mut g = h.clone();
    g.len = 0;
    g.hcrc = false;
    // The OS default depends on the header crate; only compare where the builder set it.
    if !matches!(i, 5 | 7) {
        g.os = 255;
    }
    // An empty name/extra may be left out.
    if w.name == Some(vec![]) && g.name.is_none() {
        w.name = None;
    }
    if w.extra == Some(vec![]) && g.extra.is_none() {
        w.extra = None;
    }
    if g != w {
        return Err(format!("header {:?}, expected {:?}", g, w));
    }
    Ok(())
}

fn gz_stream_check(out: &[u8], data: &[u8], i: u8) -> Result<(), String> {
    let h = parse_gz_header(out)?;
    check_builder_header(i, &h)?;
    let body = &out[h.len..];
    let d = inflate(body, &LIM)?;
    let p = match d.end {
        inflate::End::Final { byte_pos } => byte_pos,
        e => return Err(format!("{:?}", e)),
    };
    if d.out != data {
        return Err("wrong data".into());
    }
    let mut t = crc32(data).to_le_bytes().to_vec();
    t.extend_from_slice(&(data.len() as u32).to_le_bytes());
    if body[p..] != t[..] {
        return Err(format!("trailer {:02x?}, expected {:02x?}", &body[p..], t));
    }
    Ok(())
}

/// More than 4 GiB of input: every 32-bit count wraps.
fn huge(tier: &str, kind: Kind) -> Vec<Family> {
    if SMALL {
        return vec![];
    }
    let q = quick(tier);
    let sizes: Vec<u64> = if q { vec![(1 << 32) + 5] } else { vec![(1 << 32) - 1, 1 << 32, (1 << 32) + 5, (1 << 32) + (1 << 31) + 77] };
    let opts = if q { vec![CompressionOptions::rle()] } else { vec![CompressionOptions::rle(), CompressionOptions::default()] };
    let (ns, no) = (sizes.len() as u64, opts.len() as u64);
    vec![Family::new("huge", &format!("{:?}: zero bytes and a short ending, {:?} bytes in all, in one write_all and in writes of 1000003 bytes, {} option sets; decoded by miniz_oxide", kind, sizes, no), ns * no * 2, move |idx, ctx| {
        const END: &[u8] = b"ending";
        let chunked = idx % 2 == 1;
        let n = sizes[(idx / 2 % ns) as usize];
        let op = opts[(idx / 2 / ns) as usize];
        ctx.describe(|| format!("{:?} {} bytes chunked={} {}", kind, n, chunked, show_opts(&op)));
        let z = n - END.len() as u64;
        // Never written to, so it takes no memory.
        let zeros = vec![0u8; if chunked { 1_000_003 } else { z as usize }];
        let sh = Shared::default();
        macro_rules! go {
            ($e:expr, $c:expr) => {{
                let mut e = $e;
                let mut left = z;
                while left > 0 {
                    let k = left.min(zeros.len() as u64) as usize;
                    e.write_all(&zeros[..k]).unwrap();
                    left -= k as u64;
                    ctx.transitions += 1;
                }
                e.write_all(END).unwrap();
                let c: Option<u32> = ($c)(&e);
                e.finish().unwrap();
                c
            }};
        }
        let (sum, want) = match kind {
            Kind::Raw => (go!(DeflateEncoder::new(sh.clone(), op), |_: &DeflateEncoder<Shared>| None), None),
            Kind::Zlib => (go!(ZlibEncoder::new(sh.clone(), op), |e: &ZlibEncoder<Shared>| Some(e.checksum())), Some(adler32_zeros(z, END))),
            Kind::Gzip => (go!(GzEncoder::new(sh.clone(), op), |e: &GzEncoder<Shared>| Some(e.checksum())), Some(crc32_zeros(z, END))),
        };
        ctx.traces += 1;
        ctx.transitions += 2;
        let out = sh.0.borrow();
        ctx.state(hash64(&out));
        if sum != want {
            ctx.fail("checksum", format!("checksum() is {:08x?}, expected {:08x?}", sum, want));
        }
        let head = match kind {
            Kind::Raw => 0,
            Kind::Zlib => 2,
            Kind::Gzip => 10,
        };
        // Decode piecewise.
        use miniz_oxide::inflate::stream::{inflate as step, InflateState};
        let mut st = InflateState::new_boxed(miniz_oxide::DataFormat::Raw);
        let (mut buf, none) = (vec![0u8; 1 << 20], vec![0u8; 1 << 20]);
        let (mut p, mut total, mut tail) = (head, 0u64, vec![]);
        loop {
            let r = step(&mut st, &out[p.min(out.len())..], &mut buf, miniz_oxide::MZFlush::None);
            p += r.bytes_consumed;
            let got = &buf[..r.bytes_written];
            let k = z.saturating_sub(total).min(got.len() as u64) as usize;
            if got[..k] != none[..k] {
                ctx.fail("stream", format!("wrong data after {} bytes", total));
                return;
            }
            tail.extend_from_slice(&got[k..]);
            total += r.bytes_written as u64;
            match r.status {
                Ok(miniz_oxide::MZStatus::StreamEnd) => break,
                Ok(_) if r.bytes_written > 0 => {}
                x => {
                    ctx.fail("stream", format!("after {} bytes the decoder says {:?}", total, x));
                    return;
                }
            }
        }
        let mut want_end = match kind {
            Kind::Raw => vec![],
            Kind::Zlib => want.unwrap().to_be_bytes().to_vec(),
            Kind::Gzip => want.unwrap().to_le_bytes().to_vec(),
        };
        if kind == Kind::Gzip {
            want_end.extend_from_slice(&(n as u32).to_le_bytes());
        }
        if tail != END || out[p..] != want_end[..] {
            ctx.fail("stream", format!("decodes to {} bytes instead of {}, ends in {:?}, trailer {} instead of {}", total, n, tail, hex(&out[p..]), hex(&want_end)));
        }
    })]
}

// ---- C05 ---------------------------------------------------------------------------------------

fn run_chunks(kind: Kind, opts: CompressionOptions, data: &[u8], chunks: &mut dyn Iterator<Item = usize>, ctx: &mut Ctx) -> Vec<u8> {
    let sh = Shared::default();
    let mut calls = 0u64;
    macro_rules! go {
        ($e:expr) => {{
            let mut e = $e;
            let mut p = 0;
            while p < data.len() {
                let n = chunks.next().unwrap_or(usize::MAX).min(data.len() - p);
                if n == 0 {
                    // (write_all does not call write for this.)
                    let mut tries = 0;
                    let n = loop {
                        match e.write(&[]) {
                            Err(x) if x.kind() == io::ErrorKind::Interrupted && tries < 100 => tries += 1,
                            r => break r.unwrap(),
                        }
                    };
                    assert_eq!(n, 0);
                }
                e.write_all(&data[p..p + n]).unwrap();
                calls += 1;
                p += n;
            }
            e.finish().unwrap();
        }};
    }
    match kind {
        Kind::Raw => go!(DeflateEncoder::new(sh.clone(), opts)),
        Kind::Zlib => go!(ZlibEncoder::new(sh.clone(), opts)),
        Kind::Gzip => go!(GzEncoder::new(sh.clone(), opts)),
    }
    ctx.traces += 1;
    ctx.transitions += calls + 1;
    let v = sh.0.borrow().clone();
    ctx.state(mix(hash64(&v), calls));
    ctx.outcome(hash64(&v));
    v
}

/// The whole corpus case in one write, in two, and (if short) byte by byte, against the one-shot function.
fn check_c05(c: &Case, ctx: &mut Ctx) {
    let n = c.data.len();
    let mut ways: Vec<Vec<usize>> = vec![vec![n], vec![n / 2, n - n / 2]];
    if n <= 64 {
        ways.push(vec![1; n]);
    }
    let a = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &a);
    for w in ways {
        let b = run_chunks(Kind::Raw, c.opts, &c.data, &mut w.iter().copied(), ctx);
        if a != b {
            ctx.fail("split", format!("{} written as {:?} gives {} instead of {} | data={}", show_opts(&c.opts), &w[..w.len().min(8)], hex(&b), hex(&a), hex(&c.data)));
        }
    }
}

fn c05(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let mut v: Vec<Family> = if SMALL {
        vec![
            fam(s_bin(if q { 13 } else { 18 }, opts_core(), vec![0, 2]), check_c05),
            fam(s_tern(if q { 8 } else { 11 }, opts_core(), vec![0, 2]), check_c05),
            fam(s_pre(8, if q { 24 } else { 42 }, if q { 5 } else { 10 }, opts_core(), vec![0, 2]), check_c05),
            fam(s_rep(if q { 4 } else { 8 }, 90, opts_core(), vec![0, 1, 2]), check_c05),
        ]
    } else {
        corpus(tier).into_iter().filter(|c| !q || ["r-short", "r-len", "r-runs", "r-seg", "r-bound", "r-long", "r-large"].contains(&c.name.as_str())).map(|c| fam(c, check_c05)).collect()
    };
    let cmp = |kind: Kind, opts: CompressionOptions, data: &[u8], chunks: Vec<usize>, ctx: &mut Ctx| {
        let a = oneshot(kind, data, opts, 0);
        let b = run_chunks(kind, opts, data, &mut chunks.iter().copied(), ctx);
        if a != b {
            ctx.fail("split", format!("{:?} {} written as {:?}... gives {} instead of {} | data={}", kind, show_opts(&opts), &chunks[..chunks.len().min(40)], hex(&b), hex(&a), hex(data)));
        }
    };
    if SMALL {
        let opts = if q { vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle()] } else { opts_core() };
        let pl = sp(if q { 5 } else { 13 });
        // All compositions of m bytes after a first write of s bytes.
        let starts = [0usize, 5, 13, 16, 21, 29];
        let m = if q { 11u32 } else { 14 };
        let (no, np) = (opts.len() as u64, pl.len() as u64);
        let (o2, p2) = (opts.clone(), pl.clone());
        v.push(Family::new(
            "compositions",
            &format!("first write of {:?} bytes, then all 2^{} ways of splitting {} bytes, then the rest of 60 bytes; {} payloads x {} option sets x 2 modes", starts, m - 1, m, np, no),
            starts.len() as u64 * 2u64.pow(m - 1) * no * np * 2,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let op = o2[take(no)];
                let mode = [0u8, 2][take(2)];
                let d = &p2[take(np)][..60];
                let s = starts[take(6)];
                let bits = take(2u64.pow(m - 1));
                let mut ch = vec![s];
                let mut cur = 1;
                for b in 0..m - 1 {
                    if bits >> b & 1 == 1 {
                        ch.push(cur);
                        cur = 0;
                    }
                    cur += 1;
                }
                ch.push(cur);
                set_block_mode(mode);
                cmp(Kind::Raw, op, d, ch, ctx);
            },
        ));
        // All pairs of split points over the whole payload, all kinds.
        let n = 60u64;
        let (o2, p2) = (opts_core(), sp(if q { 6 } else { 13 }));
        let (no, np) = (o2.len() as u64, p2.len() as u64);
        v.push(Family::new("pairs", &format!("every pair of split points (also equal: an empty write) of {} bytes; {} payloads x {} option sets x 3 kinds x 2 modes", n, np, no), (n + 1) * (n + 1) * no * np * 6, move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = o2[take(no)];
            let mode = [0u8, 2][take(2)];
            let kind = KINDS[take(3)];
            let d = &p2[take(np)][..n as usize];
            let (a, b) = (take(n + 1), take(n + 1));
            if a > b {
                return;
            }
            set_block_mode(mode);
            cmp(kind, op, d, vec![a, b - a, 60], ctx);
        }));
        let (o2, p2) = (opts_core(), sp(13));
        v.push(Family::new("uniform", "uniform chunk sizes 1..=64, alternating sizes (a,b) with a,b in 1..=24, 13 payloads x 9 option sets x 3 modes", (64 + 576) * 13 * 9 * 3, move |idx, ctx| {
            let op = o2[(idx % 9) as usize];
            let mode = (idx / 9 % 3) as u8;
            let d = &p2[(idx / 27 % 13) as usize];
            let k = idx / 27 / 13;
            let ch = if k < 64 { vec![k as usize + 1; 64] } else { [(k as usize - 64) % 24 + 1, (k as usize - 64) / 24 + 1].repeat(32) };
            set_block_mode(mode);
            cmp(Kind::Raw, op, d, ch, ctx);
        }));
    } else {
        let pl = rp(if q { 3 } else { 5 });
        let opts = if q { vec![CompressionOptions::default(), o(32768, 0, G)] } else { opts_few() };
        let mut pos: Vec<usize> = vec![1, 2, 3, 4, 257, 258, 259];
        for b in [31744usize, 32510, 32768, 33026, 65278, 65536, 65794, 66052, 98304, 98562] {
            for d in 0..=(if q { 2usize } else { 8 }) {
                pos.push(b + d);
                pos.push(b - d);
            }
        }
        pos.sort();
        pos.dedup();
        let (no, np, nl) = (opts.len() as u64, pos.len() as u64, pl.len() as u64);
        let (o2, p2, po) = (opts.clone(), pl.clone(), pos.clone());
        let sec = [0usize, 1, 2, 258, 32768, 65536];
        v.push(Family::new("split-pos", &format!("split at {} positions around every buffer limit and again {:?} bytes later; {} payloads of 140 KB x {} option sets", np, sec, nl, no), no * np * nl * 6, move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = o2[take(no)];
            let d = &p2[take(nl)][..140_000];
            let s = sec[take(6)];
            let a = po[take(np)];
            let kind = KINDS[(a + s) % 3];
            cmp(kind, op, d, vec![a, s], ctx);
        }));
        let sizes: Vec<usize> = (1..=40).chain([64, 100, 127, 128, 255, 256, 257, 258, 259, 260, 511, 512, 1000, 4096, 8192, 16384, 31744, 32509, 32510, 32511, 32767, 32768, 32769, 33025, 33026, 33027, 65535, 65536, 65793, 65794, 65795]).collect();
        let ns = sizes.len() as u64;
        let (o2, p2) = (opts, pl);
        v.push(Family::new("chunks", &format!("uniform chunk sizes {:?}; {} payloads of 240 KB x {} option sets", sizes, nl, no), ns * no * nl, move |idx, ctx| {
            let op = o2[(idx % no) as usize];
            let d = &p2[(idx / no % nl) as usize];
            let s = sizes[(idx / no / nl) as usize];
            cmp(KINDS[s % 3], op, d, vec![s; d.len() / s + 1], ctx);
        }));
    }
    v
}

/// Writes `chunks` (then the rest) with a flush whenever one of the (ascending) positions is reached, in pieces that do not cross them.
fn run_cut_chunks(kind: Kind, opts: CompressionOptions, data: &[u8], cuts: &[usize], chunks: &mut dyn Iterator<Item = usize>, ctx: &mut Ctx) -> Vec<u8> {
    let sh = Shared::default();
    let mut calls = 0u64;
    macro_rules! go {
        ($e:expr) => {{
            let mut e = $e;
            let mut p = 0;
            for (k, &end) in cuts.iter().chain([&data.len()]).enumerate() {
                while p < end {
                    let n = chunks.next().unwrap_or(usize::MAX).min(end - p);
                    if n == 0 {
                        // (write_all does not call write for this.)
                        let mut tries = 0;
                        while let Err(x) = e.write(&[]) {
                            assert!(x.kind() == io::ErrorKind::Interrupted && tries < 100);
                            tries += 1;
                        }
                    }
                    e.write_all(&data[p..p + n]).unwrap();
                    calls += 1;
                    p += n;
                }
                if k < cuts.len() {
                    e.flush().unwrap();
                    calls += 1;
                }
            }
            e.finish().unwrap();
        }};
    }
    match kind {
        Kind::Raw => go!(DeflateEncoder::new(sh.clone(), opts)),
        Kind::Zlib => go!(ZlibEncoder::new(sh.clone(), opts)),
        Kind::Gzip => go!(GzEncoder::new(sh.clone(), opts)),
    }
    ctx.traces += 1;
    ctx.transitions += calls + 1;
    let v = sh.0.borrow().clone();
    ctx.state(mix(hash64(&v), calls));
    ctx.outcome(hash64(&v));
    v
}
fn c05_flush(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let cmp = |kind: Kind, opts: CompressionOptions, data: &[u8], cuts: &[usize], chunks: &[usize], ctx: &mut Ctx| {
        let a = run_cut_chunks(kind, opts, data, cuts, &mut std::iter::empty(), ctx);
        let b = run_cut_chunks(kind, opts, data, cuts, &mut chunks.iter().copied(), ctx);
        if a != b {
            ctx.fail("split", format!("{:?} {} flushed at {:?}, written as {:?}... gives {} instead of {} | data={}", kind, show_opts(&opts), cuts, &chunks[..chunks.len().min(40)], hex(&b), hex(&a), hex(data)));
        }
    };
    let mut v = vec![];
    if SMALL {
        // Every input, every flush position, every composition.
        let n = if q { 8u32 } else { 11 };
        let opts = if q { vec![CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle()] } else { opts_core() };
        let no = opts.len() as u64;
        let k = 1u64 << (n - 1);
        let (o2, m) = (opts.clone(), n as u64 + 1);
        v.push(Family::new("flush-compositions", &format!("all inputs of {} bytes over 2 letters x a flush at each position x all {} ways of splitting the writes x {} option sets", n, k, no), (1 << n) * m * k * no, move |idx, ctx| {
            let op = o2[(idx % no) as usize];
            let bits = idx / no % k;
            let f = (idx / no / k % m) as usize;
            let data = string_fixed(idx / no / k / m, b"ab", n as usize);
            let mut ch = vec![];
            let mut cur = 1;
            for b in 0..n - 1 {
                if bits >> b & 1 == 1 {
                    ch.push(cur);
                    cur = 0;
                }
                cur += 1;
            }
            ch.push(cur);
            set_block_mode(0);
            cmp(Kind::Raw, op, &data, &[f], &ch, ctx);
        }));
        let pl = sp(if q { 6 } else { 13 });
        let np = pl.len() as u64;
        let n = 60u64;
        let lead: Vec<Vec<usize>> = vec![vec![1; 64], vec![2; 64], vec![3; 64], vec![1, 2, 7, 1, 30, 1, 1], vec![21, 1, 1, 1, 16, 1], vec![5; 64], [0, 1, 0, 3].repeat(20)];
        let nl = lead.len() as u64;
        v.push(Family::new("flush-pair-chunks", &format!("flushes at every pair of positions of {} bytes x {} ways of splitting the writes x {} payloads x {} option sets x 2 modes", n, nl, np, no), (n + 1) * (n + 1) * nl * np * no * 2, move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = opts[take(no)];
            let mode = [0u8, 2][take(2)];
            let d = &pl[take(np)][..n as usize];
            let ch = &lead[take(nl)];
            let (a, b) = (take(n + 1), take(n + 1));
            if a > b {
                return;
            }
            set_block_mode(mode);
            cmp(KINDS[(a + b) % 3], op, d, &[a, b], ch, ctx);
        }));
        return v;
    }
    let mut pos: Vec<usize> = vec![1, 2, 3, 258, 300];
    for b in [31744usize, 32510, 32768, 33026, 65278, 65536, 65794, 98304] {
        for d in 0..=(if q { 1usize } else { 4 }) {
            pos.push(b + d);
            pos.push(b - d);
        }
    }
    pos.sort();
    pos.dedup();
    let pl = rp(if q { 2 } else { 5 });
    let opts = if q { vec![CompressionOptions::default(), o(32768, 0, G)] } else { opts_few() };
    // Splits of the writes: the first ones small again after the flush.
    let firsts: Vec<Vec<usize>> = if q { vec![vec![1], vec![1, 1, 1, 1], vec![0, 258]] } else { vec![vec![1], vec![1, 1], vec![1, 1, 1, 1], vec![2], vec![2, 1], vec![3], vec![257], vec![258], vec![259, 1], vec![0, 1, 0, 2], vec![32768], vec![32769, 1]] };
    let (np, nl, no, nf) = (pos.len() as u64, pl.len() as u64, opts.len() as u64, firsts.len() as u64);
    let second: Vec<usize> = if q { vec![0, 2, 32768] } else { vec![0, 1, 2, 3, 258, 32768, 65536] };
    let ns = second.len() as u64;
    v.push(Family::new("flush-split", &format!("a flush at {} positions around every buffer limit, another {:?} bytes later, the write after each split into first {:?} and the rest, {} payloads of 140 KB x {} option sets", np, second, firsts, nl, no), np * nl * no * nf * ns, move |idx, ctx| {
        let mut i = idx;
        let mut take = |k: u64| {
            let r = i % k;
            i /= k;
            r as usize
        };
        let op = opts[take(no)];
        let f = &firsts[take(nf)];
        let s = second[take(ns)];
        let d = &pl[take(nl)][..140_000];
        let a = pos[take(np)];
        let mut ch = vec![a];
        // (Pieces do not cross the flushes, so each sequence starts anew.)
        if s > 0 {
            let mut left = s;
            for &x in f.iter() {
                if left > 0 {
                    ch.push(x.min(left));
                    left -= x.min(left);
                }
            }
            if left > 0 {
                ch.push(left);
            }
        }
        ch.extend(f);
        cmp(KINDS[(a + s) % 3], op, d, &[a, a + s], &ch, ctx);
    }));
    v
}

// ---- C07 ---------------------------------------------------------------------------------------

fn compare_runs(it: &Item, s: &Script, base: &Run, r: &Run, ctx: &mut Ctx) {
    for (i, (a, b)) in base.streams.iter().zip(&r.streams).enumerate() {
        if *a.data.borrow() != *b.data.borrow() {
            ctx.fail("output", format!("writer {} received {} instead of {} | {}", i, hex(&b.data.borrow()), hex(&a.data.borrow()), it.show(s)));
            return;
        }
    }
    if base.streams.len() != r.streams.len() {
        ctx.fail("output", format!("{} writers instead of {} | {}", r.streams.len(), base.streams.len(), it.show(s)));
    }
}

const SOFT_CL: &[&str] = &["panic", "term", "prefix", "finish-incomplete", "drop-incomplete", "reset-incomplete", "flush-incomplete", "spurious-error", "returned-writer", "write-zero"];

/// A sink that keeps the encoder waiting for very long (on a stack of 2 MiB).
fn long_waits(tier: &str, clauses: &'static [&'static str], compare: bool) -> Family {
    let q = quick(tier);
    let mut s = space();
    s.kinds = KINDS.to_vec();
    s.policies = vec![Policy::Proceed];
    s.ends = vec![Op::Finish, Op::Drop];
    s.alphabet = vec![Op::WriteAll(if SMALL { 22 } else { 100_000 }), Op::Flush, Op::Reset];
    s.opts = vec![CompressionOptions::default()];
    s.depth = if q { 1 } else { 2 };
    s.payloads = if SMALL { sp(1) } else { rp(1) };
    s.modes = vec![0];
    s.family("long-waits", "at every sink call 70000 times Interrupted; 70000 times one byte", move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        let base = exec(it, &ok, clauses, ctx, true);
        for at in 0..base.log.len() {
            for a in [Ans::Intr, Ans::One] {
                let mut pre = vec![Ans::All; at];
                pre.extend(std::iter::repeat(a).take(70_000));
                let s = Script { pre, then: vec![Ans::All], cap: None, empties: false };
                let r = run(&it.h, &s, false);
                // (Shown as one such answer.)
                let mut pre = vec![Ans::All; at];
                pre.push(a);
                let short = Script { pre, ..Script::ok() };
                account(it, &short, &r, clauses, ctx);
                if compare {
                    compare_runs(it, &short, &base, &r, ctx);
                }
                if !ctx.viols.is_empty() {
                    return;
                }
            }
        }
    })
}

fn c07(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let mut v = vec![];
    let mk = |k: u32| {
        let mut s = space();
        s.kinds = KINDS.to_vec();
        s.policies = vec![Policy::Proceed];
        s.ends = vec![Op::Finish, Op::Drop];
        s.alphabet = plus(wra(), &[Op::Flush, Op::Reset]);
        s.opts = vec![CompressionOptions::default(), CompressionOptions::fast()];
        if SMALL {
            s.depth = if q { 5 - k } else { 6 - k };
            s.payloads = sp(if q { 2 } else { 5 });
        } else {
            s.depth = if q { 3 - k } else { 3 - k };
            s.payloads = rp(if q { 1 } else { 3 });
            s.opts = vec![CompressionOptions::default()];
        }
        s
    };
    for k in 1..=2u32 {
        let hz = if SMALL { 40 } else if q { 8 } else { 16 };
        v.push(mk(k).family(["soft1", "soft2"][k as usize - 1], &format!("all sequences of sink answers with <= {} deviations from {:?} within the first {} sink calls, compared byte for byte with the run on an always-accepting sink", k, SOFT, hz), move |it, ctx| {
            let s = Script::ok();
            ctx.describe(|| it.show(&s));
            let base = exec(it, &s, SOFT_CL, ctx, false);
            explore(it, &s, SOFT, k, hz, ctx, &mut |s, r, ctx| {
                account(it, s, r, SOFT_CL, ctx);
                compare_runs(it, s, &base, r, ctx);
            });
        }));
    }
    let mut h = mk(1);
    h.kinds = vec![Kind::Gzip];
    h.depth = if SMALL { 2 } else { 1 };
    h.builders = vec![3, if SMALL { 6 } else { 8 }];
    h.alphabet.push(Op::ResetB(if SMALL { 6 } else { 8 }));
    h.alphabet.push(Op::Write(0));
    let hz = if SMALL { 60 } else { 12 };
    v.push(h.family("soft-header", &format!("headers with fields; at most one deviation from {:?} within the first {} sink calls, compared byte for byte", SOFT, hz), move |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        let base = exec(it, &s, SOFT_CL, ctx, false);
        explore(it, &s, SOFT, 1, hz, ctx, &mut |s, r, ctx| {
            account(it, s, r, SOFT_CL, ctx);
            compare_runs(it, s, &base, r, ctx);
        });
    }));
    // The other methods for writing: the bytes are those of write() loops on an accepting sink.
    let mut sw = mk(1);
    sw.kinds = KINDS.to_vec();
    if SMALL {
        sw.alphabet = vec![Op::Std(0), Op::Std(3), Op::Std(22), Op::Std(40), Op::Vec(2), Op::Vec(9), Op::Vec(50), Op::Flush, Op::Reset];
        sw.depth = if q { 2 } else { 3 };
    } else {
        sw.alphabet = vec![Op::Std(300), Op::Std(100_000), Op::Vec(70_000), Op::Flush];
        sw.depth = if q { 1 } else { 2 };
    }
    v.push(sw.family("soft-std", &format!("Write::write_all and write_vectored; at most one deviation from {:?} within the first {} sink calls, compared byte for byte with write() loops on an accepting sink", SOFT, hz), move |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        let ops: Vec<Op> = it.h.ops.iter().map(|o| if let Op::Std(n) | Op::Vec(n) = o { Op::WriteAll(*n) } else { *o }).collect();
        let base = run(&Hist { ops: &ops, ..it.h.clone() }, &s, false);
        explore(it, &s, SOFT, 1, hz, ctx, &mut |s, r, ctx| {
            account(it, s, r, SOFT_CL, ctx);
            compare_runs(it, s, &base, r, ctx);
        });
    }));
    // Cyclic patterns: all sequences of length 1..=4 over {All, One, Half, Intr} that make progress.
    let mut pats: Vec<Vec<Ans>> = vec![];
    let letters = [Ans::One, Ans::Intr, Ans::All, Ans::Half];
    for len in 1..=(if SMALL { if q { 3 } else { 4 } } else { 2u32 }) {
        for i in 0..4u32.pow(len) {
            let p: Vec<Ans> = (0..len).map(|j| letters[(i / 4u32.pow(j) % 4) as usize]).collect();
            if p.iter().any(|a| *a != Ans::Intr) {
                pats.push(p);
            }
        }
    }
    let mut s = mk(1);
    s.depth = if SMALL { 3 } else { 2 };
    if !SMALL && q {
        s.alphabet = vec![Op::WriteAll(300), Op::WriteAll(65795), Op::Flush];
    }
    v.push(s.family("soft-cyclic", &format!("{} cyclic sink patterns, compared byte for byte", pats.len()), move |it, ctx| {
        let s = Script::ok();
        let base = exec(it, &s, SOFT_CL, ctx, false);
        for p in &pats {
            let s = Script { pre: vec![], then: p.clone(), cap: None, empties: false };
            ctx.describe(|| it.show(&s));
            let r = exec(it, &s, SOFT_CL, ctx, false);
            compare_runs(it, &s, &base, &r, ctx);
        }
    }));
    v.push(long_waits(tier, SOFT_CL, true));
    v
}

// ---- C09 ---------------------------------------------------------------------------------------

fn c09(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    const CL: &[&str] = &["term", "after-error", "write-zero", "panic", "spurious-error"];
    let mut v = vec![];
    let mut s = fault_space(q, &KINDS, vec![Policy::Retry(3), Policy::Proceed, Policy::Drop]);
    s.alphabet = plus(if SMALL { vec![Op::Write(0), Op::Write(1), Op::Write(9), Op::WriteAll(22)] } else { vec![Op::Write(300), Op::Write(70000), Op::WriteAll(100_000)] }, &[Op::Flush, Op::Reset]);
    s.depth = if SMALL { if q { 3 } else { 4 } } else { 2 };
    let s2 = s.clone();
    v.push(s.family("capacity", "sinks of every capacity from 0 to the full output (real build: 0..=12 and around each sink call boundary), full for ever after", move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        let base = exec(it, &ok, CL, ctx, true);
        let total: usize = base.streams.iter().map(|s| s.data.borrow().len()).sum();
        let mut caps: Vec<usize> = vec![];
        if SMALL {
            caps.extend(0..total);
        } else {
            caps.extend(0..=12.min(total));
            let mut sum = 0usize;
            for (n, _) in &base.log {
                sum += *n as usize;
                caps.extend([sum.saturating_sub(1), sum, sum + 1]);
            }
            caps.push(total.saturating_sub(1));
        }
        caps.sort();
        caps.dedup();
        for c in caps {
            let s = Script { pre: vec![], then: vec![Ans::All], cap: Some(c), empties: false };
            exec(it, &s, CL, ctx, false);
            if !ctx.viols.is_empty() {
                return;
            }
        }
    }));
    let mut pats: Vec<Vec<Ans>> = vec![];
    let letters = [Ans::Zero, Ans::One, Ans::Intr, Ans::Block, Ans::All];
    for len in 1..=(if SMALL { 3u32 } else { 2 }) {
        for i in 0..5u32.pow(len) {
            let p: Vec<Ans> = (0..len).map(|j| letters[(i / 5u32.pow(j) % 5) as usize]).collect();
            // A sink that answers Interrupted for ever may be waited for for ever.
            if p.iter().any(|a| *a != Ans::Intr) {
                pats.push(p);
            }
        }
    }
    let mut s3 = s2.clone();
    s3.depth = if SMALL { if q { 3 } else { 4 } } else { 1 };
    v.push(hist_cyclic("cyclic", s3, pats, CL));
    v.push(hist_faults("zeros", { let mut s = s2.clone(); s.depth = if SMALL { 3 } else { 1 }; s }, &[Ans::Zero, Ans::One, Ans::Intr], 2, if SMALL { 12 } else { 6 }, CL));
    v.extend(kind_faults(tier, &KINDS, vec![Policy::Retry(3), Policy::Proceed, Policy::Drop], CL));
    v.push(long_waits(tier, CL, false));
    // Progress of every single write on a cooperating sink.
    let mut s4 = s2;
    s4.policies = vec![Policy::Proceed];
    s4.alphabet = plus(wr(), &[Op::Flush]);
    s4.depth = if SMALL { if q { 5 } else { 6 } } else { if q { 2 } else { 3 } };
    v.push(s4.family("progress", "cooperating sink", move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        exec(it, &ok, CL, ctx, false);
    }));
    v
}

// ---- C10 ---------------------------------------------------------------------------------------

fn c10(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    // "prefix" too: the old writer must hold a valid stream when the reset returns, possibly after a retry.
    const CL: &[&str] = &["panic", "term", "prefix", "reset-incomplete", "returned-writer"];
    let mut v = vec![];
    let mut cfgs = vec![];
    if SMALL {
        cfgs.push(("reset", if q { 2u32 } else { 3 }, 2u32, false));
        cfgs.push(("reset-faults", 1, 1, true));
    } else {
        cfgs.push(("reset", if q { 1 } else { 2 }, if q { 1 } else { 2 }, false));
        cfgs.push(("reset-faults", 1, 1, true));
    }
    for (name, pre, post, faults) in cfgs {
        let alpha: Vec<Op> = if SMALL {
            vec![Op::WriteAll(3), Op::WriteAll(9), Op::WriteAll(20), Op::WriteAll(27), Op::Flush, Op::Reset]
        } else {
            vec![Op::WriteAll(300), Op::WriteAll(33000), Op::WriteAll(70000), Op::Flush, Op::Reset]
        };
        let calls = format!("{:?}", alpha);
        let k = alpha.len() as u64;
        let npre: u64 = (0..=pre).map(|d| k.pow(d)).sum();
        let npost: u64 = (0..=post).map(|d| k.pow(d)).sum();
        let mut pl = if SMALL { sp(if q { 6 } else { 13 }).to_vec() } else { rp(if q { 2 } else { 4 }).to_vec() };
        for p in pl.iter_mut() {
            let c = p.clone();
            p.extend_from_slice(&c);
        }
        let opts = if SMALL { opts_core() } else { opts_few() };
        let (np, no) = (pl.len() as u64, opts.len() as u64);
        let seq = move |mut i: u64| {
            let mut d = 0;
            while i >= k.pow(d) {
                i -= k.pow(d);
                d += 1;
            }
            (0..d)
                .map(|_| {
                    let o = alpha[(i % k) as usize];
                    i /= k;
                    o
                })
                .collect::<Vec<Op>>()
        };
        // Kind and builder after reset: raw, zlib, gzip/reset, gzip/reset_with_builder.
        let what = format!(
            "all histories of <= {} calls, then reset, then all histories of <= {} calls, then finish or drop; x raw/zlib/gzip/gzip with builder x {} payloads x {} option sets{}; later streams compared byte for byte with fresh encoders; calls: {}",
            pre, post, np, no,
            if faults { "; x every single sink fault up to the end of the reset (caller retries)" } else { "" },
            calls
        );
        v.push(Family::new(name, &what, npre * npost * 2 * 4 * np * no, move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r
            };
            let opts = opts[take(no) as usize];
            let v = take(4);
            let end = [Op::Finish, Op::Drop][take(2) as usize];
            let payload = &pl[take(np) as usize];
            let post = seq(take(npost));
            let pre = seq(take(npre));
            let kind = KINDS[v.min(2) as usize];
            let b = if v == 3 { 3u8 } else { 0 };
            let mut ops = pre.clone();
            ops.push(if v == 3 { Op::ResetB(b) } else { Op::Reset });
            ops.extend_from_slice(&post);
            ops.push(end);
            set_block_mode(0);
            let it = Item { h: Hist { kind, opts, payload, ops: &ops, policy: Policy::Retry(3), gz: 1, check: true }, mode: 0 };
            let s = Script::ok();
            ctx.describe(|| it.show(&s));
            let first = pre.iter().filter(|o| **o == Op::Reset).count() + 1;
            let mut post_ops = post.clone();
            post_ops.push(end);
            let compare = |r: &Run, s: &Script, ctx: &mut Ctx| compare_fresh(&it, r, first, &post_ops, b, &s.show(), ctx);
            if faults {
                // Faults up to and including the reset; what a fault later does is for C07 and C08.
                let before = run(&it.h, &s, true).ids.iter().filter(|&&i| (i as usize) < first).count();
                explore(&it, &s, &[Ans::One, Ans::Zero, Ans::Block, Ans::Intr, Ans::Other], 1, before, ctx, &mut |s, r, ctx| {
                    account(&it, s, r, CL, ctx);
                    compare(r, s, ctx);
                });
            } else {
                let r = exec(&it, &s, CL, ctx, false);
                compare(&r, &s, ctx);
            }
        }));
    }
    if SMALL {
        // What is left of the old stream in the window and the hash tables shows when a little data at a time is
        // processed afterwards.
        let pats: [&[u8]; 4] = [b"ab", b"abb", b"aaaab", b"abcab"];
        let pres = [20usize, 9, 27, 16];
        let depth = if q { 6u32 } else { 7 };
        let bits = if q { 6u64 } else { 8 };
        let opts = [CompressionOptions::default(), o(32768, 0, G)];
        let k = [Op::WriteAll(1), Op::WriteAll(2), Op::Flush];
        let npost = 3u64.pow(depth);
        v.push(Family::new(
            "reset-steps",
            &format!("one write of {:?} bytes of {} patterns, reset, then all histories of {} calls among {:?} with all two-letter strings of {} bytes as data, then finish; compared with fresh encoders", pres, pats.len(), depth, k, bits),
            npost * (1 << bits) * 4 * 4 * 2,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r
                };
                let opts = opts[take(2) as usize];
                let n = pres[take(4) as usize];
                let pat = pats[take(4) as usize];
                let w = take(1 << bits);
                let mut payload: Vec<u8> = pat.iter().cycle().take(n).cloned().collect();
                payload.extend((0..bits).map(|j| b"ab"[(w >> j & 1) as usize]));
                let mut post = vec![];
                for _ in 0..depth {
                    post.push(k[take(3) as usize]);
                }
                post.push(Op::Finish);
                let mut ops = vec![Op::WriteAll(n), Op::Reset];
                ops.extend_from_slice(&post);
                set_block_mode(0);
                let it = Item { h: Hist { kind: Kind::Raw, opts, payload: &payload, ops: &ops, policy: Policy::Proceed, gz: 0, check: false }, mode: 0 };
                let s = Script::ok();
                ctx.describe(|| it.show(&s));
                let r = exec(&it, &s, CL, ctx, false);
                compare_fresh(&it, &r, 1, &post, 0, &s.show(), ctx);
            },
        ));
    }
    v.push(many(tier, &KINDS, &[Op::Finish], &["panic", "term", "reset", "reset-incomplete", "returned-writer"]));
    v
}
/// The streams from number `first` on must be what a fresh encoder doing the same calls would produce.
fn compare_fresh(it: &Item, r: &Run, first: usize, post: &[Op], gz: u8, s: &str, ctx: &mut Ctx) {
    if r.streams.len() <= first {
        if r.viols.is_empty() {
            ctx.fail("reset", format!("reset did not succeed | {:?} sink {}", it.h.ops, s));
        }
        return;
    }
    let start = r.streams[first].acc.start.min(it.h.payload.len());
    let h = Hist { kind: it.h.kind, opts: it.h.opts, payload: &it.h.payload[start..], ops: post, policy: Policy::Proceed, gz, check: false };
    let f = run(&h, &Script::ok(), false);
    for (j, want) in f.streams.iter().enumerate() {
        let want = want.data.borrow();
        let got = r.streams.get(first + j).map(|s| s.data.borrow().clone()).unwrap_or_default();
        if got != *want {
            ctx.fail("reset", format!("after reset, writer {} received {} but a new encoder produces {} | {:?} {:?} {} sink {}", first + j, hex(&got), hex(&want), it.h.kind, it.h.ops, show_opts(&it.h.opts), s));
            return;
        }
    }
}


// ---- C11 ---------------------------------------------------------------------------------------

fn c11(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    const CL: &[&str] = &["panic", "term", "drop-incomplete"];
    let mut s = space();
    s.kinds = KINDS.to_vec();
    s.ends = vec![Op::Drop];
    s.alphabet = plus(wr(), &[Op::Flush, Op::Reset]);
    s.policies = vec![Policy::Retry(3)];
    if SMALL {
        s.depth = if q { 5 } else { 6 };
        s.payloads = sp(if q { 3 } else { 5 });
    } else {
        s.depth = 2;
        s.opts = vec![CompressionOptions::default()];
        s.payloads = rp(if q { 1 } else { 3 });
    }
    let with_finish = |it: &Item| -> Vec<Op> {
        let mut ops = it.h.ops.to_vec();
        *ops.last_mut().unwrap() = Op::Finish;
        ops
    };
    let mut v = vec![];
    v.push(s.clone().family("drop", "dropped instead of finished, compared byte for byte", move |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        let r = exec(it, &s, CL, ctx, false);
        let ops = with_finish(it);
        let it2 = Item { h: Hist { ops: &ops, ..it.h.clone() }, mode: it.mode };
        let f = exec(&it2, &s, &["panic", "term", "finish-incomplete"], ctx, false);
        compare_runs(it, &s, &f, &r, ctx);
    }));
    // Slow sinks and transient faults: the drop still completes the stream.
    let mut s2 = s.clone();
    s2.depth = if SMALL { if q { 3 } else { 4 } } else { 1 };
    let hz = if SMALL { 40 } else { 8 };
    v.push(s2.family("drop-slow", &format!("short writes and interruptions at any one of the first {} sink calls, compared with finish on an accepting sink", hz), move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        let ops = with_finish(it);
        let it2 = Item { h: Hist { ops: &ops, ..it.h.clone() }, mode: it.mode };
        let all: Vec<Op> = ops.iter().map(|o| if let Op::Write(n) = o { Op::WriteAll(*n) } else { *o }).collect();
        let _ = &it2;
        let itf = Item { h: Hist { ops: &all, ..it.h.clone() }, mode: it.mode };
        let f = run(&itf.h, &ok, false);
        let mut dops = all.clone();
        *dops.last_mut().unwrap() = Op::Drop;
        let itd = Item { h: Hist { ops: &dops, ..it.h.clone() }, mode: it.mode };
        explore(&itd, &ok, SOFT, 1, hz, ctx, &mut |s, r, ctx| {
            account(&itd, s, r, CL, ctx);
            compare_runs(&itd, s, &f, r, ctx);
        });
        for p in [vec![Ans::One], vec![Ans::Intr, Ans::Half]] {
            let s = Script { pre: vec![], then: p, cap: None, empties: false };
            let r = exec(&itd, &s, CL, ctx, false);
            compare_runs(&itd, &s, &f, &r, ctx);
        }
    }));
    // Errors before the drop, then a sink that works again.
    let mut s3 = fault_space(q, &KINDS, vec![Policy::Drop, Policy::Proceed]);
    s3.ends = vec![Op::Drop, Op::Finish];
    s3.depth = if SMALL { 3 } else { 1 };
    v.push(many(tier, &KINDS, &[Op::Drop], CL));
    v.push(hist_faults("drop-after-error", s3, ERRS, 1, if SMALL { 40 } else { 8 }, &["panic", "term", "drop-incomplete", "prefix", "finish-incomplete"]));
    v
}

// ---- C13 .. C16 (real constants) ---------------------------------------------------------------

fn c13_bound(n: usize, flushes: usize) -> usize {
    let b = n / 31744 + 1;
    (8 * n + 42 * b + 7) / 8 + 11 * flushes
}

fn check_c13(c: &Case, ctx: &mut Ctx) {
    let raw = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &raw);
    let b = c13_bound(c.data.len(), 0);
    if raw.len() > b {
        ctx.fail("size", format!("{} input bytes became {} bytes, bound {}", c.data.len(), raw.len(), b));
    }
    let z = oneshot(Kind::Zlib, &c.data, c.opts, 0).len();
    let g = oneshot(Kind::Gzip, &c.data, c.opts, 0).len();
    if z != raw.len() + 6 || g != raw.len() + 18 {
        ctx.fail("size", format!("raw {} bytes, zlib {}, gzip {}", raw.len(), z, g));
    }
}

/// Cost in bits of the tokens with the fixed code, including block header and end-of-block.
fn fixed_cost(toks: &[Tok]) -> u64 {
    let mut b = 3 + 7;
    for t in toks {
        if t.dist == 0 {
            b += if t.len < 144 { 8 } else { 9 };
        } else {
            let s = inflate::len_symbol(t.len);
            b += if s < 280 { 7 } else { 8 };
            b += LEN_EXTRA[s - 257] as u64 + 5 + inflate::DIST_EXTRA[inflate::dist_symbol(t.dist)] as u64;
        }
    }
    b
}
fn stored_cost(start_bit: usize, bytes: usize) -> u64 {
    // 3 header bits, padding, length fields, data; as many blocks as needed.
    let max = 32767usize;
    let mut bit = start_bit;
    let mut left = bytes;
    loop {
        bit += 3;
        bit = (bit + 7) / 8 * 8;
        let k = left.min(max);
        bit += 32 + 8 * k;
        left -= k;
        if left == 0 {
            break;
        }
    }
    (bit - start_bit) as u64
}
fn freqs(toks: &[Tok]) -> (Vec<u64>, Vec<u64>, u64) {
    let (mut l, mut d, mut extra) = (vec![0u64; 286], vec![0u64; 30], 0u64);
    l[256] = 1;
    for t in toks {
        if t.dist == 0 {
            l[t.len as usize] += 1;
        } else {
            let s = inflate::len_symbol(t.len);
            let k = inflate::dist_symbol(t.dist);
            l[s] += 1;
            d[k] += 1;
            extra += LEN_EXTRA[s - 257] as u64 + inflate::DIST_EXTRA[k] as u64;
        }
    }
    (l, d, extra)
}
/// Bits of a dynamic block with optimal lengths and a straightforward run-length coded header.
fn dynamic_cost(toks: &[Tok]) -> u64 {
    let (l, d, extra) = freqs(toks);
    let ll = huff::limited(&l, 15);
    let mut dl = huff::limited(&d, 15);
    let nl = ll.iter().rposition(|&x| x > 0).unwrap().max(256) + 1;
    let nd = dl.iter().rposition(|&x| x > 0).map_or(1, |p| p + 1);
    if dl.iter().all(|&x| x == 0) {
        dl[0] = 0;
    }
    let all: Vec<u8> = ll[..nl].iter().chain(&dl[..nd]).copied().collect();
    let mut cf = [0u64; 19];
    let mut ex = 0u64;
    let mut i = 0;
    while i < all.len() {
        let mut n = all[i..].iter().take_while(|&&x| x == all[i]).count();
        let v = all[i];
        i += n;
        if v == 0 {
            while n >= 3 {
                let k = n.min(138);
                if k <= 10 {
                    cf[17] += 1;
                    ex += 3;
                } else {
                    cf[18] += 1;
                    ex += 7;
                }
                n -= k;
            }
            cf[0] += n as u64;
        } else {
            cf[v as usize] += 1;
            n -= 1;
            while n >= 3 {
                let k = n.min(6);
                cf[16] += 1;
                ex += 2;
                n -= k;
            }
            cf[v as usize] += n as u64;
        }
    }
    let cl = huff::limited(&cf, 7);
    let hc = inflate::CL_ORDER.iter().rposition(|&s| cl[s] > 0).unwrap().max(3) + 1;
    3 + 14 + 3 * hc as u64 + huff::cost(&cf, &cl) + ex + huff::cost(&l, &ll) + huff::cost(&d, &dl) + extra
}

fn decode(c: &Case, out: &[u8], ctx: &mut Ctx) -> Option<Decoded> {
    match inflate(out, &LIMT) {
        Ok(d) if matches!(d.end, inflate::End::Final { .. }) && d.out == c.data => Some(d),
        Ok(d) => {
            ctx.fail("stream", format!("output is not a complete stream of the input: {:?}, {} bytes", d.end, d.out.len()));
            None
        }
        Err(e) => {
            ctx.fail("stream", format!("output is not a valid stream: {}", e));
            None
        }
    }
}

fn check_c14_stream(d: &Decoded, literals_only: bool, ctx: &mut Ctx) {
    let mut i = 0;
    while i < d.blocks.len() {
        let b = &d.blocks[i];
        let toks = &d.toks[b.tok_start..b.tok_end];
        ctx.count("blocks", 1);
        ctx.transitions += 1;
        if b.typ == 0 {
            // Consecutive stored blocks up to one that is not full.
            let mut j = i;
            while d.blocks[j].out_end - d.blocks[j].out_start == 32767 && j + 1 < d.blocks.len() && d.blocks[j + 1].typ == 0 && d.blocks[j + 1].out_end > d.blocks[j + 1].out_start {
                j += 1;
            }
            let bytes = &d.out[b.out_start..d.blocks[j].out_end];
            let bits = (d.blocks[j].end_bit - b.start_bit) as u64;
            if bytes.is_empty() {
                // Sync marker.
                i = j + 1;
                continue;
            }
            ctx.count("stored blocks", 1);
            let lits: Vec<Tok> = bytes.iter().map(|&x| Tok { len: x as u16, dist: 0 }).collect();
            // A literal-only encoding is always at least as long as one with matches chosen for gain; it is the reference here.
            let f = fixed_cost(&lits);
            if bits > f && literals_only {
                ctx.fail("block-type", format!("stored block of {} bytes takes {} bits, fixed would take {}", bytes.len(), bits, f));
            }
            if literals_only && bytes.len() <= 31744 {
                let dy = dynamic_cost(&lits);
                if bits > dy + dy / 256 + 16 {
                    ctx.fail("block-type", format!("stored block of {} bytes takes {} bits, dynamic would take {}", bytes.len(), bits, dy));
                }
            }
            let best = stored_cost(b.start_bit, bytes.len());
            if bits > best {
                ctx.fail("block-type", format!("{} stored bytes take {} bits, {} suffice", bytes.len(), bits, best));
            }
            i = j + 1;
            continue;
        }
        let bits = (b.end_bit - b.start_bit) as u64;
        let bytes = b.out_end - b.out_start;
        let f = fixed_cost(toks);
        if bits > f {
            ctx.fail("block-type", format!("block of {} bytes ({} tokens) takes {} bits as type {}, fixed would take {}", bytes, toks.len(), bits, b.typ, f));
        }
        if bytes > 0 {
            let s = stored_cost(b.start_bit, bytes);
            if bits > s {
                ctx.fail("block-type", format!("block of {} bytes takes {} bits as type {}, stored would take {}", bytes, bits, b.typ, s));
            }
        }
        if bytes > 0 {
            let s = stored_cost(b.start_bit, bytes);
            if s.abs_diff(f) <= 8 && s.min(f) <= bits + 8 {
                ctx.count("blocks where fixed and stored differ by at most 8 bits", 1);
            }
        }
        if b.typ == 1 && bytes > 4 {
            ctx.count("fixed blocks", 1);
            let dy = dynamic_cost(toks);
            let m = ctx.counters.entry("largest excess of fixed blocks over a dynamic encoding (bits)").or_insert(0);
            *m = (*m).max(bits.saturating_sub(dy));
            if bits > dy + dy / 256 + 16 {
                ctx.fail("block-type", format!("fixed block of {} bytes takes {} bits, dynamic would take {}", bytes, bits, dy));
            }
        }
        if b.typ == 2 {
            ctx.count("dynamic blocks", 1);
            let dy = dynamic_cost(toks);
            let m = ctx.counters.entry("largest excess of dynamic blocks over a straightforward encoding (bits)").or_insert(0);
            *m = (*m).max(bits.saturating_sub(dy));
            let m = ctx.counters.entry("largest excess of dynamic blocks over a straightforward encoding (1/10000)").or_insert(0);
            *m = (*m).max(bits.saturating_sub(dy)*10000/dy);
            if bits > dy + dy / 256 + 16 {
                ctx.fail("block-type", format!("dynamic block of {} bytes takes {} bits, a straightforward dynamic encoding {}", bytes, bits, dy));
            }
        }
        i += 1;
    }
}

fn check_c14(c: &Case, ctx: &mut Ctx) {
    let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &out);
    if let Some(d) = decode(c, &out, ctx) {
        check_c14_stream(&d, c.opts.max_hash_checks == 0 && c.opts.matching_type == G, ctx);
    }
}

fn check_code(name: &str, f: &[u64], lens: &[u8], limit: u32, slack_pct: u64, ctx: &mut Ctx) {
    let used = f.iter().filter(|&&x| x > 0).count();
    for (s, (&fr, &l)) in f.iter().zip(lens).enumerate() {
        if (fr > 0) != (l > 0) && used > 0 {
            // A single distance code may be accompanied by nothing; zero distances may have one dummy code.
            ctx.fail("code", format!("{} code: symbol {} has count {} and length {}", name, s, fr, l));
            return;
        }
        if fr > 0 && l as u32 > limit {
            ctx.fail("code", format!("{} code: symbol {} has length {}", name, s, l));
            return;
        }
    }
    if used < 2 {
        return;
    }
    let kraft: u64 = lens.iter().filter(|&&l| l > 0).map(|&l| 1u64 << (limit - l as u32)).sum();
    if kraft != 1 << limit {
        ctx.fail("code", format!("{} code is not complete: {:?}", name, lens));
        return;
    }
    let mut v: Vec<(u64, u8)> = f.iter().zip(lens).filter(|(&f, _)| f > 0).map(|(&f, &l)| (f, l)).collect();
    v.sort();
    for w in v.windows(2) {
        if w[0].0 < w[1].0 && w[0].1 < w[1].1 {
            ctx.fail("code", format!("{} code: count {} has length {}, count {} has length {}", name, w[0].0, w[0].1, w[1].0, w[1].1));
            return;
        }
    }
    let cost = huff::cost(f, lens);
    let (opt, depth) = huff::optimal(f);
    ctx.count("codes checked", 1);
    if depth <= limit {
        if cost != opt {
            ctx.fail("code", format!("{} code costs {} bits, the optimum is {} (depth {} fits): counts {:?} lengths {:?}", name, cost, opt, depth, f, lens));
        }
    } else {
        ctx.count(if name == "distance" { "distance codes where the length limit binds" } else { "other codes where the length limit binds" }, 1);
        let best = huff::cost(f, &huff::limited(f, limit as usize));
        let over = (cost - best) * 10000 / best.max(1);
        let m = ctx.counters.entry(if limit == 7 { "largest excess of limited code-length codes (1/10000)" } else { "largest excess of limited codes (1/10000)" }).or_insert(0);
        *m = (*m).max(over);
        if cost > best + best * slack_pct / 100 {
            ctx.fail("code", format!("{} code costs {} bits, the optimal length-limited code {}: counts {:?} lengths {:?}", name, cost, best, f, lens));
        }
    }
}

fn check_c15(c: &Case, ctx: &mut Ctx) {
    let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &out);
    if let Some(d) = decode(c, &out, ctx) {
        check_c15_stream(&d, ctx);
    }
}

/// The blocks between flushes (C14 or C15).
fn block_flush(q: bool, c14: bool) -> Vec<Family> {
    let opts = vec![CompressionOptions::huffman_only(), CompressionOptions::default(), CompressionOptions::rle()];
    let run = move |data: &[u8], cuts: &[usize], op: CompressionOptions, ctx: &mut Ctx| {
        ctx.describe(|| format!("{} bytes flushed at {:?} {} {}", data.len(), cuts, show_opts(&op), hex(data)));
        let out = flush_at(data, cuts, op, ctx);
        ctx.state(hash64(&out));
        ctx.outcome(hash64(&out));
        match inflate(&out, &LIMT) {
            Ok(d) if d.out == data => {
                if c14 {
                    check_c14_stream(&d, op.max_hash_checks == 0 && op.matching_type == G, ctx)
                } else {
                    check_c15_stream(&d, ctx)
                }
            }
            _ => ctx.count("executions with findings that belong to another property", 1),
        }
    };
    let mut pl: Vec<Vec<u8>> = vec![];
    for i in 0..N_MIXED {
        let m = mixed(i);
        pl.push(m[..400].to_vec());
        pl.push(m[m.len() / 2..m.len() / 2 + 400].to_vec());
    }
    // 9-bit literals, spread; a run with single other bytes; counts 1, 1, 2, 3, 5 ...
    pl.push((0..400u32).map(|i| (144 + i * 4 % 112 + i / 28 % 4) as u8).collect());
    pl.push((0..400u32).map(|i| if i % 17 == 3 { i as u8 } else { 200 }).collect());
    pl.push((0..400u32).map(|i| (i.trailing_zeros() * 23) as u8).collect());
    let pl = Arc::new(pl);
    let (np, no) = (pl.len() as u64, opts.len() as u64);
    let m = if q { 64u64 } else { 160 };
    let (p2, o2) = (pl.clone(), opts.clone());
    let mut v = vec![Family::new("flush-blocks", &format!("flushes at every pair of positions with a <= {} and b - a <= {}, {} payloads of 400 bytes x {} option sets", m, m, np, no), (m + 1) * (m + 1) * np * no, move |idx, ctx| {
        let (a, g, p, k) = (idx % (m + 1), idx / (m + 1) % (m + 1), idx / (m + 1) / (m + 1) % np, idx / (m + 1) / (m + 1) / np);
        run(&p2[p as usize], &[a as usize, (a + g) as usize], o2[k as usize], ctx);
    })];
    v[0].chunk = 64;
    // Around the limits of the token buffer and of a stored block, the window edges, and again some bytes later.
    let mut at: Vec<usize> = vec![];
    for c in [31744usize, 32767, 32768, 33026, 65535, 65536] {
        at.extend(c - 2..=c + 2);
    }
    let gaps = [0usize, 1, 5, 300, 31744, 32768];
    let (na, ng) = (at.len() as u64, gaps.len() as u64);
    let pl = rp(if q { 3 } else { 5 });
    let np = pl.len() as u64;
    v.push(Family::new("flush-large-blocks", &format!("flush at {} positions around the limits of token buffer, stored block and window, and {:?} bytes later, {} payloads of 120 KB x {} option sets", na, gaps, np, no), na * ng * np * no, move |idx, ctx| {
        let (a, g, p, k) = (at[(idx % na) as usize], gaps[(idx / na % ng) as usize], idx / na / ng % np, idx / na / ng / np);
        run(&pl[p as usize][..120_000], &[a, a + g], opts[k as usize], ctx);
    }));
    v
}

fn check_c15_stream(d: &Decoded, ctx: &mut Ctx) {
    {
        for b in d.blocks.iter().filter(|b| b.typ == 2) {
            ctx.transitions += 1;
            let (l, dist, _) = freqs(&d.toks[b.tok_start..b.tok_end]);
            let mut ll = b.lit_lens.clone();
            ll.resize(286, 0);
            let mut dl = b.dist_lens.clone();
            dl.resize(30, 0);
            check_code("literal/length", &l, &ll, 15, 2, ctx);
            check_code("distance", &dist, &dl, 15, 2, ctx);
            let cf: Vec<u64> = b.cl_freq.iter().map(|&x| x as u64).collect();
            check_code("code-length", &cf, &b.cl_lens, 7, 10, ctx);
        }
    }
}

fn same(a: &[u8], b: &[u8], what: &str, ctx: &mut Ctx) {
    if a != b {
        ctx.fail("equivalent", format!("{}: outputs differ: {} / {}", what, hex(a), hex(b)));
    }
}

/// Options must behave as documented, on this input.
fn check_c16(c: &Case, ctx: &mut Ctx) {
    let d = &c.data;
    let go = |o: CompressionOptions, ctx: &mut Ctx| {
        let v = oneshot(Kind::Raw, d, o, 0);
        ctx.shot(&Case { data: d.clone(), opts: o, mode: c.mode }, &v);
        v
    };
    let toks = |v: &[u8]| inflate(v, &LIMT).map(|x| x.toks).unwrap_or_default();
    // Huffman only.
    let h = go(CompressionOptions::huffman_only(), ctx);
    if let Ok(x) = inflate(&h, &LIMT) {
        if let Some(t) = x.toks.iter().find(|t| t.dist != 0) {
            ctx.fail("huffman-only", format!("match of length {} at distance {}", t.len, t.dist));
        }
    }
    // Run-length encoding. (Stored blocks have no tokens: compare only when there are none.)
    let r = go(CompressionOptions::rle(), ctx);
    if let Ok(x) = inflate(&r, &LIMT) {
        if let Some(t) = x.toks.iter().find(|t| t.dist > 1) {
            ctx.fail("rle", format!("match of length {} at distance {}", t.len, t.dist));
        }
        if x.blocks.iter().all(|b| b.typ != 0) {
            let want = parse::rle(d);
            if x.toks != want {
                let i = x.toks.iter().zip(&want).take_while(|(a, b)| a == b).count();
                ctx.fail("rle", format!("token {} differs: {} / expected {}", i, parse::show(&x.toks[i..]), parse::show(&want[i..])));
            }
        }
    }
    // Clamped values.
    let m = c.opts.matching_type;
    let l = c.opts.lazy_if_less_than;
    let k = c.opts.max_hash_checks;
    if k >= 32768 {
        let a = go(o(32768, l, m), ctx);
        for x in [32769u16, 40000, 65535] {
            same(&a, &go(o(x, l, m), ctx), &format!("max_hash_checks 32768 and {}", x), ctx);
        }
    }
    let a = go(o(k, 258, m), ctx);
    for x in [259u16, 4000, 32768, 32769, 65535] {
        same(&a, &go(o(k, x, m), ctx), &format!("lazy_if_less_than 258 and {} (max_hash_checks {})", x, k), ctx);
    }
    if k > 0 {
        let a = toks(&go(o(k, 0, L), ctx));
        let g = toks(&go(o(k, 0, G), ctx));
        if a != g {
            let i = a.iter().zip(&g).take_while(|(a, b)| a == b).count();
            ctx.fail("lazy-0", format!("lazy_if_less_than 0 (max_hash_checks {}) differs from greedy at token {}: {} / {}", k, i, parse::show(&a[i..]), parse::show(&g[i..])));
        }
        let a = go(o(k, 5, G), ctx);
        same(&a, &go(o(k, 258, G), ctx), "greedy with lazy_if_less_than 5 and 258", ctx);
    }
    // special is documented as not implemented: no effect.
    let a = go(c.opts, ctx);
    for s in [SpecialOptions::_ForceFixed, SpecialOptions::_ForceStored] {
        same(&a, &go(CompressionOptions { special: s, ..c.opts }, ctx), "special", ctx);
    }
}

fn check_presets(c: &Case, ctx: &mut Ctx) {
    let d = &c.data;
    ctx.shot(c, &[]);
    let def = o(128, 32, L);
    for (p, want) in [(Compression::Fast, o(1, 0, G)), (Compression::Default, def), (Compression::Best, o(1768, 128, L))] {
        let a = oneshot(Kind::Raw, d, want, 0);
        ctx.traces += 1;
        ctx.transitions += 1;
        same(&a, &deflate::deflate_bytes_conf(d, p), &format!("{:?} and its documented options", p), ctx);
        same(&a, &enc_bytes(Kind::Raw, d, p.into(), 0), &format!("{:?} (encoder)", p), ctx);
    }
    same(&oneshot(Kind::Raw, d, def, 0), &deflate::deflate_bytes(d), "deflate_bytes and default options", ctx);
    same(&oneshot(Kind::Raw, d, def, 0), &deflate::deflate_bytes_conf(d, CompressionOptions::default()), "CompressionOptions::default()", ctx);
    same(&oneshot(Kind::Raw, d, def, 0), &deflate::deflate_bytes_conf(d, Compression::default()), "Compression::default()", ctx);
    same(&oneshot(Kind::Zlib, d, def, 0), &deflate::deflate_bytes_zlib(d), "deflate_bytes_zlib and default options", ctx);
    same(&oneshot(Kind::Gzip, d, def, 0), &deflate::deflate_bytes_gzip(d), "deflate_bytes_gzip and default options", ctx);
}

// ---- C18 ---------------------------------------------------------------------------------------

/// A sink with constant memory that answers with a cyclic pattern.
struct NullSink {
    pat: Vec<Ans>,
    i: usize,
    calls: u64,
}
impl Write for NullSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let a = self.pat[self.i % self.pat.len()];
        self.i += 1;
        match a {
            Ans::One => Ok(1),
            Ans::Half => Ok((b.len() / 2).max(1)),
            Ans::AllBut1 => Ok((b.len() - 1).max(1)),
            Ans::Zero => Ok(0),
            Ans::Intr => Err(io::ErrorKind::Interrupted.into()),
            Ans::Block => Err(io::ErrorKind::WouldBlock.into()),
            Ans::Other => Err(io::ErrorKind::Other.into()),
            _ => Ok(b.len()),
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const MEM_BOUND: isize = if SMALL { 1 << 17 } else { 1 << 20 };

fn c18_case(kind: Kind, opts: CompressionOptions, payload: &[u8], ops: &[Op], pat: &[Ans], rounds: usize, ctx: &mut Ctx, desc: &str) {
    let sink = || NullSink { pat: pat.to_vec(), i: 0, calls: 0 };
    let mut grew: Vec<(usize, isize)> = Vec::with_capacity(rounds);
    let base = alloc::live();
    alloc::reset_peak();
    let mut live_max = 0isize;
    let mut calls = 0u64;
    macro_rules! go {
        ($e:expr, $rb:expr) => {{
            let mut e = $e;
            for round in 0..rounds {
                for op in ops {
                    calls += 1;
                    match op {
                        Op::Write(n) | Op::WriteAll(n) => {
                            let mut p = 0;
                            let mut tries = 0;
                            let n = (*n).min(payload.len());
                            while p < n && tries < 40 {
                                match e.write(&payload[p..n]) {
                                    Ok(0) => tries += 1,
                                    Ok(k) => {
                                        p += k;
                                        tries = 0;
                                    }
                                    Err(_) => tries += 1,
                                }
                                calls += 1;
                            }
                        }
                        Op::Flush => {
                            let mut tries = 0;
                            while e.flush().is_err() && tries < 12 {
                                tries += 1;
                                calls += 1;
                            }
                        }
                        Op::Reset => {
                            let mut tries = 0;
                            while e.reset(sink()).is_err() && tries < 12 {
                                tries += 1;
                                calls += 1;
                            }
                        }
                        Op::ResetB(b) => {
                            let mut tries = 0;
                            #[allow(clippy::redundant_closure_call)]
                            while ($rb)(&mut e, sink(), *b).is_err() && tries < 12 {
                                tries += 1;
                                calls += 1;
                            }
                        }
                        _ => {}
                    }
                }
                let live = alloc::live() - base;
                if live > live_max {
                    live_max = live;
                    grew.push((round, live));
                }
            }
            drop(e);
        }};
    }
    match kind {
        Kind::Raw => go!(DeflateEncoder::new(sink(), opts), |e: &mut DeflateEncoder<NullSink>, s, _| e.reset(s)),
        Kind::Zlib => go!(ZlibEncoder::new(sink(), opts), |e: &mut ZlibEncoder<NullSink>, s, _| e.reset(s)),
        Kind::Gzip => go!(GzEncoder::new(sink(), opts), |e: &mut GzEncoder<NullSink>, s, b| e.reset_with_builder(s, builder(b))),
    }
    let peak = alloc::peak() - base;
    let left = alloc::live() - base;
    ctx.traces += 1;
    ctx.transitions += calls;
    ctx.state(mix(hash64(desc.as_bytes()), peak as u64));
    let m = ctx.counters.entry("largest peak seen (bytes)").or_insert(0);
    *m = (*m).max(peak as u64);
    if peak > MEM_BOUND {
        ctx.fail("memory", format!("encoder held {} bytes | {}", peak, desc));
    }
    // Buffers may reach their final size late, but must not go on growing.
    if rounds >= 8 && grew.iter().filter(|g| g.0 >= rounds / 2).count() > rounds / 4 {
        ctx.fail("memory", format!("held memory goes on growing over repeated identical calls: {:?} | {}", grew, desc));
    }
    if rounds >= 1000 && grew.iter().any(|g| g.0 >= rounds / 4) {
        ctx.fail("memory", format!("held memory still grows after {} repetitions of the same calls: {:?} | {}", rounds / 4, grew, desc));
    }
    if left > 0 {
        ctx.fail("memory", format!("{} bytes not released after drop | {}", left, desc));
    }
}

fn c18(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    const BIG: usize = 3_000_000;
    let long = |s: &[u8]| -> Vec<u8> { s.iter().copied().cycle().take(BIG).collect() };
    let payloads: Arc<Vec<Vec<u8>>> = Arc::new(if SMALL { sp(3).to_vec() } else { vec![long(uniq(200_000)), vec![0; BIG], long(&mixed(0))] });
    let alpha: Vec<Op> = if SMALL {
        vec![Op::Write(0), Op::Write(1), Op::Write(9), Op::Write(40), Op::Flush, Op::Reset, Op::ResetB(6)]
    } else {
        vec![Op::Write(1), Op::Write(5000), Op::Write(40_000), Op::Write(200_000), Op::Flush, Op::Reset, Op::ResetB(6)]
    };
    let depth = if SMALL { if q { 3u32 } else { 4 } } else if q { 2 } else { 3 };
    let k = alpha.len() as u64;
    let nseq: u64 = (1..=depth).map(|d| k.pow(d)).sum();
    let pats: Vec<Vec<Ans>> = vec![
        vec![Ans::All],
        vec![Ans::Zero],
        vec![Ans::Block],
        vec![Ans::Intr, Ans::All],
        vec![Ans::Block, Ans::Half],
        vec![Ans::AllBut1],
        vec![Ans::Half, Ans::Other],
        vec![Ans::One, Ans::Block, Ans::Block],
        vec![Ans::Zero, Ans::AllBut1],
    ];
    // Answering one byte at a time is only affordable for short outputs.
    let (np, npl) = (pats.len() as u64, payloads.len() as u64);
    let opts = vec![CompressionOptions::default(), CompressionOptions::huffman_only()];
    let rounds = if SMALL { 40 } else { 12 };
    let big = {
        let (payloads, pats) = (payloads.clone(), pats.clone());
        let n = if SMALL { 64usize } else { BIG };
        Family::new(
            "memory-big",
            &format!("one write_all of {} bytes (bound {} bytes), alone or after a flush, then nothing, a flush or a reset; x {} cyclic sink patterns x {} payloads x 3 kinds x 2 option sets", n, MEM_BOUND, np, npl),
            6 * np * npl * 3 * 2,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let op = [CompressionOptions::default(), CompressionOptions::huffman_only()][take(2)];
                let kind = KINDS[take(3)];
                let p = &payloads[take(npl)];
                let pat = &pats[take(np)];
                let mut ops = vec![];
                if take(2) == 1 {
                    ops.extend([Op::Write(1), Op::Flush]);
                }
                ops.push(Op::WriteAll(n));
                ops.extend([vec![], vec![Op::Flush], vec![Op::Reset]][take(3)].iter());
                let desc = format!("{:?} ops={:?} pattern={:?} {} payload={}", kind, ops, pat, show_opts(&op), hex(p));
                ctx.describe(|| desc.clone());
                set_block_mode(0);
                c18_case(kind, op, p, &ops, pat, 1, ctx, &desc);
            },
        )
    };
    let many = {
        let payloads = payloads.clone();
        let rounds = if q { 4000usize } else { 40_000 };
        let alpha: Vec<Op> = if SMALL { vec![Op::Write(1), Op::Write(9), Op::Flush, Op::Reset, Op::ResetB(6)] } else { vec![Op::Write(1), Op::Write(300), Op::Flush, Op::Reset, Op::ResetB(6)] };
        let pats: Vec<Vec<Ans>> = vec![vec![Ans::All], vec![Ans::Block, Ans::Half], vec![Ans::AllBut1]];
        let k = alpha.len() as u64;
        let nseq: u64 = k + k * k;
        Family::new(
            "memory-many",
            &format!("all sequences of 1..=2 calls from {:?}, repeated {} times on one encoder x {} cyclic sink patterns x {} payloads x 3 kinds; no growth after the first quarter", alpha, rounds, pats.len(), npl),
            nseq * pats.len() as u64 * npl * 3,
            move |idx, ctx| {
                let mut i = idx;
                let mut take = |k: u64| {
                    let r = i % k;
                    i /= k;
                    r as usize
                };
                let kind = KINDS[take(3)];
                let p = &payloads[take(npl)];
                let pat = &pats[take(3)];
                let ops: Vec<Op> = if i < k { vec![alpha[i as usize]] } else { vec![alpha[((i - k) % k) as usize], alpha[((i - k) / k) as usize]] };
                let op = CompressionOptions::fast();
                let desc = format!("{:?} ops={:?} x{} pattern={:?} {} payload={}", kind, ops, rounds, pat, show_opts(&op), hex(&p[..p.len().min(300)]));
                ctx.describe(|| desc.clone());
                set_block_mode(0);
                c18_case(kind, op, p, &ops, pat, rounds, ctx, &desc);
            },
        )
    };
    vec![big, many, Family::new(
        "memory",
        &format!("all sequences of 1..={} calls from {:?}, repeated {} times on one encoder (caller retries up to 40 times), x {} cyclic sink patterns x {} payloads x 3 kinds x 2 option sets; live heap bytes counted by the global allocator", depth, alpha, rounds, np, npl),
        nseq * np * npl * 3 * 2,
        move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = opts[take(2)];
            let kind = KINDS[take(3)];
            let p = &payloads[take(npl)];
            let pat = &pats[take(np)];
            let mut d = 1;
            while i >= k.pow(d) {
                i -= k.pow(d);
                d += 1;
            }
            let ops: Vec<Op> = (0..d)
                .map(|_| {
                    let o = alpha[(i % k) as usize];
                    i /= k;
                    o
                })
                .collect();
            let desc = format!("{:?} ops={:?} x{} pattern={:?} {} payload={}", kind, ops, rounds, pat, show_opts(&op), hex(p));
            ctx.describe(|| desc.clone());
            set_block_mode(0);
            c18_case(kind, op, p, &ops, pat, rounds, ctx, &desc);
        },
    )]
}

// ---- C19 ---------------------------------------------------------------------------------------

fn check_c19(c: &Case, ctx: &mut Ctx) {
    let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &out);
    let d = match decode(c, &out, ctx) {
        Some(d) => d,
        None => return,
    };
    if d.blocks.iter().any(|b| b.typ == 0) {
        // Stored blocks hide the parse. (The model's parse is still what the encoder has to do; other cases show it.)
        ctx.count("cases with stored blocks (parse not visible)", 1);
        return;
    }
    let want = match c.opts.matching_type {
        deflate::MatchingType::Greedy => parse::greedy_cut(&c.data, &[], 32768),
        deflate::MatchingType::Lazy => parse::lazy_cut(&c.data, &[], c.opts.lazy_if_less_than as usize, 32768),
    };
    ctx.transitions += d.toks.len() as u64;
    if d.toks != want {
        let i = d.toks.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let at: usize = want[..i].iter().map(|t| if t.dist == 0 { 1 } else { t.len as usize }).sum();
        ctx.fail("parse", format!("token {} (input position {}): encoder {} / model {}", i, at, parse::show(&d.toks[i..]), parse::show(&want[i..])));
    }
}
/// The same cases with the largest value of max_hash_checks.
fn max_checks(c: crate::corpus::Corpus) -> crate::corpus::Corpus {
    let g = c.gen.clone();
    crate::corpus::Corpus {
        name: format!("{}-65535", c.name),
        what: format!("{}, with 65535 instead", c.what),
        n: c.n,
        gen: Arc::new(move |i| {
            let mut c = g(i);
            c.opts.max_hash_checks = 65535;
            c
        }),
    }
}
fn c19_opts(q: bool) -> Vec<CompressionOptions> {
    let mut v = vec![o(32768, 0, G), o(65535, 0, G), o(32768, 258, L), o(32768, 4, L), o(32768, 5, L)];
    if !q {
        v.extend([o(32768, 3, L), o(32768, 6, L), o(32768, 32, L), o(32768, 257, L), o(32768, 0, L)]);
    }
    v
}

// ---- C26 ---------------------------------------------------------------------------------------

fn c26(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    const CL: &[&str] = &["error-changed", "error-lost", "spurious-error", "panic", "term"];
    const ALTS: &[Ans] = &[Ans::One, Ans::Zero, Ans::Intr, Ans::Block, Ans::K(3), Ans::Os(28), Ans::Os(EINTR)];
    let pol = vec![Policy::Retry(3), Policy::Proceed, Policy::Drop];
    let mut v = fault_families(tier, &KINDS, pol.clone(), ALTS, CL);
    v.extend(kind_faults(tier, &KINDS, pol.clone(), CL));
    // Every error number of the operating system.
    let mut s = fault_space(q, &KINDS, vec![Policy::Retry(1)]);
    s.payloads = if SMALL { sp(1) } else { rp(1) };
    s.alphabet = if SMALL { vec![Op::Write(9), Op::Write(60), Op::WriteAll(22), Op::Flush, Op::Reset] } else { vec![Op::Write(100_000), Op::WriteAll(100_000), Op::Flush, Op::Reset] };
    s.depth = if SMALL { if q { 2 } else { 3 } } else { 1 };
    v.push(s.family("os-errors", "at every history each error number from 1 to 133, at every sink call, once", move |it, ctx| {
        let ok = Script::ok();
        ctx.describe(|| it.show(&ok));
        let base = exec(it, &ok, CL, ctx, true);
        for at in 0..base.log.len() {
            for n in 1..=133 {
                let mut pre = vec![Ans::All; at];
                pre.push(Ans::Os(n));
                exec(it, &Script { pre, then: vec![Ans::All], cap: None, empties: false }, CL, ctx, false);
            }
            if !ctx.viols.is_empty() {
                return;
            }
        }
    }));
    let mut pats: Vec<Vec<Ans>> = vec![];
    let letters = [Ans::Block, Ans::Os(28), Ans::One, Ans::Zero, Ans::All, Ans::Intr];
    for len in 2..=3u32 {
        for i in 0..6u32.pow(len) {
            let p: Vec<Ans> = (0..len).map(|j| letters[(i / 6u32.pow(j) % 6) as usize]).collect();
            if p.iter().any(|a| *a != Ans::Intr) {
                pats.push(p);
            }
        }
    }
    let mut s = fault_space(q, &KINDS, vec![Policy::Retry(4), Policy::Proceed]);
    s.depth = if SMALL { if q { 2 } else { 4 } } else { 1 };
    v.push(hist_cyclic("cyclic", s, pats, CL));
    v
}

// ---- C25 ---------------------------------------------------------------------------------------

/// The parse with a limited number of checks, for data whose three-byte groups all have different hashes.
fn check_c25(c: &Case, ctx: &mut Ctx) {
    let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &out);
    let d = match decode(c, &out, ctx) {
        Some(d) => d,
        None => return,
    };
    if d.blocks.iter().any(|b| b.typ == 0) {
        ctx.count("cases with stored blocks (parse not visible)", 1);
        return;
    }
    let n = c.opts.max_hash_checks.min(32768) as usize;
    let want = match c.opts.matching_type {
        deflate::MatchingType::Greedy => parse::greedy_cut(&c.data, &[], n),
        deflate::MatchingType::Lazy => parse::lazy_cut(&c.data, &[], c.opts.lazy_if_less_than as usize, n),
    };
    ctx.transitions += d.toks.len() as u64;
    if d.toks != want {
        let i = d.toks.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let at: usize = want[..i].iter().map(|t| if t.dist == 0 { 1 } else { t.len as usize }).sum();
        ctx.fail("parse", format!("token {} (input position {}): encoder {} / model {}", i, at, parse::show(&d.toks[i..]), parse::show(&want[i..])));
    }
}
/// The same inputs over letters whose three-byte groups have different hashes each.
fn few_letters(c: crate::corpus::Corpus) -> crate::corpus::Corpus {
    let g = c.gen.clone();
    crate::corpus::Corpus {
        name: format!("{}-{}bit", c.name, if SMALL { 1 } else { 5 }),
        what: format!("{}, all bytes reduced to {} bits", c.what, if SMALL { 1 } else { 5 }),
        n: c.n,
        gen: Arc::new(move |i| {
            let mut c = g(i);
            c.data.iter_mut().for_each(|b| *b = if SMALL { *b & 1 | 0x60 } else { *b & 31 | 0x60 });
            c
        }),
    }
}
fn c25(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let checks: Vec<u16> = match (SMALL, q) {
        (true, true) => vec![1, 2, 3, 4, 5],
        (true, false) => (1..=9).collect(),
        (false, true) => vec![1, 2, 3, 4, 7, 33, 128],
        (false, false) => vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257, 1024, 1768, 4096],
    };
    let mut os = vec![];
    for &n in &checks {
        os.push(o(n, 0, G));
        os.push(o(n, 258, L));
        if !q || n > 3 {
            os.push(o(n, if SMALL { 4 } else { 32 }, L));
        }
    }
    if !SMALL {
        os.extend([CompressionOptions::default(), CompressionOptions::fast(), CompressionOptions::high()]);
    }
    let f = |c| fam(few_letters(c), check_c25);
    if SMALL {
        vec![
            f(s_bin(if q { 16 } else { 20 }, os.clone(), vec![0])),
            f(s_pre(8, if q { 42 } else { 56 }, if q { 8 } else { 11 }, os.clone(), vec![0])),
            f(s_rep(if q { 5 } else { 8 }, 90, os, vec![0])),
        ]
    } else {
        let few = os[..if q { 6 } else { os.len() }].to_vec();
        vec![
            f(r_short(if q { 8 } else { 10 }, os.clone())),
            f(r_dist(boundary_distances(), if q { vec![3, 4, 31, 32, 33, 258] } else { (3..=259).step_by(4).collect() }, os.clone())),
            f(r_tok(few.clone(), if q { 1 } else { 10 }, vec![0, 1, 3, 100, 258])),
            f(r_len(if q { 150 } else { 700 }, os.clone())),
            f(r_bound(few.clone())),
            f(r_grid(os.clone(), N_MIXED)),
            f(r_mat(if q { 60 } else { 400 }, os.clone())),
            f(r_edge(few.clone(), if q { 18 } else { 2 })),
            f(r_seg(if q { 2 } else { 3 }, few)),
            f(r_chain(q, false)),
        ]
    }
}

// ---- C24 ---------------------------------------------------------------------------------------

/// Write up to each cut, flush there; then the rest and finish.
fn flush_at(data: &[u8], cuts: &[usize], op: CompressionOptions, ctx: &mut Ctx) -> Vec<u8> {
    let mut e = DeflateEncoder::new(Vec::new(), op);
    let mut p = 0;
    for &c in cuts {
        e.write_all(&data[p..c]).unwrap();
        e.flush().unwrap();
        p = c;
    }
    e.write_all(&data[p..]).unwrap();
    ctx.traces += 1;
    ctx.transitions += 2 + 2 * cuts.len() as u64;
    e.finish().unwrap()
}
/// The parse of a stream flushed at `cuts` is the documented one, with matches cut at the flushes only.
fn check_c24(data: &[u8], cuts: &[usize], op: CompressionOptions, ctx: &mut Ctx) {
    ctx.describe(|| format!("{} bytes flushed at {:?} {} {}", data.len(), cuts, show_opts(&op), hex(data)));
    let out = flush_at(data, cuts, op, ctx);
    ctx.state(hash64(&out));
    let d = match inflate(&out, &LIMT) {
        Ok(d) => d,
        Err(e) => {
            ctx.fail("valid", format!("{:?}", e));
            return;
        }
    };
    if d.blocks.iter().any(|b| b.typ == 0 && b.out_end > b.out_start) {
        ctx.count("cases with stored blocks (parse not visible)", 1);
        return;
    }
    let n = op.max_hash_checks.min(32768) as usize;
    let want = match op.matching_type {
        deflate::MatchingType::Greedy => parse::greedy_cut(data, cuts, n),
        deflate::MatchingType::Lazy if n == 0 => parse::rle_cut(data, cuts),
        deflate::MatchingType::Lazy => parse::lazy_cut(data, cuts, op.lazy_if_less_than as usize, n),
    };
    if d.toks != want {
        let i = d.toks.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let at: usize = want[..i].iter().map(|t| if t.dist == 0 { 1 } else { t.len as usize }).sum();
        ctx.fail("parse", format!("token {} (input position {}): encoder {} / model {}", i, at, parse::show(&d.toks[i..]), parse::show(&want[i..])));
    }
}
/// Every case of a corpus with every set of flush positions from the list the function gives for it.
fn cut_fam(c: crate::corpus::Corpus, what: &str, n: u64, cuts: impl Fn(u64, &[u8]) -> Option<Vec<usize>> + Send + Sync + 'static) -> Family {
    let g = c.gen.clone();
    Family::new(&format!("cuts-{}", c.name), &format!("{} x {} sets of flush positions: {}", c.what, n, what), c.n * n, move |idx, ctx| {
        let c = g(idx / n);
        if let Some(cuts) = cuts(idx % n, &c.data) {
            set_block_mode(c.mode);
            check_c24(&c.data, &cuts, c.opts, ctx);
        }
    })
}
fn c24(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let mut os = c19_opts(q);
    os.extend([CompressionOptions::rle(), CompressionOptions::huffman_only()]);
    let subset = |m: u64, d: &[u8]| -> Option<Vec<usize>> {
        if m >> (d.len() + 1) != 0 {
            return None;
        }
        Some((0..=d.len()).filter(|&i| m >> i & 1 == 1).collect())
    };
    let pair = |n: u64| {
        move |i: u64, d: &[u8]| -> Option<Vec<usize>> {
            let (a, b) = ((i % n) as usize, (i / n) as usize);
            if a > b || b > d.len() {
                return None;
            }
            Some(if a == b { vec![a] } else { vec![a, b] })
        }
    };
    if SMALL {
        let (l2, l3) = if q { (8, 6) } else { (11, 8) };
        let n = 64u64;
        let mut v = vec![
            cut_fam(s_bin(l2, os.clone(), vec![0]), "all", 1 << (l2 + 1), subset),
            cut_fam(s_tern(l3, os.clone(), vec![0]), "all", 1 << (l3 + 1), subset),
            cut_fam(s_rep(if q { 3 } else { 5 }, 60, if q { vec![os[0], os[2], os[3], CompressionOptions::rle()] } else { os.clone() }, vec![0]), "all pairs", n * n, pair(n)),
            cut_fam(s_pre(8, if q { 20 } else { 42 }, if q { 3 } else { 6 }, os.clone(), vec![0]), "every single one", n, |i, d| if i as usize <= d.len() { Some(vec![i as usize]) } else { None }),
        ];
        // Regular flushes over a long stream.
        v.push(named(cut_fam(s_rep(if q { 4 } else { 6 }, 200, os.clone(), vec![0]), "every k bytes, k = 1..=40", 40, |i, d| Some((1..d.len()).filter(|x| x % (i as usize + 1) == 0).collect())), "regular-"));
        // Limited searches, over letters without hash collisions.
        let few = vec![o(1, 0, G), o(2, 258, L), o(4, 4, L)];
        v.push(cut_fam(few_letters(s_bin(l2, few.clone(), vec![0])), "all", 1 << (l2 + 1), subset));
        v.push(cut_fam(few_letters(s_rep(if q { 3 } else { 5 }, 60, few, vec![0])), "all pairs", n * n, pair(n)));
        return v;
    }
    let mut pos: Vec<usize> = vec![1, 2, 3, 258];
    let r = if q { 2usize } else { 6 };
    for b in [31744usize, 32510, 32768, 33026, 65278, 65536, 65794] {
        for d in 0..=r {
            pos.push(b + d);
            pos.push(b - d);
        }
    }
    pos.sort();
    pos.dedup();
    let second: Vec<usize> = if q { vec![0, 1, 3, 33_000] } else { vec![0, 1, 2, 3, 4, 258, 32767, 32768, 32769] };
    let np = pos.len() as u64;
    let nn = np * second.len() as u64;
    let opts = if q { vec![o(32768, 0, G), o(32768, 258, L), CompressionOptions::rle()] } else { os.clone() };
    let presets = vec![CompressionOptions::default(), CompressionOptions::fast(), CompressionOptions::high()];
    let at = |pos: &Vec<usize>, second: &Vec<usize>| {
        let (pos, second) = (pos.clone(), second.clone());
        move |i: u64, d: &[u8]| {
            let (a, s) = (pos[(i % np) as usize], second[(i / np) as usize]);
            if a + s > d.len() {
                return None;
            }
            Some(if s == 0 { vec![a] } else { vec![a, a + s] })
        }
    };
    let what = format!("{} positions around every buffer limit, and {:?} bytes later", np, second);
    let mut v = vec![
        cut_fam(seven(r_grid(opts.clone(), if q { 3 } else { N_MIXED })), &what, nn, at(&pos, &second)),
        cut_fam(few_letters(r_grid(presets.clone(), if q { 2 } else { N_MIXED })), &what, nn, at(&pos, &second)),
    ];
    v.push(cut_fam(few_letters(r_short(if q { 6 } else { 9 }, presets)), "every single one", 80, |i, d| if i as usize <= d.len() { Some(vec![i as usize]) } else { None }));
    v.push(cut_fam(seven(r_short(if q { 7 } else { 9 }, opts.clone())), "every single one", 80, |i, d| if i as usize <= d.len() { Some(vec![i as usize]) } else { None }));
    v.push(cut_fam(seven(r_edge(opts.clone(), if q { 27 } else { 5 })), "at the window edges +-3", 14, |i, d| {
        let a = [32768usize, 65536][(i % 2) as usize] - 3 + (i / 2) as usize;
        if a > d.len() {
            return None;
        }
        Some(vec![a])
    }));
    // Runs that a flush or the end of a window falls into.
    let lens: Vec<usize> = if q { vec![2, 3, 4, 5, 6, 258, 259, 261, 517, 600] } else { (1..=8).chain(255..=265).chain(510..=525).chain([600, 1000]).collect() };
    let at: Vec<usize> = if q { vec![0, 1, 2, 31_000, 32_400, 32_509, 32_510, 32_767, 32_768, 65_277, 65_536] } else { (0..4).chain([31_000]).chain((32_240..32_780).step_by(9)).chain(65_200..65_290).chain(65_530..65_540).collect() };
    let dims = [3u64, 12, lens.len() as u64, at.len() as u64];
    v.push(Family::new("cuts-run", &format!("a run of {:?} bytes at {} positions, flushed 0 to 5 bytes from its start or end, with rle and an exhaustive search", lens, at.len()), dims.iter().product(), move |idx, ctx| {
        let mut i = idx;
        let mut take = |k: u64| {
            let r = i % k;
            i /= k;
            r as usize
        };
        let op = [CompressionOptions::rle(), o(32768, 0, G), o(32768, 258, L)][take(3)];
        let c = take(12);
        let n = lens[take(dims[2])];
        let a = at[take(dims[3])];
        let u = uniq7(a + 60);
        let mut data = u[..a].to_vec();
        data.extend(std::iter::repeat(200).take(n));
        data.extend_from_slice(&u[a..]);
        let cut = if c < 6 { a + c } else { (a + n).wrapping_sub(c - 6) };
        if cut < a || cut > a + n {
            return;
        }
        set_block_mode(0);
        check_c24(&data, &[cut], op, ctx);
    }));
    // A chunk, its copy at a distance, flushes just before, in and just after either.
    let starts: Vec<usize> = if q { vec![0, 1, 3, 400, 32500, 32766, 32768, 65530, 65536] } else { (0..8).chain(32500..32520).chain(32756..32780).chain(65530..65542).collect() };
    let dists: Vec<usize> = if q { vec![40, 8193, 32766, 32768, 32769] } else { vec![40, 258, 8191, 8192, 8193, 20_000, 31_744, 32_509, 32_510, 32_511, 32_765, 32_766, 32_767, 32_768, 32_769] };
    let lens = [3usize, 4, 20, 258];
    let rel = [-2i64, -1, 0, 1, 2, 3, 10];
    let (ns, nd) = (starts.len() as u64, dists.len() as u64);
    let no = opts.len() as u64;
    let dims = [no, 4, 7, 8, nd, ns];
    v.push(Family::new(
        "cuts-copy",
        &format!("a chunk of {:?} bytes at {} positions, again at distances {:?}, flushed {:?} bytes from its start and from that of the copy (or not)", lens, ns, dists, rel),
        dims.iter().product(),
        move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = opts[take(dims[0])];
            let l = lens[take(4)];
            let r1 = rel[take(7)];
            let r2 = take(8);
            let d = dists[take(dims[4])];
            let s = starts[take(dims[5])];
            let u = uniq7(s + d + 100);
            let mut data = u[..s + d].to_vec();
            for k in 0..l {
                let b = data[s + k];
                data.push(b);
            }
            data.extend_from_slice(&u[s + d..s + d + 50]);
            let mut cuts: Vec<usize> = vec![];
            let a = s as i64 + r1;
            if a < 0 {
                return;
            }
            cuts.push(a as usize);
            if r2 < 7 {
                let b = (s + d) as i64 + rel[r2];
                if b <= a {
                    return;
                }
                cuts.push(b as usize);
            }
            set_block_mode(0);
            check_c24(&data, &cuts, op, ctx);
        },
    ));
    v
}

// ---- C20 ---------------------------------------------------------------------------------------

#[derive(Clone)]
struct Actor {
    kind: Kind,
    opts: CompressionOptions,
    payload: Vec<u8>,
    ops: Vec<Op>,
    gz: u8,
}
/// An encoder executed one call at a time.
struct Live {
    enc: Option<AnyEnc>,
    pos: usize,
    outs: Vec<Arc<std::sync::Mutex<Vec<u8>>>>,
}
struct MSink(Arc<std::sync::Mutex<Vec<u8>>>, Option<Arc<dyn Fn() + Send + Sync>>);
impl Write for MSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0.lock().unwrap().extend_from_slice(b);
        if let Some(f) = &self.1 {
            if !b.is_empty() {
                f();
            }
        }
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
enum AnyEnc {
    D(DeflateEncoder<MSink>),
    Z(ZlibEncoder<MSink>),
    G(GzEncoder<MSink>),
}
impl Live {
    fn new(a: &Actor, hook: Option<Arc<dyn Fn() + Send + Sync>>) -> Live {
        let o = Arc::new(std::sync::Mutex::new(vec![]));
        let s = MSink(o.clone(), hook);
        Live {
            enc: Some(match a.kind {
                Kind::Raw => AnyEnc::D(DeflateEncoder::new(s, a.opts)),
                Kind::Zlib => AnyEnc::Z(ZlibEncoder::new(s, a.opts)),
                Kind::Gzip => AnyEnc::G(GzEncoder::from_builder(builder(a.gz), s, a.opts)),
            }),
            pos: 0,
            outs: vec![o],
        }
    }
    fn step(&mut self, a: &Actor, i: usize, hook: Option<Arc<dyn Fn() + Send + Sync>>) {
        let op = a.ops[i];
        macro_rules! each {
            ($e:ident => $x:expr) => {
                match self.enc.as_mut().unwrap() {
                    AnyEnc::D($e) => $x,
                    AnyEnc::Z($e) => $x,
                    AnyEnc::G($e) => $x,
                }
            };
        }
        match op {
            Op::Write(n) | Op::WriteAll(n) | Op::Std(n) | Op::Vec(n) => {
                let b = &a.payload[self.pos..(self.pos + n).min(a.payload.len())];
                each!(e => e.write_all(b).unwrap());
                self.pos += b.len();
            }
            Op::Flush => each!(e => e.flush().unwrap()),
            Op::Reset | Op::ResetB(_) => {
                let o = Arc::new(std::sync::Mutex::new(vec![]));
                self.outs.push(o.clone());
                let s = MSink(o, hook);
                each!(e => { e.reset(s).unwrap(); })
            }
            Op::Finish => match self.enc.take().unwrap() {
                AnyEnc::D(e) => drop(e.finish().unwrap()),
                AnyEnc::Z(e) => drop(e.finish().unwrap()),
                AnyEnc::G(e) => drop(e.finish().unwrap()),
            },
            Op::Drop => drop(self.enc.take()),
        }
    }
    fn result(&self) -> Vec<Vec<u8>> {
        self.outs.iter().map(|o| o.lock().unwrap().clone()).collect()
    }
}
fn solo(a: &Actor) -> Vec<Vec<u8>> {
    let mut l = Live::new(a, None);
    for i in 0..a.ops.len() {
        l.step(a, i, None);
    }
    l.result()
}
fn actors(q: bool) -> Vec<Actor> {
    let mut v = vec![];
    let pl: Vec<Vec<u8>> = if SMALL { small_payloads() } else { vec![mixed(0), mixed(6), mixed(3), uniq(150_000).to_vec()] };
    let n = if SMALL { [5usize, 14, 25] } else { [700usize, 40_000, 66_000] };
    let seqs: Vec<Vec<Op>> = vec![
        vec![Op::WriteAll(n[2]), Op::WriteAll(n[1]), Op::Finish],
        vec![Op::WriteAll(n[0]), Op::Flush, Op::WriteAll(n[2]), Op::Finish],
        vec![Op::WriteAll(n[1]), Op::Reset, Op::WriteAll(n[1]), Op::Drop],
        vec![Op::WriteAll(n[1]), Op::WriteAll(n[1]), Op::WriteAll(n[0]), Op::Drop],
    ];
    let opts = [CompressionOptions::default(), o(32768, 0, G), CompressionOptions::rle(), CompressionOptions::high()];
    let (pn, on) = if q { (2, 2) } else { (pl.len().min(6), 4) };
    for (i, s) in seqs.iter().enumerate() {
        for p in 0..pn {
            for oi in 0..on {
                v.push(Actor { kind: KINDS[(i + p + oi) % 3], opts: opts[(oi + i) % 4], payload: pl[(p * 5 + i) % pl.len()].clone(), ops: s.clone(), gz: (i % 3) as u8 });
            }
        }
    }
    v
}
/// All merges of two sequences of n and m steps, as bit masks.
fn merges(n: usize, m: usize) -> Vec<u32> {
    (0u32..1 << (n + m)).filter(|x| x.count_ones() as usize == m).collect()
}
fn c20(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let ac = Arc::new(actors(q));
    let na = ac.len() as u64;
    let diff = |what: &str, want: &Vec<Vec<u8>>, got: Vec<Vec<u8>>, ctx: &mut Ctx| {
        ctx.outcome(got.iter().fold(0, |h, v| mix(h, hash64(v))));
        if *want != got {
            ctx.fail("independent", format!("{}: output {} differs from the output when run alone {}", what, got.iter().map(|v| hex(v)).collect::<Vec<_>>().join(" / "), want.iter().map(|v| hex(v)).collect::<Vec<_>>().join(" / ")));
        }
    };
    let mut v = vec![];
    // The outputs of the first encoders of the whole process.
    set_block_mode(0);
    let first: Arc<Vec<Vec<Vec<u8>>>> = Arc::new(ac.iter().map(solo).collect());
    let counts = [0usize, 1, 2, 300, 70_000];
    let a0 = ac.clone();
    v.push(Family::new(
        "process-history",
        &format!("{} encoders, run after {:?} others of each kind on their thread (finished, dropped, reset, flushed), compared with the first ones of the process", na, counts),
        counts.len() as u64 * 3 * 4,
        move |idx, ctx| {
            let n = counts[(idx % 5) as usize];
            let kind = KINDS[(idx / 5 % 3) as usize];
            let how = idx / 15;
            ctx.describe(|| format!("after {} {:?} encoders, use {}", n, kind, how));
            set_block_mode(0);
            let (a0, first) = (a0.clone(), first.clone());
            let got = std::thread::spawn(move || {
                set_block_mode(0);
                for i in 0..n {
                    let (s, _d) = plain_sink(0);
                    let mut e = Enc::new(kind, CompressionOptions::default(), 0, s);
                    let _ = e.write(&[i as u8, 1, 2, 3]);
                    match how {
                        0 => drop(e.finish()),
                        1 => drop(e),
                        2 => {
                            let (s, _d) = plain_sink(1);
                            let _ = e.reset(s, None);
                        }
                        _ => {
                            let _ = e.flush();
                            let _ = e.finish();
                        }
                    }
                }
                (0..a0.len()).find_map(|i| {
                    let o = solo(&a0[i]);
                    (o != first[i]).then(|| (i, o, first[i].clone()))
                })
            })
            .join()
            .unwrap();
            ctx.traces += n as u64 + na;
            ctx.transitions += 3 * (n as u64 + na);
            ctx.state(mix(idx, 77));
            if let Some((i, o, w)) = got {
                ctx.fail("independent", format!("encoder {}: output {} differs from the output as first encoder of the process {}", i, o.iter().map(|v| hex(v)).collect::<Vec<_>>().join(" / "), w.iter().map(|v| hex(v)).collect::<Vec<_>>().join(" / ")));
            }
        },
    ));
    // Solo outputs come from a fresh thread each, before anything else ran there.
    let a1 = ac.clone();
    let modes = if SMALL { 3u64 } else { 1 };
    v.push(Family::new(
        "interleave",
        &format!("every ordered pair of {} encoders, all interleavings of their calls (3-4 calls each), on one thread and with each encoder moved between two threads at every call", na),
        na * na * modes,
        move |idx, ctx| {
            let mode = (idx % modes) as u8;
            let (a, b) = (&a1[(idx / modes % na) as usize], &a1[(idx / modes / na) as usize]);
            ctx.describe(|| format!("{:?} {:?} {} | {:?} {:?} {}", a.kind, a.ops, show_opts(&a.opts), b.kind, b.ops, show_opts(&b.opts)));
            let fresh = |x: &Actor| {
                let x = x.clone();
                std::thread::spawn(move || {
                    set_block_mode(mode);
                    solo(&x)
                })
                .join()
                .unwrap()
            };
            set_block_mode(mode);
            let (wa, wb) = (fresh(a), fresh(b));
            let ms = merges(a.ops.len(), b.ops.len());
            for (mi, m) in ms.iter().enumerate() {
                if !SMALL && mi % (if q { 7 } else { 1 }) != 0 {
                    continue;
                }
                let (mut la, mut lb) = (Live::new(a, None), Live::new(b, None));
                let (mut i, mut j) = (0, 0);
                for k in 0..a.ops.len() + b.ops.len() {
                    if m >> k & 1 == 0 {
                        la.step(a, i, None);
                        i += 1;
                    } else {
                        lb.step(b, j, None);
                        j += 1;
                    }
                    ctx.transitions += 1;
                }
                ctx.traces += 1;
                ctx.state(mix(idx, *m as u64));
                diff(&format!("interleaving {:b}, first encoder", m), &wa, la.result(), ctx);
                diff(&format!("interleaving {:b}, second encoder", m), &wb, lb.result(), ctx);
                if !ctx.viols.is_empty() {
                    return;
                }
            }
            // Moving encoders between threads: every call on the other thread.
            let (mut la, mut lb) = (Live::new(a, None), Live::new(b, None));
            let (a2, b2) = (a.clone(), b.clone());
            let n = a.ops.len().max(b.ops.len());
            for k in 0..n {
                let (a3, b3) = (a2.clone(), b2.clone());
                let (x, y) = std::thread::spawn(move || {
                    set_block_mode(mode);
                    if k < a3.ops.len() {
                        la.step(&a3, k, None);
                    }
                    if k < b3.ops.len() {
                        lb.step(&b3, k, None);
                    }
                    (la, lb)
                })
                .join()
                .unwrap();
                la = x;
                lb = y;
                ctx.transitions += 2;
            }
            ctx.traces += 1;
            diff("moved between threads, first encoder", &wa, la.result(), ctx);
            diff("moved between threads, second encoder", &wb, lb.result(), ctx);
        },
    ));
    // Another encoder runs completely inside the k-th sink call.
    let a2 = ac.clone();
    v.push(Family::new(
        "nested",
        &format!("every ordered pair of {} encoders, the second run completely inside every single sink call of the first", na),
        na * na * modes,
        move |idx, ctx| {
            let mode = (idx % modes) as u8;
            let (a, b) = (&a2[(idx / modes % na) as usize], &a2[(idx / modes / na) as usize]);
            ctx.describe(|| format!("{:?} {:?} {} | {:?} {:?} {}", a.kind, a.ops, show_opts(&a.opts), b.kind, b.ops, show_opts(&b.opts)));
            set_block_mode(mode);
            let (wa, wb) = (solo(a), solo(b));
            let ok = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let calls = Arc::new(std::sync::atomic::AtomicU64::new(0));
            let (b3, wb3, ok3, calls3) = (b.clone(), wb.clone(), ok.clone(), calls.clone());
            let hook: Arc<dyn Fn() + Send + Sync> = Arc::new(move || {
                calls3.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                if solo(&b3) != wb3 {
                    ok3.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                }
            });
            let mut la = Live::new(a, Some(hook.clone()));
            for i in 0..a.ops.len() {
                la.step(a, i, Some(hook.clone()));
            }
            let c = calls.load(std::sync::atomic::Ordering::SeqCst);
            ctx.traces += 1 + c;
            ctx.transitions += a.ops.len() as u64 + c * b.ops.len() as u64;
            ctx.state(mix(idx, 77));
            diff("nested, outer encoder", &wa, la.result(), ctx);
            if ok.load(std::sync::atomic::Ordering::SeqCst) > 0 {
                ctx.fail("independent", "nested, inner encoder: output differs from the output when run alone".into());
            }
        },
    ));
    // An encoder used earlier on the same thread, that may have ended badly.
    let a4 = ac.clone();
    let faults = [Ans::Block, Ans::Other, Ans::Zero, Ans::Panic, Ans::All];
    let nk = match (SMALL, q) {
        (true, true) => 5u64,
        (false, true) => 3,
        _ => 12,
    };
    v.push(Family::new(
        "predecessor",
        &format!("every ordered pair of {} encoders: the first used on the same thread before the second, with its sink answering WouldBlock / Other / Ok(0) / a panic from call k < {} on, or no fault, and the encoder dropped after the failed call or only after two retries and all later calls; the output of the second compared with that on a new thread", na, nk),
        na * na * modes * 5 * nk * 2,
        move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r
            };
            let mode = take(modes) as u8;
            let fault = faults[take(5) as usize];
            let k = take(nk) as usize;
            let policy = [Policy::Drop, Policy::Retry(2)][take(2) as usize];
            let (a, b) = (a4[take(na) as usize].clone(), a4[take(na) as usize].clone());
            // Without a fault, k cuts the history short instead: dropped or finished halfway.
            let mut ops = a.ops.clone();
            if fault == Ans::All {
                ops.truncate(k.max(1));
            }
            ctx.describe(|| format!("{:?} {:?} {} sink {:?} from call {} on, {:?}; then {:?} {:?} {}", a.kind, ops, show_opts(&a.opts), fault, k, policy, b.kind, b.ops, show_opts(&b.opts)));
            let b2 = b.clone();
            let want = std::thread::spawn(move || {
                set_block_mode(mode);
                solo(&b2)
            })
            .join()
            .unwrap();
            let got = std::thread::spawn(move || {
                set_block_mode(mode);
                let h = Hist { kind: a.kind, opts: a.opts, payload: &a.payload, ops: &ops, policy, gz: a.gz, check: false };
                run(&h, &Script { pre: vec![Ans::All; k], then: vec![fault], cap: None, empties: false }, false);
                solo(&b)
            })
            .join()
            .unwrap();
            ctx.traces += 1;
            ctx.transitions += 8;
            ctx.state(mix(idx, 99));
            diff("after another encoder on the same thread", &want, got, ctx);
        },
    ));
    // Two threads that hand over at sink calls: all schedules with at most p switches.
    let a3 = ac;
    let maxsw = if q { 2usize } else { 3 };
    v.push(Family::new(
        "threads",
        &format!("pairs of {} encoders on two threads that run one at a time and switch at sink calls: all schedules with <= {} switches among the first 12 sink calls", na, maxsw),
        if SMALL { na * na } else { na },
        move |idx, ctx| {
            let (a, b) = (&a3[(idx % na) as usize], &a3[((idx / na + idx % na + 1) % na) as usize]);
            ctx.describe(|| format!("{:?} {:?} {} | {:?} {:?} {}", a.kind, a.ops, show_opts(&a.opts), b.kind, b.ops, show_opts(&b.opts)));
            set_block_mode(0);
            let (wa, wb) = (solo(a), solo(b));
            // Switch points: sets of up to maxsw numbers below 12.
            let mut scheds: Vec<Vec<u32>> = vec![vec![]];
            let lim = 12u32;
            for x in 0..lim {
                scheds.push(vec![x]);
                for y in x + 1..lim {
                    scheds.push(vec![x, y]);
                    if maxsw > 2 {
                        for z in y + 1..lim {
                            scheds.push(vec![x, y, z]);
                        }
                    }
                }
            }
            if !SMALL {
                scheds.retain(|s| s.len() <= 1 && (!q || s.iter().all(|x| x % 3 == 0)));
            }
            for s in &scheds {
                let (ra, rb) = run_threads(a, b, s);
                ctx.traces += 1;
                ctx.transitions += (a.ops.len() + b.ops.len()) as u64;
                ctx.state(mix(idx, s.iter().fold(1, |h, x| h * 31 + *x as u64)));
                diff(&format!("threads, switches at {:?}, first encoder", s), &wa, ra, ctx);
                diff(&format!("threads, switches at {:?}, second encoder", s), &wb, rb, ctx);
                if !ctx.viols.is_empty() {
                    return;
                }
            }
        },
    ));
    v.push(inside_calls(tier));
    v
}
/// Encoders for interleavings inside of calls: every block type, a flush, a reset and a second window.
fn race_actors() -> Vec<Actor> {
    let small = small_payloads();
    let text: Vec<u8> = if SMALL { small[5 % small.len()].clone() } else { content(2, 3000) };
    let other: Vec<u8> = if SMALL { small[9 % small.len()].clone() } else { [content(2, 9000)[3000..].iter().map(|b| b.wrapping_mul(3)).collect::<Vec<u8>>(), vec![7u8; 600], uniq(400).to_vec()].concat() };
    let long: Vec<u8> = if SMALL { small[7 % small.len()].clone() } else { mixed(0) };
    let n = text.len();
    let half = other.len() / 2;
    vec![
        Actor { kind: Kind::Zlib, opts: CompressionOptions::default(), payload: text.clone(), ops: vec![Op::WriteAll(n), Op::Finish], gz: 0 },
        Actor { kind: Kind::Raw, opts: CompressionOptions::high(), payload: other.clone(), ops: vec![Op::WriteAll(half), Op::Flush, Op::WriteAll(half), Op::Drop], gz: 0 },
        Actor { kind: Kind::Gzip, opts: o(16, 0, G), payload: other, ops: vec![Op::WriteAll(half), Op::Reset, Op::WriteAll(half), Op::Finish], gz: 1 },
        Actor { kind: Kind::Zlib, opts: CompressionOptions::rle(), payload: text, ops: vec![Op::WriteAll(n), Op::Flush, Op::Finish], gz: 0 },
        Actor { kind: Kind::Raw, opts: CompressionOptions::fast(), payload: long.clone(), ops: vec![Op::WriteAll(long.len()), Op::Finish], gz: 0 },
    ]
}
/// mc race A B I J: the encoders A and B (- for none) in this new process, A handing over before
/// its access number I to static memory (- for never), and B before its access number J.
pub fn race(a: &str, b: &str, i: &str, j: &str) -> i32 {
    let ac = race_actors();
    let jobs: Vec<Box<dyn FnOnce() -> Vec<Vec<u8>> + Send>> = [a, b]
        .iter()
        .filter_map(|x| x.parse::<usize>().ok())
        .map(|x| {
            let x = ac[x].clone();
            let f: Box<dyn FnOnce() -> Vec<Vec<u8>> + Send> = Box::new(move || {
                set_block_mode(0);
                solo(&x)
            });
            f
        })
        .collect();
    let r = crate::race::run(jobs, [i.parse().ok(), j.parse().ok()]);
    println!("RACE {}", if r.given_up { "free" } else { "full" });
    for o in &r.outs {
        println!("O {:016x} {}", o.iter().fold(1, |h, v| mix(h, hash64(v))), o.iter().map(|v| v.len().to_string()).collect::<Vec<_>>().join("+"));
    }
    // Where to hand over: before the first, second and last access by each instruction.
    for t in 0..2u32 {
        let v: Vec<usize> = r.accesses.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
        println!("N {} {}", t, v.len());
        let mut by: std::collections::BTreeMap<usize, Vec<usize>> = Default::default();
        for (k, ip) in v.iter().enumerate() {
            by.entry(*ip).or_default().push(k);
        }
        let mut pts: Vec<usize> = by.values().flat_map(|k| [k[0], k[1.min(k.len() - 1)], k[k.len() - 1]]).collect();
        pts.sort_unstable();
        pts.dedup();
        println!("P {} {}", t, pts.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
    0
}
struct RaceRun {
    outs: Vec<String>,
    n: [usize; 2],
    points: [Vec<usize>; 2],
    free: bool,
}
fn race_child(a: &str, b: &str, i: &str, j: &str) -> Result<RaceRun, String> {
    // Schedules are deterministic, so a failure that doesn't return is not one of the code explored.
    race_once(a, b, i, j).or_else(|_| race_once(a, b, i, j)).or_else(|_| race_once(a, b, i, j))
}
fn race_once(a: &str, b: &str, i: &str, j: &str) -> Result<RaceRun, String> {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let p = std::process::Command::new(exe).args(["race", a, b, i, j]).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output().map_err(|e| e.to_string())?;
    let t = String::from_utf8_lossy(&p.stdout).to_string();
    if !p.status.success() || !t.starts_with("RACE") {
        return Err(format!("{}", p.status));
    }
    let mut r = RaceRun { outs: vec![], n: [0; 2], points: [vec![], vec![]], free: t.starts_with("RACE free") };
    for l in t.lines() {
        let f: Vec<&str> = l.splitn(3, ' ').collect();
        match f[0] {
            "O" => r.outs.push(l.to_string()),
            "N" => r.n[f[1].parse::<usize>().unwrap()] = f[2].parse().unwrap(),
            "P" => r.points[f[1].parse::<usize>().unwrap()] = f[2].split(',').filter_map(|x| x.parse().ok()).collect(),
            _ => (),
        }
    }
    Ok(r)
}
fn inside_calls(tier: &str) -> Family {
    let n = race_actors().len() as u64;
    let cap = if quick(tier) { 40usize } else { 200 };
    Family::new(
        "inside-calls",
        &format!("ordered pairs of {} encoders on two threads, one process per schedule; every access to writable static memory (the only memory their calls could share) is a point where the running thread may be preempted: all schedules with at most one preemption of each thread, before the first, second or last access by each instruction (the first {} such points of each thread)", n, cap),
        n * n,
        move |idx, ctx| {
            let (a, b) = (idx % n, idx / n);
            ctx.describe(|| format!("encoders {} and {} of race_actors()", a, b));
            let (a, b) = (a.to_string(), b.to_string());
            let want: Vec<String> = match (race_child(&a, "-", "-", "-"), race_child(&b, "-", "-", "-")) {
                (Ok(x), Ok(y)) => vec![x.outs[0].clone(), y.outs[0].clone()],
                _ => {
                    ctx.count("pairs for which monitoring static memory was not possible", 1);
                    return;
                }
            };
            let mut todo: std::collections::VecDeque<(String, String)> = vec![("-".into(), "-".into())].into();
            let (mut k, mut traps, mut gave_up, mut points) = (0u64, 0u64, 0u32, [vec![], vec![]]);
            while let Some((i, j)) = todo.pop_front() {
                // A program that uses static memory all the time is explored as far as this goes.
                if gave_up >= 8 || k >= 10 && traps > 2_000_000 {
                    ctx.count("pairs whose schedules were not all run", 1);
                    return;
                }
                let r = race_child(&a, &b, &i, &j);
                ctx.traces += 1;
                ctx.state(mix(idx, k));
                match r {
                    Err(e) => {
                        ctx.fail("independent", format!("preempted before accesses {} and {}: {}, while both run alone", i, j, e));
                        return;
                    }
                    Ok(r) => {
                        ctx.transitions += (r.n[0] + r.n[1]) as u64;
                        ctx.outcome(r.outs.iter().fold(idx, |h, v| mix(h, hash64(v.as_bytes()))));
                        ctx.count("accesses to static memory inside of calls", (r.n[0] + r.n[1]) as u64);
                        traps += (r.n[0] + r.n[1]) as u64;
                        if r.free {
                            gave_up += 1;
                            ctx.count("schedules given up as the other thread waited for the preempted one", 1);
                        }
                        if r.outs != want {
                            ctx.fail("independent", format!("two threads, the first preempted before its access {} to static memory, the second before its access {}: outputs {:?} differ from those of the encoders alone {:?}", i, j, r.outs, want));
                            return;
                        }
                        if k == 0 {
                            points = r.points;
                            todo.extend(points[0].iter().take(cap).map(|i| (i.to_string(), "-".into())));
                        } else if j == "-" && !r.free {
                            todo.extend(points[1].iter().take(cap).map(|j| (i.clone(), j.to_string())));
                        }
                    }
                }
                k += 1;
            }
        },
    )
}
/// Runs the actors on two threads with a baton; at global sink call number s_i the baton changes hands.
fn run_threads(a: &Actor, b: &Actor, switches: &[u32]) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    use std::sync::{Condvar, Mutex};
    struct S {
        turn: usize,
        count: u32,
        done: [bool; 2],
    }
    let st = Arc::new((Mutex::new(S { turn: 0, count: 0, done: [false; 2] }), Condvar::new()));
    let sw: Arc<Vec<u32>> = Arc::new(switches.to_vec());
    let spawn = |me: usize, x: &Actor| {
        let (x, st, sw) = (x.clone(), st.clone(), sw.clone());
        std::thread::spawn(move || {
            struct Done(Arc<(Mutex<S>, Condvar)>, usize);
            impl Drop for Done {
                fn drop(&mut self) {
                    let mut g = self.0 .0.lock().unwrap_or_else(|e| e.into_inner());
                    g.done[self.1] = true;
                    g.turn = 1 - self.1;
                    self.0 .1.notify_all();
                }
            }
            let wait = |st: &Arc<(Mutex<S>, Condvar)>| {
                let mut g = st.0.lock().unwrap();
                while g.turn != me {
                    g = st.1.wait(g).unwrap();
                }
            };
            set_block_mode(0);
            wait(&st);
            let _d = Done(st.clone(), me);
            let st2 = st.clone();
            let hook: Arc<dyn Fn() + Send + Sync> = Arc::new(move || {
                let mut g = st2.0.lock().unwrap();
                let c = g.count;
                g.count += 1;
                if sw.contains(&c) && !g.done[1 - me] {
                    g.turn = 1 - me;
                    st2.1.notify_all();
                    while g.turn != me {
                        g = st2.1.wait(g).unwrap();
                    }
                }
            });
            let mut l = Live::new(&x, Some(hook.clone()));
            for i in 0..x.ops.len() {
                l.step(&x, i, Some(hook.clone()));
            }
            l.result()
        })
    };
    let (ta, tb) = (spawn(0, a), spawn(1, b));
    (ta.join().unwrap_or_default(), tb.join().unwrap_or_default())
}

// ---- C21 ---------------------------------------------------------------------------------------

/// Unique-trigram text over 128 letters, so that literals are Huffman coded and matches show in the size.
fn uniq7(n: usize) -> &'static [u8] {
    use std::sync::OnceLock;
    static U: OnceLock<Vec<u8>> = OnceLock::new();
    let v = U.get_or_init(|| {
        let mut seen = vec![false; 1 << 21];
        let mut g = Lcg(99);
        let mut v: Vec<u8> = vec![3, 77];
        while v.len() < 300_000 {
            let l = v.len();
            let p = (v[l - 2] as usize) << 14 | (v[l - 1] as usize) << 7;
            let mut b = (g.next() & 127) as usize;
            let mut n = 0;
            while seen[p | b] && n < 128 {
                b = (b + 1) & 127;
                n += 1;
            }
            seen[p | b] = true;
            v.push(b as u8);
        }
        v
    });
    &v[..n]
}
fn c21(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    if SMALL {
        return vec![];
    }
    // Position of the first copy, distance, length, partition.
    let mut starts: Vec<usize> = vec![0, 1, 500];
    for b in [31744usize, 32768, 65536] {
        for d in [-600i64, -300, -258, -100, -3, -2, -1, 0, 1, 2, 3, 257, 258, 300] {
            starts.push((b as i64 + d) as usize);
        }
    }
    let dists: Vec<usize> = vec![400, 1000, 8191, 8193, 16384, 24576, 32000, 32509, 32510];
    let lens: Vec<usize> = if q { vec![64, 300] } else { vec![64, 100, 257, 258, 259, 300, 399] };
    let chunkings: Vec<usize> = if q { vec![0, 4096, 32768] } else { vec![0, 1000, 4096, 32767, 32768, 33026, 65536] };
    let opts = [CompressionOptions::default(), CompressionOptions::high()];
    let tails: Vec<usize> = if q { vec![0, 700] } else { vec![0, 1, 700, 40_000] };
    let (ns, nd, nl, nc, nt) = (starts.len() as u64, dists.len() as u64, lens.len() as u64, chunkings.len() as u64, tails.len() as u64);
    let again = {
        // The second copy, a match itself, is what the third (from inside of the chunk) has to be found at.
        let starts: Vec<usize> = vec![0, 7, 500, 5000, 31744 - 200, 32768 - 258, 32768 - 100];
        let d1: Vec<usize> = vec![20_000, 31_000, 32_510];
        let d2: Vec<usize> = vec![13_000, 20_000, 32_000, 32_510];
        let lens: Vec<usize> = if q { vec![100, 300] } else { vec![65, 100, 257, 258, 259, 300, 399] };
        let offs: Vec<usize> = if q { vec![0, 1, 2, 5, 17, 36] } else { (0..=36).collect() };
        let chunkings: Vec<usize> = if q { vec![0, 4096] } else { vec![0, 1000, 4096, 32768] };
        let dims = [2, chunkings.len(), lens.len(), offs.len(), d1.len(), d2.len(), starts.len()];
        Family::new(
            "repeat-again",
            &format!("first copy at {} positions, second at distances {:?}, then the chunk from offsets {:?} on again at distances {:?} from the second (the first out of reach) x lengths {:?} x write sizes {:?} x Default, Best", starts.len(), d1, offs, d2, lens, chunkings),
            dims.iter().map(|&d| d as u64).product(),
            move |idx, ctx| {
                let mut i = idx;
                let mut t = dims.iter().map(|&k| {
                    let r = i % k as u64;
                    i /= k as u64;
                    r as usize
                });
                let mut take = || t.next().unwrap();
                let (op, ch, len, off, d1, d2, s) = (opts[take()], chunkings[take()], lens[take()], offs[take()], d1[take()], d2[take()], starts[take()]);
                let off = off.min(len - 64);
                if d1 + d2 <= 32768 {
                    return;
                }
                ctx.describe(|| format!("copies at {}, {}, {}+{} of {} bytes, chunks {} {}", s, s + d1, s + d1 + d2, off, len, ch, show_opts(&op)));
                let u = uniq7(s + d1 + d2 + 700);
                let mut a = u[..s + d1].to_vec();
                a.extend_from_slice(&u[s..s + len]);
                let n = s + d1 + d2 + off;
                a.extend_from_slice(&u[s + d1 + len..n]);
                let mut b = a.clone();
                b.extend_from_slice(&u[s + off..s + len]);
                a.extend_from_slice(&u[n..n + 200]);
                b.extend_from_slice(&u[n..n + 200]);
                let go = |v: &[u8], ctx: &mut Ctx| {
                    if ch == 0 {
                        ctx.traces += 1;
                        ctx.transitions += 1;
                        oneshot(Kind::Raw, v, op, 0).len()
                    } else {
                        run_chunks(Kind::Raw, op, v, &mut std::iter::repeat(ch), ctx).len()
                    }
                };
                let (x, y) = (go(&a, ctx), go(&b, ctx));
                ctx.state(mix(idx, y as u64));
                let cost = y as i64 - x as i64;
                let bound = c21_bound(len - off);
                if cost > bound {
                    ctx.fail("repeat", format!("a repeat of {} bytes at distance {} of a repeat costs {} bytes, bound {}", len - off, d2, cost, bound));
                }
            },
        )
    };
    vec![again, Family::new(
        "repeat",
        &format!("first copy at {} positions around window edges x {} distances x lengths {:?} x write sizes {:?} (0: one-shot) x {:?} new bytes after the repeat x Default, Best; added cost of the repeat measured", ns, nd, lens, chunkings, tails),
        ns * nd * nl * nc * nt * 2,
        move |idx, ctx| {
            let mut i = idx;
            let mut take = |k: u64| {
                let r = i % k;
                i /= k;
                r as usize
            };
            let op = opts[take(2)];
            let ch = chunkings[take(nc)];
            let len = lens[take(nl)];
            let d = dists[take(nd)];
            let s = starts[take(ns)];
            let tail = tails[take(nt)];
            ctx.describe(|| format!("first copy at {} distance {} length {} then {} bytes, chunks {} {}", s, d, len, tail, ch, show_opts(&op)));
            let a = uniq7(s + d + tail).to_vec();
            let mut b = a[..s + d].to_vec();
            b.extend_from_slice(&a[s..s + len]);
            b.extend_from_slice(&a[s + d..]);
            let go = |v: &[u8], ctx: &mut Ctx| {
                if ch == 0 {
                    ctx.traces += 1;
                    ctx.transitions += 1;
                    oneshot(Kind::Raw, v, op, 0).len()
                } else {
                    run_chunks(Kind::Raw, op, v, &mut std::iter::repeat(ch), ctx).len()
                }
            };
            let (x, y) = (go(&a, ctx), go(&b, ctx));
            ctx.state(mix(idx, y as u64));
            let cost = y as i64 - x as i64;
            let m = ctx.counters.entry("largest added cost seen minus 4*ceil(len/258) (bytes)").or_insert(0);
            *m = (*m).max((cost - 4 * ((len as i64 + 257) / 258)).max(0) as u64);
            let bound = c21_bound(len);
            if cost > bound {
                ctx.fail("repeat", format!("a repeat of {} bytes at distance {} (first copy at {}, {} byte writes) costs {} bytes, bound {}", len, d, s, ch, cost, bound));
            }
        },
    )]
}
fn c21_bound(len: usize) -> i64 {
    24 + 4 * ((len as i64 + 257) / 258)
}

// ---- C23 ---------------------------------------------------------------------------------------

fn check_c23(c: &Case, ctx: &mut Ctx) {
    let raw = oneshot(Kind::Raw, &c.data, c.opts, 0);
    ctx.shot(c, &raw);
    ctx.traces += 5;
    ctx.transitions += 5;
    let strip = |k: Kind, v: &[u8]| -> Vec<u8> {
        match k {
            Kind::Raw => v.to_vec(),
            Kind::Zlib if v.len() >= 6 => v[2..v.len() - 4].to_vec(),
            Kind::Gzip if v.len() >= 18 => v[10..v.len() - 8].to_vec(),
            _ => vec![],
        }
    };
    for k in KINDS {
        if k != Kind::Raw {
            let v = oneshot(k, &c.data, c.opts, 0);
            if strip(k, &v) != raw {
                ctx.fail("entry", format!("one-shot {:?} carries {} but raw is {}", k, hex(&strip(k, &v)), hex(&raw)));
            }
        }
        let e = enc_bytes(k, &c.data, c.opts, 0);
        if strip(k, &e) != raw {
            ctx.fail("entry", format!("{:?} encoder carries {} but one-shot raw is {}", k, hex(&strip(k, &e)), hex(&raw)));
        }
    }
    let g = enc_bytes(Kind::Gzip, &c.data, c.opts, 3);
    let n = builder(3).into_header().len();
    if g.len() < n + 8 || g[n..g.len() - 8] != raw[..] {
        ctx.fail("entry", "gzip encoder with header fields carries a different stream".into());
    }
}
fn c23(tier: &str) -> Vec<Family> {
    let q = quick(tier);
    let mut v: Vec<Family> = corpus(tier).into_iter().filter(|c| !["r-freq", "r-mat", "r-grid", "r-tok", "s-quad", "r-second"].contains(&c.name.as_str()) || !q).map(|c| fam(c, check_c23)).collect();
    let mut s = space();
    s.alphabet = plus(wra(), &[Op::Flush, Op::Reset]);
    s.ends = vec![Op::Finish, Op::Drop];
    s.depth = if SMALL { if q { 4 } else { 5 } } else { if q { 2 } else { 3 } };
    s.payloads = if SMALL { sp(if q { 3 } else { 6 }) } else { rp(if q { 1 } else { 3 }) };
    v.push(s.family("hist", "the same calls on the three encoders; streams compared after removing header and trailer", |it, ctx| {
        let s = Script::ok();
        ctx.describe(|| it.show(&s));
        let r = exec(it, &s, &ALWAYS, ctx, false);
        for k in [Kind::Zlib, Kind::Gzip] {
            let it2 = Item { h: Hist { kind: k, ..it.h.clone() }, mode: it.mode };
            let r2 = exec(&it2, &s, &ALWAYS, ctx, false);
            let (a, b) = if k == Kind::Zlib { (2, 4) } else { (10, 8) };
            for (x, y) in r.streams.iter().zip(&r2.streams) {
                let (x, y) = (x.data.borrow(), y.data.borrow());
                if y.len() < a + b || x[..] != y[a..y.len() - b] {
                    ctx.fail("entry", format!("{:?} carries {} but raw is {} | {}", k, hex(&y), hex(&x), it.show(&s)));
                    return;
                }
            }
            if r.streams.len() != r2.streams.len() {
                ctx.fail("entry", format!("{:?}: {} streams instead of {}", k, r2.streams.len(), r.streams.len()));
            }
        }
    }));
    v
}

// ---- all ---------------------------------------------------------------------------------------

pub fn families(prop: &str, tier: &str) -> Vec<Family> {
    let q = quick(tier);
    match prop {
        "C01" => corpus(tier).into_iter().map(|c| fam(c, check_c01)).chain(huge(tier, Kind::Raw)).collect(),
        "C02" => {
            let mut v: Vec<Family> = corpus(tier).into_iter().map(|c| fam(c, |c, x| check_complete_case(Kind::Raw, 0, c, x))).collect();
            v.extend(hist_ok(tier, &[Kind::Raw], STREAM, vec![0]));
            v.push(many(tier, &[Kind::Raw], &[Op::Finish], STREAM));
            v.extend(hist_flush(tier, &[Kind::Raw], STREAM));
            v.push(cycles(tier, &[Kind::Raw], &[Op::Finish], STREAM));
            v
        }
        "C03" => {
            let mut v: Vec<Family> = corpus(tier).into_iter().filter(|c| !q || !["r-freq", "r-mat", "s-quad", "r-second"].contains(&c.name.as_str())).map(|c| fam(c, |c, x| check_complete_case(Kind::Zlib, 0, c, x))).collect();
            v.extend(hist_ok(tier, &[Kind::Zlib], STREAM, vec![0]));
            v.push(many(tier, &[Kind::Zlib], &[Op::Finish], STREAM));
            v.extend(hist_flush(tier, &[Kind::Zlib], STREAM));
            v.push(cycles(tier, &[Kind::Zlib], &[Op::Finish], STREAM));
            v.extend(huge(tier, Kind::Zlib));
            v.extend(sums(tier, &[Kind::Zlib]));
            v
        }
        "C04" => {
            let mut v: Vec<Family> = corpus(tier).into_iter().filter(|c| !q || !["r-freq", "r-mat", "s-quad", "r-second"].contains(&c.name.as_str())).map(|c| fam(c, |c, x| check_complete_case(Kind::Gzip, 0, c, x))).collect();
            // Headers against an independent parser.
            let inputs: Vec<Vec<u8>> = vec![vec![], vec![0], b"hello hello hello".to_vec(), uniq(300).to_vec(), if SMALL { small_payloads()[0].clone() } else { mixed(0) }];
            let ni = inputs.len() as u64;
            v.push(Family::new("headers", &format!("{} header builders x {} inputs x one-shot, encoder, encoder flushed first, reset_with_builder", N_BUILDERS, ni), N_BUILDERS as u64 * ni * 4, move |idx, ctx| {
                let b = (idx % N_BUILDERS as u64) as u8;
                let d = &inputs[(idx / N_BUILDERS as u64 % ni) as usize];
                let how = idx / N_BUILDERS as u64 / ni;
                ctx.describe(|| format!("builder {} input {} how {}", b, hex(d), how));
                set_block_mode(0);
                let op = CompressionOptions::default();
                let outs: Vec<(Vec<u8>, u8)> = match how {
                    0 => vec![(oneshot(Kind::Gzip, d, op, b), b)],
                    1 => vec![(enc_bytes(Kind::Gzip, d, op, b), b)],
                    2 => {
                        let mut e = GzEncoder::from_builder(builder(b), Vec::new(), op);
                        e.flush().unwrap();
                        e.write_all(d).unwrap();
                        e.flush().unwrap();
                        vec![(e.finish().unwrap(), b)]
                    }
                    _ => {
                        let mut e = GzEncoder::from_builder(builder((b + 1) % N_BUILDERS), Vec::new(), op);
                        e.write_all(d).unwrap();
                        let x = e.reset_with_builder(Vec::new(), builder(b)).unwrap();
                        e.write_all(d).unwrap();
                        let y = e.reset(Vec::new()).unwrap();
                        let z = e.finish().unwrap();
                        if let Err(m) = gz_stream_check(&z, &[], 0) {
                            ctx.fail("stream", format!("after reset: {}", m));
                        }
                        vec![(x, (b + 1) % N_BUILDERS), (y, b)]
                    }
                };
                for (o, b) in outs {
                    ctx.traces += 1;
                    ctx.transitions += 3;
                    ctx.state(hash64(&o));
                    if let Err(m) = gz_stream_check(&o, d, b) {
                        ctx.fail("stream", format!("builder {}: {} | {}", b, m, hex(&o)));
                    }
                }
            }));
            v.extend(hist_ok(tier, &[Kind::Gzip], STREAM, vec![0, 3]));
            v.push(many(tier, &[Kind::Gzip], &[Op::Finish], STREAM));
            let mut s = space();
            s.kinds = vec![Kind::Gzip];
            s.alphabet = vec![if SMALL { Op::WriteAll(9) } else { Op::WriteAll(300) }, Op::Write(0), Op::Flush, Op::Reset, Op::ResetB(2), Op::ResetB(7)];
            s.depth = if q { 4 } else { 5 };
            s.builders = vec![0, 1];
            s.ends = vec![Op::Finish, Op::Drop];
            v.push(named(
                s.family("hist", "cooperating sink", move |it, ctx| {
                    let s = Script::ok();
                    ctx.describe(|| it.show(&s));
                    exec(it, &s, STREAM, ctx, false);
                }),
                "builder-",
            ));
            v.extend(hist_flush(tier, &[Kind::Gzip], STREAM));
            v.push(cycles(tier, &[Kind::Gzip], &[Op::Finish], STREAM));
            v.extend(huge(tier, Kind::Gzip));
            v.extend(sums(tier, &[Kind::Gzip]));
            v
        }
        "C05" => c05(tier).into_iter().chain(c05_flush(tier)).collect(),
        "C06" => hist_flush(tier, &KINDS, STREAM).into_iter().chain(hist_ok(tier, &KINDS, STREAM, vec![0])).chain([cycles(tier, &KINDS, &[Op::Finish], STREAM), many(tier, &KINDS, &[Op::Finish], STREAM)]).collect(),
        "C07" => c07(tier),
        "C08" => {
            const CL: &[&str] = &["panic", "term", "prefix", "finish-incomplete", "drop-incomplete", "reset-incomplete", "flush-incomplete", "spurious-error", "returned-writer"];
            let mut v = fault_families(tier, &KINDS, vec![Policy::Retry(3), Policy::Proceed, Policy::Drop], ERRS, CL);
            let mut pats: Vec<Vec<Ans>> = vec![];
            let letters = [Ans::Block, Ans::One, Ans::Half, Ans::All, Ans::Zero];
            for len in 2..=3u32 {
                for i in 0..5u32.pow(len) {
                    pats.push((0..len).map(|j| letters[(i / 5u32.pow(j) % 5) as usize]).collect());
                }
            }
            v.extend(kind_faults(tier, &KINDS, vec![Policy::Retry(3), Policy::Proceed, Policy::Drop], CL));
            let mut s = fault_space(q, &KINDS, vec![Policy::Retry(4), Policy::Proceed]);
            s.depth = if SMALL { if q { 3 } else { 4 } } else { 1 };
            v.push(hist_cyclic("cyclic", s, pats, CL));
            v
        }
        "C09" => c09(tier),
        "C10" => c10(tier),
        "C11" => c11(tier),
        "C12" => {
            const CL: &[&str] = &["panic", "term", "write-count", "write-zero", "checksum", "prefix", "finish-incomplete"];
            let mut v = vec![];
            let mut s = space();
            s.kinds = KINDS.to_vec();
            s.ends = vec![Op::Finish];
            s.alphabet = plus(if SMALL { vec![Op::Write(0), Op::Write(1), Op::Write(5), Op::Write(9), Op::Write(22), Op::Write(60)] } else { vec![Op::Write(0), Op::Write(1), Op::Write(300), Op::Write(33000), Op::Write(66000), Op::Write(200_000)] }, &[Op::Flush, Op::Reset]);
            s.depth = if SMALL { if q { 5 } else { 6 } } else { if q { 2 } else { 3 } };
            s.payloads = if SMALL { sp(if q { 2 } else { 5 }) } else { rp(if q { 1 } else { 2 }) };
            s.opts = vec![CompressionOptions::default()];
            v.push(s.family("writes", "cooperating sink", |it, ctx| {
                let s = Script::ok();
                ctx.describe(|| it.show(&s));
                exec(it, &s, CL, ctx, false);
            }));
            v.extend(fault_families(tier, &KINDS, vec![Policy::Retry(2), Policy::Proceed], ERRS, CL));
            v.extend(kind_faults(tier, &KINDS, vec![Policy::Retry(2), Policy::Proceed], CL));
            v.push(std_writes(tier, &KINDS, CL));
            v.push(many(tier, &[Kind::Zlib, Kind::Gzip], &[Op::Finish], CL));
            v.push(cycles(tier, &KINDS, &[Op::Finish], CL));
            v.extend(sums(tier, &[Kind::Zlib, Kind::Gzip]));
            v
        }
        "C13" => {
            if SMALL {
                return vec![];
            }
            let mut v: Vec<Family> = corpus(tier).into_iter().filter(|c| !["r-grid", "r-tok"].contains(&c.name.as_str()) || !q).map(|c| fam(c, check_c13)).collect();
            v.push(fam(r_inc(if q { 20 } else { 70 }, vec![CompressionOptions::default(), CompressionOptions::huffman_only(), CompressionOptions::rle()]), check_c13));
            v.last_mut().unwrap().name = "r-inc-wide".into();
            // Flushes.
            let sizes: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 20, 100, 258, 31743, 31744, 31745, 32767, 32768, 33000, 65535, 65536];
            let ns = sizes.len() as u64;
            let nf = if q { 2u32 } else { 3 };
            v.push(Family::new("flushes", &format!("{} incompressible writes of sizes {:?} with a flush after each, all combinations", nf, sizes), ns.pow(nf) * 2, move |idx, ctx| {
                let op = [CompressionOptions::default(), CompressionOptions::fast()][(idx % 2) as usize];
                let mut i = idx / 2;
                let mut e = DeflateEncoder::new(Vec::new(), op);
                let mut p = 0;
                for _ in 0..nf {
                    let n = sizes[(i % ns) as usize];
                    i /= ns;
                    e.write_all(&uniq(p + n)[p..]).unwrap();
                    e.flush().unwrap();
                    p += n;
                }
                let out = e.finish().unwrap();
                ctx.describe(|| format!("{} bytes in {} flushed writes -> {}", p, nf, out.len()));
                ctx.traces += 1;
                ctx.transitions += 2 * nf as u64 + 1;
                ctx.state(hash64(&out));
                if out.len() > c13_bound(p, nf as usize) {
                    ctx.fail("size", format!("{} input bytes with {} flushes became {} bytes, bound {}", p, nf, out.len(), c13_bound(p, nf as usize)));
                }
            }));
            v
        }
        "C14" | "C15" => {
            if SMALL {
                return vec![];
            }
            let chk = if prop == "C14" { check_c14 } else { check_c15 };
            let mut v: Vec<Family> = corpus(tier).into_iter().filter(|c| !["r-bytes", "r-freq", "r-dist", "r-edge"].contains(&c.name.as_str()) || !q).map(|c| fam(c, chk)).collect();
            v.extend(block_flush(q, prop == "C14"));
            let mut f = fam(r_freq(if q { vec![1, 37] } else { vec![1, 3, 7, 11, 37, 85] }, vec![CompressionOptions::huffman_only(), CompressionOptions::rle(), CompressionOptions::default()]), chk);
            f.name = "r-freq-3".into();
            v.push(f);
            v
        }
        "C16" => {
            let ks = if q { vec![o(1, 0, G), o(128, 32, L), o(32768, 0, L)] } else { vec![o(1, 0, G), o(2, 0, L), o(4, 4, L), o(128, 32, L), o(1768, 128, L), o(32768, 0, L)] };
            let mut v: Vec<Family> = vec![];
            if SMALL {
                v.push(fam(s_bin(if q { 13 } else { 16 }, ks.clone(), vec![0]), check_c16));
                v.push(fam(s_tern(if q { 8 } else { 10 }, ks.clone(), vec![0]), check_c16));
                v.push(fam(s_pre(8, if q { 24 } else { 40 }, if q { 6 } else { 8 }, ks.clone(), vec![0]), check_c16));
                v.push(fam(s_bin(if q { 10 } else { 14 }, vec![o(128, 32, L)], vec![0]), check_presets));
            } else {
                v.push(fam(r_len(if q { 150 } else { 300 }, ks.clone()), check_c16));
                v.push(fam(r_runs(if q { 800 } else { 2000 }, ks.clone()), check_c16));
                v.push(fam(r_bound(if q { ks[1..2].to_vec() } else { ks.clone() }), check_c16));
                v.push(fam(r_seg(if q { 2 } else { 3 }, ks[..2].to_vec()), check_c16));
                v.push(fam(r_grid(ks.clone(), if q { 4 } else { N_MIXED }), check_c16));
                v.push(fam(r_chain(q, true), check_c16));
                v.push(named(fam(r_bound(vec![o(128, 32, L)]), check_presets), "presets-"));
                v.push(named(fam(r_grid(vec![o(128, 32, L)], N_MIXED), check_presets), "presets-"));
            }
            if SMALL {
                let l = v.pop().unwrap();
                v.push(named(l, "presets-"));
            }
            v
        }
        "C17" => {
            const CL: &[&str] = &["panic", "term", "panic-writes", "prefix"];
            let mut v = vec![];
            let mut s = fault_space(q, &KINDS, vec![Policy::Retry(2), Policy::Proceed]);
            s.depth = if SMALL { if q { 4 } else { 5 } } else { 2 };
            v.push(hist_faults("panic", s.clone(), &[Ans::Panic], 1, if SMALL { 60 } else { 12 }, CL));
            s.depth = if SMALL { if q { 3 } else { 4 } } else { 1 };
            v.push(hist_faults("fault-then-panic", s, &[Ans::Panic, Ans::One, Ans::Block, Ans::Intr, Ans::Zero], 2, if SMALL { 24 } else { 5 }, CL));
            v
        }
        "C18" => c18(tier),
        "C19" => {
            let os = c19_opts(q);
            if SMALL {
                vec![
                    fam(s_bin(if q { 15 } else { 19 }, os.clone(), vec![0]), check_c19),
                    fam(s_tern(if q { 10 } else { 12 }, os.clone(), vec![0]), check_c19),
                    fam(s_quad(if q { 7 } else { 9 }, os.clone(), vec![0]), check_c19),
                    fam(s_pre(8, if q { 30 } else { 42 }, if q { 8 } else { 11 }, os.clone(), vec![0]), check_c19),
                    fam(s_rep(if q { 5 } else { 8 }, 90, os, vec![0]), check_c19),
                ]
            } else {
                vec![
                    fam(r_short(if q { 8 } else { 10 }, os.clone()), check_c19),
                    fam(r_len(if q { 300 } else { 700 }, os.clone()), check_c19),
                    fam(r_bound(os.clone()), check_c19),
                    fam(r_dist(boundary_distances(), if q { vec![3, 4, 5, 257, 258, 259] } else { (3..=259).step_by(2).collect() }, os[..3].to_vec()), check_c19),
                    fam(r_edge(os[..3].to_vec(), if q { 9 } else { 1 }), check_c19),
                    fam(r_tok(os[..3].to_vec(), if q { 2 } else { 20 }, vec![0, 1, 2, 3, 100, 257, 258, 259]), check_c19),
                    fam(r_grid(os.clone(), N_MIXED), check_c19),
                    fam(r_seg(if q { 2 } else { 3 }, os[..3].to_vec()), check_c19),
                    fam(r_mat(if q { 30 } else { 400 }, os.clone()), check_c19),
                    fam(r_chain(q, true), check_c19),
                    fam(max_checks(r_chain(q, true)), check_c19),
                    fam(r_far(if q { 3 } else { 300 }, if q { vec![3, 4, 258] } else { vec![3, 4, 5, 258, 259, 600] }, os[..4].to_vec()), check_c19),
                    fam(seven(r_bound(os.clone())), check_c19),
                    fam(seven(r_dist(boundary_distances(), if q { vec![3, 4, 258] } else { (3..=259).step_by(2).collect() }, os[..4].to_vec())), check_c19),
                    fam(seven(r_edge(os[..4].to_vec(), if q { 2 } else { 1 })), check_c19),
                    fam(seven(r_tok(os[..4].to_vec(), if q { 2 } else { 20 }, vec![0, 1, 2, 3, 100, 257, 258, 259])), check_c19),
                    fam(seven(r_seg(if q { 2 } else { 3 }, os[..4].to_vec())), check_c19),
                ]
            }
        }
        "C20" => c20(tier),
        "C21" => c21(tier),
        "C22" => {
            let mut v: Vec<Family> = corpus(tier)
                .into_iter()
                .map(|c| {
                    fam(c, |c, ctx| {
                        let out = oneshot(Kind::Raw, &c.data, c.opts, 0);
                        ctx.shot(c, &out);
                    })
                })
                .collect();
            v.extend(hist_flush(tier, &[Kind::Raw], &ALWAYS));
            v.push(cycles(tier, &KINDS, &[Op::Finish, Op::Drop], &ALWAYS));
            v.push(many(tier, &KINDS, &[Op::Finish], &ALWAYS));
            v.extend(huge(tier, Kind::Raw));
            v.extend(fault_families(tier, &KINDS, vec![Policy::Retry(2), Policy::Proceed], ERRS, &ALWAYS));
            v.extend(kind_faults(tier, &KINDS, vec![Policy::Retry(2), Policy::Proceed], &ALWAYS));
            v.push(long_waits(tier, &ALWAYS, false));
            v
        }
        "C23" => c23(tier),
        "C24" => c24(tier),
        "C25" => c25(tier),
        "C26" => c26(tier),
        _ => vec![],
    }
}

// ---- validation of the machinery ---------------------------------------------------------------

/// The decoder used as oracle agrees with an independent one on valid streams and on damaged ones.
pub fn selftest() -> i32 {
    let mut bad = 0;
    let (mut n, mut both_ok, mut rejected) = (0u64, 0u64, 0u64);
    for c in corpus("quick") {
        let step = (c.n / 400).max(1);
        let mut i = 0;
        while i < c.n {
            let case = (c.gen)(i);
            set_block_mode(case.mode);
            let out = oneshot(Kind::Raw, &case.data, case.opts, 0);
            let lim = inflate::Limits { window: 32768, max_match: 258, want_toks: false };
            let mut tests = vec![out.clone()];
            if out.len() < 600 {
                for b in 0..(out.len() * 8).min(160) {
                    let mut o = out.clone();
                    o[b / 8] ^= 1 << (b % 8);
                    tests.push(o);
                }
            }
            for t in tests {
                n += 1;
                let a = inflate(&t, &lim).ok().filter(|d| matches!(d.end, inflate::End::Final { .. })).map(|d| d.out);
                let b = miniz(&t).ok();
                match (&a, &b) {
                    (Some(a), Some(b)) if a == b => both_ok += 1,
                    (None, _) => rejected += 1,
                    (Some(_), _) => {
                        bad += 1;
                        println!("DISAGREE on {}", hex(&t));
                    }
                }
            }
            i += step;
        }
    }
    println!("{} streams: {} decoded equally, {} rejected by the strict decoder, {} disagreements", n, both_ok, rejected, bad);
    // Reference Huffman construction.
    for f in freq_shapes().iter().take(4000) {
        let f: Vec<u64> = f.iter().map(|&x| x as u64).collect();
        let (c, d) = huff::optimal(&f);
        let l = huff::limited(&f, 15);
        let k: f64 = l.iter().filter(|&&x| x > 0).map(|&x| 2f64.powi(-(x as i32))).sum();
        if d <= 15 && huff::cost(&f, &l) != c || f.iter().filter(|&&x| x > 0).count() > 1 && k != 1.0 {
            bad += 1;
            println!("HUFFMAN {:?}", f);
        }
    }
    let zs = [vec![0u8; 70_001], b"tail".to_vec()].concat();
    if adler32_zeros(70_001, b"tail") != adler32(&zs) || crc32_zeros(70_001, b"tail") != crc32(&zs) {
        bad += 1;
    }
    if adler32(b"Wikipedia") != 0x11E60398 || crc32(b"123456789") != 0xCBF43926 {
        bad += 1;
    }
    (bad > 0) as i32
}

/// Writes streams for cross-checking with other decoders: files <dir>/<n>.{in,raw,zlib,gz}.
pub fn emit(dir: &str) -> i32 {
    std::fs::create_dir_all(dir).unwrap();
    let mut k = 0;
    for c in corpus("quick") {
        let step = (c.n / 60).max(1);
        let mut i = 0;
        while i < c.n {
            let case = (c.gen)(i);
            std::fs::write(format!("{}/{}.in", dir, k), &case.data).unwrap();
            std::fs::write(format!("{}/{}.raw", dir, k), oneshot(Kind::Raw, &case.data, case.opts, 0)).unwrap();
            std::fs::write(format!("{}/{}.zlib", dir, k), oneshot(Kind::Zlib, &case.data, case.opts, 0)).unwrap();
            std::fs::write(format!("{}/{}.gz", dir, k), oneshot(Kind::Gzip, &case.data, case.opts, (k % N_BUILDERS as u64) as u8)).unwrap();
            k += 1;
            i += step;
        }
    }
    let _ = LEN_BASE;
    println!("{} streams", k);
    0
}
