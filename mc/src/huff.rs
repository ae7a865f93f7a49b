//! Reference Huffman code lengths: plain optimum and length-limited optimum (package-merge).

/// Cost of an optimal unrestricted prefix code and the smallest possible maximum depth of one.
pub fn optimal(freqs: &[u64]) -> (u64, u32) {
    let mut leaves: Vec<u64> = freqs.iter().copied().filter(|&f| f > 0).collect();
    leaves.sort();
    match leaves.len() {
        0 => return (0, 0),
        1 => return (leaves[0], 1),
        _ => {}
    }
    // Two-queue construction; on ties leaves first, which minimises the depth.
    let (mut i, mut j) = (0, 0);
    let mut q: Vec<(u64, u32)> = vec![];
    let mut cost = 0;
    let pop = |q: &Vec<(u64, u32)>, i: &mut usize, j: &mut usize| -> (u64, u32) {
        if *i < leaves.len() && (*j >= q.len() || leaves[*i] <= q[*j].0) {
            *i += 1;
            (leaves[*i - 1], 0)
        } else {
            *j += 1;
            q[*j - 1]
        }
    };
    for _ in 0..leaves.len() - 1 {
        let a = pop(&q, &mut i, &mut j);
        let b = pop(&q, &mut i, &mut j);
        cost += a.0 + b.0;
        q.push((a.0 + b.0, a.1.max(b.1) + 1));
    }
    (cost, q.last().unwrap().1)
}

/// Code lengths of an optimal code with no length above `limit`.
pub fn limited(freqs: &[u64], limit: usize) -> Vec<u8> {
    let mut syms: Vec<(u64, usize)> = freqs.iter().enumerate().filter(|(_, &f)| f > 0).map(|(i, &f)| (f, i)).collect();
    let mut lens = vec![0u8; freqs.len()];
    if syms.is_empty() {
        return lens;
    }
    if syms.len() == 1 {
        lens[syms[0].1] = 1;
        return lens;
    }
    syms.sort();
    let n = syms.len();
    // Package-merge with explicit symbol counts.
    let mut prev: Vec<(u64, Vec<u16>)> = vec![];
    for _ in 0..limit {
        let mut items: Vec<(u64, Vec<u16>)> = syms.iter().enumerate().map(|(i, s)| (s.0, {
            let mut c = vec![0u16; n];
            c[i] = 1;
            c
        })).collect();
        for p in prev.chunks_exact(2) {
            let c = p[0].1.iter().zip(&p[1].1).map(|(a, b)| a + b).collect();
            items.push((p[0].0 + p[1].0, c));
        }
        items.sort_by_key(|x| x.0);
        prev = items;
    }
    for it in prev.iter().take(2 * n - 2) {
        for (i, c) in it.1.iter().enumerate() {
            lens[syms[i].1] += *c as u8;
        }
    }
    lens
}

pub fn cost(freqs: &[u64], lens: &[u8]) -> u64 {
    freqs.iter().zip(lens).map(|(f, &l)| f * l as u64).sum()
}
