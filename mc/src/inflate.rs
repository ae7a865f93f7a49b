//! A strict RFC 1951 decoder that also reports the structure of the stream.
//! Works on prefixes: running out of input is not an error but an `End`.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Tok {
    /// Match length, or the literal value when `dist` is 0.
    pub len: u16,
    pub dist: u16,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub typ: u8, // 0 stored, 1 fixed, 2 dynamic
    pub last: bool,
    pub start_bit: usize,
    /// First bit after the header (dynamic: after the code lengths).
    pub data_bit: usize,
    pub end_bit: usize,
    pub out_start: usize,
    pub out_end: usize,
    pub tok_start: usize,
    pub tok_end: usize,
    pub lit_lens: Vec<u8>,
    pub dist_lens: Vec<u8>,
    pub cl_lens: [u8; 19],
    pub cl_freq: [u32; 19],
    pub hclen: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum End {
    /// The final block ended in the byte before this position.
    Final { byte_pos: usize },
    /// The input ran out. `at_block_start`: exactly after the end of a non-final block (or nothing was read).
    More { at_block_start: bool },
}

#[derive(Clone, Debug)]
pub struct Decoded {
    pub out: Vec<u8>,
    pub toks: Vec<Tok>,
    pub blocks: Vec<Block>,
    pub end: End,
    pub max_dist: usize,
}

#[derive(Clone, Copy)]
pub struct Limits {
    pub window: usize,
    pub max_match: usize,
    pub want_toks: bool,
}

pub const LEN_BASE: [u16; 29] = [
    3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258,
];
pub const LEN_EXTRA: [u8; 29] = [
    0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0,
];
pub const DIST_BASE: [u16; 30] = [
    1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145,
    8193, 12289, 16385, 24577,
];
pub const DIST_EXTRA: [u8; 30] = [
    0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13,
];
pub const CL_ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];

pub fn len_symbol(len: u16) -> usize {
    if len == 258 {
        return 285;
    }
    let i = LEN_BASE[..28].iter().rposition(|&b| b <= len).unwrap();
    257 + i
}
pub fn dist_symbol(d: u16) -> usize {
    DIST_BASE.iter().rposition(|&b| b <= d).unwrap()
}

struct Bits<'a> {
    d: &'a [u8],
    pos: usize, // bit position
}

enum Stop {
    More,
    Bad(String),
}
type R<T> = Result<T, Stop>;

fn bad<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Bad(s.into()))
}

impl<'a> Bits<'a> {
    #[inline]
    fn left(&self) -> usize {
        self.d.len() * 8 - self.pos
    }
    #[inline]
    fn peek16(&self) -> u32 {
        let b = self.pos >> 3;
        let mut v = 0u32;
        let n = self.d.len();
        if b < n {
            v |= self.d[b] as u32;
        }
        if b + 1 < n {
            v |= (self.d[b + 1] as u32) << 8;
        }
        if b + 2 < n {
            v |= (self.d[b + 2] as u32) << 16;
        }
        (v >> (self.pos & 7)) & 0xffff
    }
    #[inline]
    fn bits(&mut self, n: u32) -> R<u32> {
        if (n as usize) > self.left() {
            return Err(Stop::More);
        }
        let v = self.peek16() & ((1u32 << n) - 1);
        self.pos += n as usize;
        Ok(v)
    }
}

const FAST: u32 = 9;

pub struct Huff {
    fast: Vec<u16>, // sym << 4 | len, 0 = none
    count: [u16; 16],
    symbol: Vec<u16>,
    pub left: i32,
    pub used: usize,
}

impl Huff {
    pub fn new(lens: &[u8]) -> Result<Huff, String> {
        let mut count = [0u16; 16];
        for &l in lens {
            if l > 15 {
                return Err(format!("code length {} > 15", l));
            }
            count[l as usize] += 1;
        }
        let used = lens.len() - count[0] as usize;
        count[0] = 0;
        let mut left = 1i32;
        for l in 1..16 {
            left <<= 1;
            left -= count[l] as i32;
            if left < 0 {
                return Err("over-subscribed code".into());
            }
        }
        let mut offs = [0u16; 17];
        for l in 1..16 {
            offs[l + 1] = offs[l] + count[l];
        }
        let mut symbol = vec![0u16; used];
        let mut next = [0u32; 17];
        let mut code = 0u32;
        for l in 1..16 {
            code = (code + if l > 1 { count[l - 1] as u32 } else { 0 }) << 1;
            next[l] = code;
        }
        let mut fast = vec![0u16; 1 << FAST];
        for (s, &l) in lens.iter().enumerate() {
            if l == 0 {
                continue;
            }
            symbol[offs[l as usize] as usize] = s as u16;
            offs[l as usize] += 1;
            let c = next[l as usize];
            next[l as usize] += 1;
            if (l as u32) <= FAST {
                let mut r = 0u32;
                for i in 0..l as u32 {
                    r |= ((c >> i) & 1) << (l as u32 - 1 - i);
                }
                let mut i = r;
                while i < (1 << FAST) {
                    fast[i as usize] = ((s as u16) << 4) | l as u16;
                    i += 1 << l;
                }
            }
        }
        Ok(Huff { fast, count, symbol, left, used })
    }

    #[inline]
    fn decode(&self, b: &mut Bits) -> R<usize> {
        let v = b.peek16();
        let left = b.left();
        let e = self.fast[(v & ((1 << FAST) - 1)) as usize];
        if e != 0 {
            let l = (e & 15) as usize;
            if l > left {
                return Err(Stop::More);
            }
            b.pos += l;
            return Ok((e >> 4) as usize);
        }
        let (mut code, mut first, mut index) = (0i32, 0i32, 0i32);
        for l in 1..16usize {
            if l > left {
                return Err(Stop::More);
            }
            code |= ((v >> (l - 1)) & 1) as i32;
            let c = self.count[l] as i32;
            if code - c < first {
                b.pos += l;
                return Ok(self.symbol[(index + code - first) as usize] as usize);
            }
            index += c;
            first += c;
            first <<= 1;
            code <<= 1;
        }
        bad("bits that are no code")
    }
}

pub fn fixed_lit_lens() -> Vec<u8> {
    let mut v = vec![8u8; 288];
    v[144..256].fill(9);
    v[256..280].fill(7);
    v
}

fn fixed() -> &'static (Huff, Huff) {
    static F: std::sync::OnceLock<(Huff, Huff)> = std::sync::OnceLock::new();
    F.get_or_init(|| (Huff::new(&fixed_lit_lens()).unwrap(), Huff::new(&[5u8; 32]).unwrap()))
}

fn codes(b: &mut Bits, d: &mut Decoded, lit: &Huff, dist: &Huff, lim: &Limits) -> R<()> {
    loop {
        let s = lit.decode(b)?;
        if s < 256 {
            d.out.push(s as u8);
            if lim.want_toks {
                d.toks.push(Tok { len: s as u16, dist: 0 });
            }
        } else if s == 256 {
            return Ok(());
        } else {
            let s = s - 257;
            if s >= 29 {
                return bad(format!("length symbol {}", s + 257));
            }
            let ex = b.bits(LEN_EXTRA[s] as u32)?;
            if s == 27 && ex == 31 {
                return bad("length 258 coded as symbol 284");
            }
            let len = LEN_BASE[s] as usize + ex as usize;
            if dist.used == 0 {
                return bad("match in a block without distance codes");
            }
            let ds = dist.decode(b)?;
            if ds >= 30 {
                return bad(format!("distance symbol {}", ds));
            }
            let dx = b.bits(DIST_EXTRA[ds] as u32)?;
            let di = DIST_BASE[ds] as usize + dx as usize;
            if di > d.out.len() {
                return bad(format!("distance {} with only {} bytes of output", di, d.out.len()));
            }
            if di > lim.window {
                return bad(format!("distance {} exceeds the window {}", di, lim.window));
            }
            if len > lim.max_match {
                return bad(format!("length {} exceeds the maximum {}", len, lim.max_match));
            }
            d.max_dist = d.max_dist.max(di);
            let start = d.out.len() - di;
            for i in 0..len {
                let c = d.out[start + i];
                d.out.push(c);
            }
            if lim.want_toks {
                d.toks.push(Tok { len: len as u16, dist: di as u16 });
            }
        }
    }
}

fn dynamic_header(b: &mut Bits, blk: &mut Block) -> R<(Huff, Huff)> {
    let hlit = b.bits(5)? as usize + 257;
    let hdist = b.bits(5)? as usize + 1;
    let hclen = b.bits(4)? as usize + 4;
    if hlit > 286 {
        return bad(format!("HLIT {}", hlit));
    }
    if hdist > 30 {
        return bad(format!("HDIST {}", hdist));
    }
    blk.hclen = hclen;
    let mut cl = [0u8; 19];
    for &i in &CL_ORDER[..hclen] {
        cl[i] = b.bits(3)? as u8;
    }
    blk.cl_lens = cl;
    let clh = match Huff::new(&cl) {
        Ok(h) if h.left == 0 => h,
        Ok(_) => return bad("incomplete code length code"),
        Err(e) => return bad(format!("code length code: {}", e)),
    };
    let total = hlit + hdist;
    let mut lens: Vec<u8> = Vec::with_capacity(total);
    while lens.len() < total {
        let s = clh.decode(b)?;
        blk.cl_freq[s] += 1;
        let (v, n) = match s {
            0..=15 => (s as u8, 1),
            16 => {
                let p = match lens.last() {
                    Some(&p) => p,
                    None => return bad("repeat code without previous length"),
                };
                (p, 3 + b.bits(2)? as usize)
            }
            17 => (0, 3 + b.bits(3)? as usize),
            _ => (0, 11 + b.bits(7)? as usize),
        };
        if lens.len() + n > total {
            return bad("code length repeat past the end");
        }
        lens.extend(std::iter::repeat(v).take(n));
    }
    let (ll, dl) = lens.split_at(hlit);
    if ll[256] == 0 {
        return bad("no code for end of block");
    }
    let lit = match Huff::new(ll) {
        Ok(h) if h.left == 0 => h,
        Ok(_) => return bad("incomplete literal/length code"),
        Err(e) => return bad(format!("literal/length code: {}", e)),
    };
    let dist = match Huff::new(dl) {
        Ok(h) => h,
        Err(e) => return bad(format!("distance code: {}", e)),
    };
    let single = dist.used == 1 && dl.iter().all(|&l| l <= 1);
    let none = dist.used == 0 && hdist == 1;
    if dist.left != 0 && !single && !none {
        return bad("incomplete distance code");
    }
    blk.lit_lens = ll.to_vec();
    blk.dist_lens = dl.to_vec();
    Ok((lit, dist))
}

/// Decode one raw deflate stream (or a prefix of one).
pub fn inflate(data: &[u8], lim: &Limits) -> Result<Decoded, String> {
    let mut d = Decoded { out: Vec::new(), toks: Vec::new(), blocks: Vec::new(), end: End::More { at_block_start: true }, max_dist: 0 };
    let mut b = Bits { d: data, pos: 0 };
    loop {
        let at_start = b.left() < 8;
        let mut blk = Block { start_bit: b.pos, out_start: d.out.len(), tok_start: d.toks.len(), ..Default::default() };
        let r = (|| -> R<()> {
            blk.last = b.bits(1)? == 1;
            blk.typ = b.bits(2)? as u8;
            match blk.typ {
                0 => {
                    b.pos = (b.pos + 7) / 8 * 8;
                    let l = b.bits(16)?;
                    let n = b.bits(16)?;
                    if l ^ n != 0xffff {
                        return bad("stored length does not match its complement");
                    }
                    blk.data_bit = b.pos;
                    let p = b.pos / 8;
                    let have = (data.len() - p).min(l as usize);
                    d.out.extend_from_slice(&data[p..p + have]);
                    if lim.want_toks {
                        d.toks.extend(data[p..p + have].iter().map(|&c| Tok { len: c as u16, dist: 0 }));
                    }
                    if have < l as usize {
                        return Err(Stop::More);
                    }
                    b.pos += have * 8;
                    Ok(())
                }
                1 => {
                    blk.data_bit = b.pos;
                    let f = fixed();
                    codes(&mut b, &mut d, &f.0, &f.1, lim)
                }
                2 => {
                    let (l, di) = dynamic_header(&mut b, &mut blk)?;
                    blk.data_bit = b.pos;
                    codes(&mut b, &mut d, &l, &di, lim)
                }
                _ => bad("reserved block type"),
            }
        })();
        match r {
            Ok(()) => {
                blk.end_bit = b.pos;
                blk.out_end = d.out.len();
                blk.tok_end = d.toks.len();
                let last = blk.last;
                d.blocks.push(blk);
                if last {
                    d.end = End::Final { byte_pos: (b.pos + 7) / 8 };
                    return Ok(d);
                }
            }
            Err(Stop::More) => {
                // Fewer than 8 unread bits at a block start: padding (or the start of a header).
                d.end = End::More { at_block_start: at_start };
                return Ok(d);
            }
            Err(Stop::Bad(e)) => return Err(format!("block {} at bit {}: {}", d.blocks.len(), blk.start_bit, e)),
        }
    }
}
