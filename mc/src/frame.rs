//! Container framing (raw / zlib / gzip) checks on complete streams and on prefixes.
use crate::inflate::{inflate, Decoded, End, Limits};
use crate::sums::{adler32, crc32};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Raw,
    Zlib,
    Gzip,
}
pub const KINDS: [Kind; 3] = [Kind::Raw, Kind::Zlib, Kind::Gzip];

impl Kind {
    pub fn trailer(&self, acc: &[u8]) -> Vec<u8> {
        match self {
            Kind::Raw => vec![],
            Kind::Zlib => adler32(acc).to_be_bytes().to_vec(),
            Kind::Gzip => {
                let mut v = crc32(acc).to_le_bytes().to_vec();
                v.extend_from_slice(&(acc.len() as u32).to_le_bytes());
                v
            }
        }
    }
}

pub fn zlib_header_ok(h: &[u8], max_dist: usize) -> Result<(), String> {
    let (cmf, flg) = (h[0] as u32, h[1] as u32);
    if cmf & 15 != 8 {
        return Err(format!("zlib header: method {}", cmf & 15));
    }
    if cmf >> 4 > 7 {
        return Err(format!("zlib header: window code {}", cmf >> 4));
    }
    if (1usize << (8 + (cmf >> 4))) < max_dist {
        return Err(format!("zlib header: window 2^{} smaller than distance {}", 8 + (cmf >> 4), max_dist));
    }
    if flg & 0x20 != 0 {
        return Err("zlib header: preset dictionary flag".into());
    }
    if (cmf * 256 + flg) % 31 != 0 {
        return Err("zlib header: wrong check value".into());
    }
    Ok(())
}

pub struct Prefix {
    pub dec: Decoded,
    /// Header, deflate stream and trailer are all there, and nothing else.
    pub complete: bool,
    /// All accepted data is there, and the stream ends right after an empty stored block.
    pub synced: bool,
}

/// Check that `data` is a prefix of a valid stream of (at least a prefix of) `acc`.
/// `gz_header` is the header expected for gzip.
pub fn check_prefix(kind: Kind, data: &[u8], acc: &[u8], gz_header: &[u8], lim: &Limits) -> Result<Prefix, String> {
    let hl = match kind {
        Kind::Raw => 0,
        Kind::Zlib => 2,
        Kind::Gzip => gz_header.len(),
    };
    let hn = data.len().min(hl);
    if kind == Kind::Gzip && data[..hn] != gz_header[..hn] {
        return Err(format!("gzip header bytes {:02x?} differ from the expected {:02x?}", &data[..hn], gz_header));
    }
    if data.len() < hl {
        let dec = inflate(&[], lim)?;
        return Ok(Prefix { dec, complete: false, synced: false });
    }
    let body = &data[hl..];
    let dec = inflate(body, lim).map_err(|e| format!("invalid deflate stream: {}", e))?;
    if kind == Kind::Zlib {
        zlib_header_ok(&data[..2], dec.max_dist)?;
    }
    if dec.out.len() > acc.len() || dec.out[..] != acc[..dec.out.len()] {
        let i = dec.out.iter().zip(acc).position(|(a, b)| a != b).unwrap_or(acc.len().min(dec.out.len()));
        return Err(format!("decoded data differs from the accepted data at byte {} (decoded {} bytes, accepted {})", i, dec.out.len(), acc.len()));
    }
    match dec.end {
        End::Final { byte_pos } => {
            if dec.out.len() != acc.len() {
                return Err(format!("final block after {} of {} accepted bytes", dec.out.len(), acc.len()));
            }
            let rest = &body[byte_pos..];
            let tr = kind.trailer(acc);
            if rest.len() > tr.len() || rest != &tr[..rest.len()] {
                return Err(format!("after the final block: {:02x?}, expected trailer {:02x?}", &rest[..rest.len().min(24)], tr));
            }
            Ok(Prefix { complete: rest.len() == tr.len(), synced: false, dec })
        }
        End::More { at_block_start } => {
            let synced = at_block_start
                && dec.out.len() == acc.len()
                && dec.blocks.last().map_or(false, |b| {
                    b.typ == 0 && b.out_start == b.out_end && b.end_bit == body.len() * 8 && body.ends_with(&[0, 0, 0xff, 0xff])
                });
            Ok(Prefix { complete: false, synced, dec })
        }
    }
}

pub fn check_complete(kind: Kind, data: &[u8], acc: &[u8], gz_header: &[u8], lim: &Limits) -> Result<Decoded, String> {
    let p = check_prefix(kind, data, acc, gz_header, lim)?;
    if !p.complete {
        return Err(format!("stream of {} bytes is incomplete: {} of {} bytes decodable, {:?}", data.len(), p.dec.out.len(), acc.len(), p.dec.end));
    }
    Ok(p.dec)
}

/// Independent RFC 1952 header parser.
#[derive(Debug, PartialEq, Eq, Default, Clone)]
pub struct GzHeader {
    pub text: bool,
    pub hcrc: bool,
    pub extra: Option<Vec<u8>>,
    pub name: Option<Vec<u8>>,
    pub comment: Option<Vec<u8>>,
    pub mtime: u32,
    pub xfl: u8,
    pub os: u8,
    pub len: usize,
}

pub fn parse_gz_header(d: &[u8]) -> Result<GzHeader, String> {
    let mut h = GzHeader::default();
    if d.len() < 10 || d[0] != 0x1f || d[1] != 0x8b || d[2] != 8 {
        return Err("no gzip magic/method".into());
    }
    let flg = d[3];
    if flg & 0xe0 != 0 {
        return Err("reserved flag bits set".into());
    }
    h.text = flg & 1 != 0;
    h.mtime = u32::from_le_bytes([d[4], d[5], d[6], d[7]]);
    h.xfl = d[8];
    h.os = d[9];
    let mut p = 10;
    if flg & 4 != 0 {
        let n = *d.get(p).ok_or("short")? as usize + ((*d.get(p + 1).ok_or("short")? as usize) << 8);
        h.extra = Some(d.get(p + 2..p + 2 + n).ok_or("short extra")?.to_vec());
        p += 2 + n;
    }
    let zstr = |p: &mut usize| -> Result<Vec<u8>, String> {
        let e = d[*p..].iter().position(|&c| c == 0).ok_or("unterminated string")?;
        let v = d[*p..*p + e].to_vec();
        *p += e + 1;
        Ok(v)
    };
    if flg & 8 != 0 {
        h.name = Some(zstr(&mut p)?);
    }
    if flg & 16 != 0 {
        h.comment = Some(zstr(&mut p)?);
    }
    if flg & 2 != 0 {
        h.hcrc = true;
        let want = (crc32(&d[..p]) & 0xffff) as u16;
        let got = d.get(p..p + 2).ok_or("short header crc")?;
        if got != want.to_le_bytes() {
            return Err("wrong header crc".into());
        }
        p += 2;
    }
    h.len = p;
    Ok(h)
}
