//! Boring reference checksums.

pub fn adler32(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for chunk in d.chunks(5000) {
        for &x in chunk {
            a += x as u32;
            b += a;
        }
        a %= 65521;
        b %= 65521;
    }
    (b << 16) | a
}

fn table() -> &'static [u32; 256] {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = i as u32;
            for _ in 0..8 {
                c = if c & 1 != 0 { 0xEDB8_8320 ^ (c >> 1) } else { c >> 1 };
            }
            *e = c;
        }
        t
    })
}

pub fn crc32(d: &[u8]) -> u32 {
    let t = table();
    let mut c = !0u32;
    for &b in d {
        c = t[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// Checksums of n zero bytes followed by these.
pub fn adler32_zeros(n: u64, d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u64, n % 65521);
    for &x in d {
        a = (a + x as u64) % 65521;
        b = (b + a) % 65521;
    }
    (b << 16 | a) as u32
}
pub fn crc32_zeros(n: u64, d: &[u8]) -> u32 {
    let t = table();
    // One zero byte is a linear map of the register; square it.
    let step = |c: u32| t[(c & 0xff) as usize] ^ (c >> 8);
    let apply = |m: &[u32; 32], c: u32| (0..32).filter(|i| c >> i & 1 == 1).fold(0, |a, i| a ^ m[i]);
    let mut m = [0u32; 32];
    for i in 0..32 {
        m[i] = step(1 << i);
    }
    let mut c = !0u32;
    let mut k = n;
    while k > 0 {
        if k & 1 == 1 {
            c = apply(&m, c);
        }
        let old = m;
        for x in m.iter_mut() {
            *x = apply(&old, *x);
        }
        k >>= 1;
    }
    for &b in d {
        c = t[((c ^ b as u32) & 0xff) as usize] ^ (c >> 8);
    }
    !c
}

/// The four bytes that give the data followed by them the CRC-32 `target`.
pub fn crc_force(d: &[u8], target: u32) -> [u8; 4] {
    let t = table();
    let mut idx = [0usize; 4];
    let mut x = !target;
    for k in (0..4).rev() {
        idx[k] = (0..256).find(|&i| t[i] >> 24 == x >> 24).unwrap();
        x = (x ^ t[idx[k]]) << 8;
    }
    let mut c = !crc32(d);
    let mut out = [0u8; 4];
    for k in 0..4 {
        out[k] = c as u8 ^ idx[k] as u8;
        c = t[idx[k]] ^ (c >> 8);
    }
    out
}

pub fn hash64(d: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    let mut it = d.chunks_exact(8);
    for c in &mut it {
        h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    for &b in it.remainder() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 32) ^ (d.len() as u64).wrapping_mul(0xD6E8FEB86659FD93)
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut h = (a ^ b.rotate_left(23)).wrapping_mul(0x9E3779B97F4A7C15);
    h ^= h >> 32;
    h
}
