//! Independent statement of the cryptography MS-NLMP prescribes, over the same primitives
//! (MD4/MD5 compression, single DES, RC4 key stream), and of the message layouts.
#![allow(dead_code)]
use crate::vp;

fn md(parts: &[&[u8]], init: [u32; 4], step: fn(&mut [u32; 4], &[u8; 64])) -> [u8; 16] {
    let mut m: Vec<u8> = Vec::new();
    for p in parts {
        m.extend_from_slice(p);
    }
    let bits = (m.len() as u64) * 8;
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0);
    }
    m.extend_from_slice(&bits.to_le_bytes());
    let mut st = init;
    let mut i = 0;
    while i < m.len() {
        let mut b = [0u8; 64];
        b.copy_from_slice(&m[i..i + 64]);
        step(&mut st, &b);
        i += 64;
    }
    let mut out = [0u8; 16];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&st[i].to_le_bytes());
    }
    out
}

const IV: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];

pub fn md5(parts: &[&[u8]]) -> [u8; 16] {
    md(parts, IV, vp::md5_compress)
}
pub fn md4(parts: &[&[u8]]) -> [u8; 16] {
    md(parts, IV, vp::md4_compress)
}
/// RFC 2104 over MD5, keys of at most 64 bytes.
pub fn hmac_md5(key: &[u8], parts: &[&[u8]]) -> [u8; 16] {
    let mut ipad = [0x36u8; 64];
    let mut opad = [0x5cu8; 64];
    for i in 0..key.len() {
        ipad[i] ^= key[i];
        opad[i] ^= key[i];
    }
    let mut v: Vec<&[u8]> = vec![&ipad];
    v.extend_from_slice(parts);
    let inner = md5(&v);
    md5(&[&opad, &inner])
}
/// Single DES under a 56-bit key given as 7 bytes.
pub fn des7(k: &[u8], d: &[u8]) -> [u8; 8] {
    let mut n = 0u64;
    for i in 0..7 {
        n = (n << 8) | k[i] as u64;
    }
    let mut key = [0u8; 8];
    for i in 0..8 {
        // parity bits are ignored by DES
        key[i] = (((n >> (49 - 7 * i)) & 0x7f) as u8) << 1;
    }
    let mut b = [0u8; 8];
    b.copy_from_slice(&d[..8]);
    vp::des_block(&key, &b)
}
pub fn desl(k16: &[u8], d: &[u8]) -> [u8; 24] {
    let mut k = [0u8; 21];
    k[..16].copy_from_slice(&k16[..16]);
    let mut o = [0u8; 24];
    for i in 0..3 {
        o[8 * i..8 * i + 8].copy_from_slice(&des7(&k[7 * i..7 * i + 7], d));
    }
    o
}
pub fn rc4_16(key: &[u8; 16], data: &[u8; 16]) -> [u8; 16] {
    let s = vp::rc4_chunk(key, 0);
    let mut o = [0u8; 16];
    for i in 0..16 {
        o[i] = s[i] ^ data[i];
    }
    o
}

// ---------------------------------------------------------------- little-endian and layouts

pub fn le16(b: &[u8], o: usize) -> u16 {
    b[o] as u16 | (b[o + 1] as u16) << 8
}
pub fn le32(b: &[u8], o: usize) -> u32 {
    le16(b, o) as u32 | (le16(b, o + 2) as u32) << 16
}
pub fn le64(b: &[u8], o: usize) -> u64 {
    le32(b, o) as u64 | (le32(b, o + 4) as u64) << 32
}

pub const SIG: [u8; 8] = *b"NTLMSSP\0";

pub mod bit {
    pub const UNICODE: u32 = 1 << 0;
    pub const OEM: u32 = 1 << 1;
    pub const REQUEST_TARGET: u32 = 1 << 2;
    pub const SIGN: u32 = 1 << 4;
    pub const SEAL: u32 = 1 << 5;
    pub const DATAGRAM: u32 = 1 << 6;
    pub const LM_KEY: u32 = 1 << 7;
    pub const NTLM: u32 = 1 << 9;
    pub const ANONYMOUS: u32 = 1 << 11;
    pub const OEM_DOMAIN: u32 = 1 << 12;
    pub const OEM_WORKSTATION: u32 = 1 << 13;
    pub const ALWAYS_SIGN: u32 = 1 << 15;
    pub const TYPE_DOMAIN: u32 = 1 << 16;
    pub const TYPE_SERVER: u32 = 1 << 17;
    pub const ESS: u32 = 1 << 19;
    pub const IDENTIFY: u32 = 1 << 20;
    pub const NON_NT_KEY: u32 = 1 << 22;
    pub const TARGET_INFO: u32 = 1 << 23;
    pub const VERSION: u32 = 1 << 25;
    pub const K128: u32 = 1 << 29;
    pub const KEY_EXCH: u32 = 1 << 30;
    pub const K56: u32 = 1 << 31;
    pub const RESERVED: u32 =
        1 << 28 | 1 << 27 | 1 << 26 | 1 << 24 | 1 << 21 | 1 << 18 | 1 << 14 | 1 << 10 | 1 << 8 | 1 << 3;
}

/// A payload descriptor.
#[derive(Clone, Copy)]
pub struct Desc {
    pub len: u16,
    pub max: u16,
    pub off: u32,
}
pub fn desc(b: &[u8], o: usize) -> Desc {
    Desc { len: le16(b, o), max: le16(b, o + 2), off: le32(b, o + 4) }
}
impl Desc {
    /// The payload, if it lies inside the message.
    pub fn get<'a>(&self, b: &'a [u8]) -> Option<&'a [u8]> {
        let s = self.off as usize;
        let e = s + self.len as usize;
        if e <= b.len() {
            Some(&b[s..e])
        } else {
            None
        }
    }
}

/// Descriptor offsets of the AUTHENTICATE message: LM, NT, domain, user, workstation, session key.
pub const AUTH_DESC: [usize; 6] = [12, 20, 28, 36, 44, 52];
pub const AUTH_FLAGS: usize = 60;
pub const CHAL_DESC: [usize; 2] = [12, 40];
pub const NEG_DESC: [usize; 2] = [16, 24];

/// The text of a list of Unicode scalar values as UTF-16LE, without branching on BMP values.
pub fn utf16le(s: &[u32]) -> Vec<u8> {
    let mut v = Vec::new();
    for &c in s {
        if c >= 0x10000 {
            let d = c - 0x10000;
            let h = 0xd800 | (d >> 10) as u16;
            let l = 0xdc00 | (d & 0x3ff) as u16;
            v.extend_from_slice(&h.to_le_bytes());
            v.extend_from_slice(&l.to_le_bytes());
        } else {
            v.extend_from_slice(&(c as u16).to_le_bytes());
        }
    }
    v
}
/// The text of a list of Unicode scalar values as UTF-8.
pub fn utf8(s: &[u32]) -> Vec<u8> {
    let mut v = Vec::new();
    for &c in s {
        if c < 0x80 {
            v.push(c as u8);
        } else if c < 0x800 {
            v.push(0xc0 | (c >> 6) as u8);
            v.push(0x80 | (c & 0x3f) as u8);
        } else if c < 0x10000 {
            v.push(0xe0 | (c >> 12) as u8);
            v.push(0x80 | (c >> 6 & 0x3f) as u8);
            v.push(0x80 | (c & 0x3f) as u8);
        } else {
            v.push(0xf0 | (c >> 18) as u8);
            v.push(0x80 | (c >> 12 & 0x3f) as u8);
            v.push(0x80 | (c >> 6 & 0x3f) as u8);
            v.push(0x80 | (c & 0x3f) as u8);
        }
    }
    v
}

/// One unconstrained Unicode scalar value whose UTF-8 form has `class` bytes.
pub fn scalar(name: &str, class: usize) -> u32 {
    let (lo, hi) = [(0u32, 0x7f), (0x80, 0x7ff), (0x800, 0xffff), (0x10000, 0x10ffff)][class - 1];
    let c = if class == 1 {
        vp::u8_(name) as u32
    } else if class == 4 {
        let b: [u8; 3] = vp::bytes(name);
        b[0] as u32 | (b[1] as u32) << 8 | (b[2] as u32) << 16
    } else {
        vp::u16_(name) as u32
    };
    vp::assume(c >= lo);
    vp::assume(c <= hi);
    vp::assume((c < 0xd800) | (c > 0xdfff));
    c
}
/// Text of `n` unconstrained non-NUL scalar values, of every combination of UTF-8 lengths up to `maxclass`.
pub fn text(name: &str, n: usize, maxclass: usize) -> Vec<u32> {
    let mut v = Vec::new();
    for _ in 0..n {
        let k = 1 + vp::choose("class", maxclass);
        let c = scalar(name, k);
        vp::assume(c != 0);
        v.push(c);
    }
    v
}
/// The same, NUL included.
pub fn text_nul_in(name: &str, n: usize, maxclass: usize) -> Vec<u32> {
    (0..n).map(|_| scalar(name, 1 + vp::choose("class", maxclass))).collect()
}
pub fn string(s: &[u32]) -> String {
    unsafe { String::from_utf8_unchecked(utf8(s)) }
}
/// Unconstrained non-NUL ASCII text.
pub fn ascii(name: &str, n: usize) -> String {
    let v = vp::vec(name, n);
    for &b in &v {
        vp::assume((b != 0) & (b < 0x80));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
