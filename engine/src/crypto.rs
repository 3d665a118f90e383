//! Concrete versions of the functions that are uninterpreted for the solver. Used to evaluate
//! expressions under a model (trace validation, counterexamples).
use crate::expr::UfName;

pub fn uf(f: UfName, args: &[u8]) -> u128 {
    match f {
        UfName::Md5 => compress(args, md5_compress),
        UfName::Md4 => compress(args, md4_compress),
        UfName::Des => {
            let k = u64::from_be_bytes(args[..8].try_into().unwrap());
            let b = u64::from_be_bytes(args[8..16].try_into().unwrap());
            // result bytes little-endian first byte = low byte
            u64::from_le_bytes(des(k, b).to_be_bytes()) as u128
        }
        UfName::Rc4 => {
            let chunk = args[args.len() - 1] as usize;
            let ks = rc4(&args[..args.len() - 1], (chunk + 1) * 16);
            u128::from_le_bytes(ks[chunk * 16..chunk * 16 + 16].try_into().unwrap())
        }
    }
}

fn compress(args: &[u8], f: fn(&mut [u32; 4], &[u32; 16])) -> u128 {
    let mut st = [0u32; 4];
    for i in 0..4 {
        st[i] = u32::from_le_bytes(args[4 * i..4 * i + 4].try_into().unwrap());
    }
    let mut m = [0u32; 16];
    for i in 0..16 {
        m[i] = u32::from_le_bytes(args[16 + 4 * i..20 + 4 * i].try_into().unwrap());
    }
    f(&mut st, &m);
    let mut r = 0u128;
    for i in 0..4 {
        r |= (st[i] as u128) << (32 * i);
    }
    r
}

fn md5_compress(st: &mut [u32; 4], m: &[u32; 16]) {
    const S: [[u32; 4]; 4] = [[7, 12, 17, 22], [5, 9, 14, 20], [4, 11, 16, 23], [6, 10, 15, 21]];
    let [mut a, mut b, mut c, mut d] = *st;
    for i in 0..64usize {
        let (f, g) = match i / 16 {
            0 => ((b & c) | (!b & d), i),
            1 => ((d & b) | (!d & c), (5 * i + 1) % 16),
            2 => (b ^ c ^ d, (3 * i + 5) % 16),
            _ => (c ^ (b | !d), (7 * i) % 16),
        };
        let k = ((i as f64 + 1.0).sin().abs() * 4294967296.0) as u32;
        let t = f.wrapping_add(a).wrapping_add(k).wrapping_add(m[g]);
        a = d;
        d = c;
        c = b;
        b = b.wrapping_add(t.rotate_left(S[i / 16][i % 4]));
    }
    st[0] = st[0].wrapping_add(a);
    st[1] = st[1].wrapping_add(b);
    st[2] = st[2].wrapping_add(c);
    st[3] = st[3].wrapping_add(d);
}

fn md4_compress(st: &mut [u32; 4], m: &[u32; 16]) {
    let [mut a, mut b, mut c, mut d] = *st;
    let idx3 = [0, 8, 4, 12, 2, 10, 6, 14, 1, 9, 5, 13, 3, 11, 7, 15];
    for i in 0..48usize {
        let (f, k, x, s) = match i / 16 {
            0 => ((b & c) | (!b & d), 0u32, i, [3, 7, 11, 19][i % 4]),
            1 => (
                (b & c) | (b & d) | (c & d),
                0x5a827999,
                (i % 4) * 4 + (i - 16) / 4,
                [3, 5, 9, 13][i % 4],
            ),
            _ => (b ^ c ^ d, 0x6ed9eba1, idx3[i - 32], [3, 9, 11, 15][i % 4]),
        };
        let t = a.wrapping_add(f).wrapping_add(m[x]).wrapping_add(k).rotate_left(s);
        a = d;
        d = c;
        c = b;
        b = t;
    }
    st[0] = st[0].wrapping_add(a);
    st[1] = st[1].wrapping_add(b);
    st[2] = st[2].wrapping_add(c);
    st[3] = st[3].wrapping_add(d);
}

fn rc4(key: &[u8], n: usize) -> Vec<u8> {
    let mut s: Vec<u8> = (0..=255).collect();
    let mut j = 0u8;
    for i in 0..256 {
        j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
        s.swap(i, j as usize);
    }
    let (mut i, mut j) = (0u8, 0u8);
    (0..n)
        .map(|_| {
            i = i.wrapping_add(1);
            j = j.wrapping_add(s[i as usize]);
            s.swap(i as usize, j as usize);
            s[s[i as usize].wrapping_add(s[j as usize]) as usize]
        })
        .collect()
}

const IP: [u8; 64] = [
    58, 50, 42, 34, 26, 18, 10, 2, 60, 52, 44, 36, 28, 20, 12, 4, 62, 54, 46, 38, 30, 22, 14, 6, 64, 56, 48, 40, 32,
    24, 16, 8, 57, 49, 41, 33, 25, 17, 9, 1, 59, 51, 43, 35, 27, 19, 11, 3, 61, 53, 45, 37, 29, 21, 13, 5, 63, 55, 47,
    39, 31, 23, 15, 7,
];
const FP: [u8; 64] = [
    40, 8, 48, 16, 56, 24, 64, 32, 39, 7, 47, 15, 55, 23, 63, 31, 38, 6, 46, 14, 54, 22, 62, 30, 37, 5, 45, 13, 53, 21,
    61, 29, 36, 4, 44, 12, 52, 20, 60, 28, 35, 3, 43, 11, 51, 19, 59, 27, 34, 2, 42, 10, 50, 18, 58, 26, 33, 1, 41, 9,
    49, 17, 57, 25,
];
const EX: [u8; 48] = [
    32, 1, 2, 3, 4, 5, 4, 5, 6, 7, 8, 9, 8, 9, 10, 11, 12, 13, 12, 13, 14, 15, 16, 17, 16, 17, 18, 19, 20, 21, 20, 21,
    22, 23, 24, 25, 24, 25, 26, 27, 28, 29, 28, 29, 30, 31, 32, 1,
];
const PP: [u8; 32] = [
    16, 7, 20, 21, 29, 12, 28, 17, 1, 15, 23, 26, 5, 18, 31, 10, 2, 8, 24, 14, 32, 27, 3, 9, 19, 13, 30, 6, 22, 11, 4,
    25,
];
const PC1: [u8; 56] = [
    57, 49, 41, 33, 25, 17, 9, 1, 58, 50, 42, 34, 26, 18, 10, 2, 59, 51, 43, 35, 27, 19, 11, 3, 60, 52, 44, 36, 63, 55,
    47, 39, 31, 23, 15, 7, 62, 54, 46, 38, 30, 22, 14, 6, 61, 53, 45, 37, 29, 21, 13, 5, 28, 20, 12, 4,
];
const PC2: [u8; 48] = [
    14, 17, 11, 24, 1, 5, 3, 28, 15, 6, 21, 10, 23, 19, 12, 4, 26, 8, 16, 7, 27, 20, 13, 2, 41, 52, 31, 37, 47, 55, 30,
    40, 51, 45, 33, 48, 44, 49, 39, 56, 34, 53, 46, 42, 50, 36, 29, 32,
];
const ROT: [u32; 16] = [1, 1, 2, 2, 2, 2, 2, 2, 1, 2, 2, 2, 2, 2, 2, 1];
const SB: [[u8; 64]; 8] = [
    [
        14, 4, 13, 1, 2, 15, 11, 8, 3, 10, 6, 12, 5, 9, 0, 7, 0, 15, 7, 4, 14, 2, 13, 1, 10, 6, 12, 11, 9, 5, 3, 8, 4, 1,
        14, 8, 13, 6, 2, 11, 15, 12, 9, 7, 3, 10, 5, 0, 15, 12, 8, 2, 4, 9, 1, 7, 5, 11, 3, 14, 10, 0, 6, 13,
    ],
    [
        15, 1, 8, 14, 6, 11, 3, 4, 9, 7, 2, 13, 12, 0, 5, 10, 3, 13, 4, 7, 15, 2, 8, 14, 12, 0, 1, 10, 6, 9, 11, 5, 0, 14,
        7, 11, 10, 4, 13, 1, 5, 8, 12, 6, 9, 3, 2, 15, 13, 8, 10, 1, 3, 15, 4, 2, 11, 6, 7, 12, 0, 5, 14, 9,
    ],
    [
        10, 0, 9, 14, 6, 3, 15, 5, 1, 13, 12, 7, 11, 4, 2, 8, 13, 7, 0, 9, 3, 4, 6, 10, 2, 8, 5, 14, 12, 11, 15, 1, 13, 6,
        4, 9, 8, 15, 3, 0, 11, 1, 2, 12, 5, 10, 14, 7, 1, 10, 13, 0, 6, 9, 8, 7, 4, 15, 14, 3, 11, 5, 2, 12,
    ],
    [
        7, 13, 14, 3, 0, 6, 9, 10, 1, 2, 8, 5, 11, 12, 4, 15, 13, 8, 11, 5, 6, 15, 0, 3, 4, 7, 2, 12, 1, 10, 14, 9, 10, 6,
        9, 0, 12, 11, 7, 13, 15, 1, 3, 14, 5, 2, 8, 4, 3, 15, 0, 6, 10, 1, 13, 8, 9, 4, 5, 11, 12, 7, 2, 14,
    ],
    [
        2, 12, 4, 1, 7, 10, 11, 6, 8, 5, 3, 15, 13, 0, 14, 9, 14, 11, 2, 12, 4, 7, 13, 1, 5, 0, 15, 10, 3, 9, 8, 6, 4, 2,
        1, 11, 10, 13, 7, 8, 15, 9, 12, 5, 6, 3, 0, 14, 11, 8, 12, 7, 1, 14, 2, 13, 6, 15, 0, 9, 10, 4, 5, 3,
    ],
    [
        12, 1, 10, 15, 9, 2, 6, 8, 0, 13, 3, 4, 14, 7, 5, 11, 10, 15, 4, 2, 7, 12, 9, 5, 6, 1, 13, 14, 0, 11, 3, 8, 9, 14,
        15, 5, 2, 8, 12, 3, 7, 0, 4, 10, 1, 13, 11, 6, 4, 3, 2, 12, 9, 5, 15, 10, 11, 14, 1, 7, 6, 0, 8, 13,
    ],
    [
        4, 11, 2, 14, 15, 0, 8, 13, 3, 12, 9, 7, 5, 10, 6, 1, 13, 0, 11, 7, 4, 9, 1, 10, 14, 3, 5, 12, 2, 15, 8, 6, 1, 4,
        11, 13, 12, 3, 7, 14, 10, 15, 6, 8, 0, 5, 9, 2, 6, 11, 13, 8, 1, 4, 10, 7, 9, 5, 0, 15, 14, 2, 3, 12,
    ],
    [
        13, 2, 8, 4, 6, 15, 11, 1, 10, 9, 3, 14, 5, 0, 12, 7, 1, 15, 13, 8, 10, 3, 7, 4, 12, 5, 6, 11, 0, 14, 9, 2, 7, 11,
        4, 1, 9, 12, 14, 2, 0, 6, 10, 13, 15, 3, 5, 8, 2, 1, 14, 7, 4, 10, 8, 13, 15, 12, 9, 0, 3, 5, 6, 11,
    ],
];

fn perm(x: u64, win: u32, t: &[u8]) -> u64 {
    let mut r = 0;
    for &p in t {
        r = (r << 1) | ((x >> (win - p as u32)) & 1);
    }
    r
}

pub fn des(key: u64, block: u64) -> u64 {
    let k = perm(key, 64, &PC1);
    let (mut c, mut d) = ((k >> 28) as u32, (k & 0xfff_ffff) as u32);
    let x = perm(block, 64, &IP);
    let (mut l, mut r) = ((x >> 32) as u32, x as u32);
    for i in 0..16 {
        for _ in 0..ROT[i] {
            c = ((c << 1) | (c >> 27)) & 0xfff_ffff;
            d = ((d << 1) | (d >> 27)) & 0xfff_ffff;
        }
        let k = perm(((c as u64) << 28) | d as u64, 56, &PC2);
        let e = perm(r as u64, 32, &EX) ^ k;
        let mut f = 0u32;
        for s in 0..8 {
            let v = ((e >> (42 - 6 * s)) & 0x3f) as usize;
            let row = ((v >> 4) & 2) | (v & 1);
            let col = (v >> 1) & 0xf;
            f = (f << 4) | SB[s as usize][row * 16 + col] as u32;
        }
        let f = perm(f as u64, 32, &PP) as u32;
        let t = l ^ f;
        l = r;
        r = t;
    }
    perm(((r as u64) << 32) | l as u64, 64, &FP)
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn des_known() {
        assert_eq!(des(0x133457799BBCDFF1, 0x0123456789ABCDEF), 0x85E813540F0AB405);
    }
    #[test]
    fn md_known() {
        // empty message
        let mut m = [0u32; 16];
        m[0] = 0x80;
        let mut st = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
        md5_compress(&mut st, &m);
        assert_eq!(st[0].swap_bytes(), 0xd41d8cd9);
        let mut st = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];
        md4_compress(&mut st, &m);
        assert_eq!(st[0].swap_bytes(), 0x31d6cfe0);
    }
    #[test]
    fn rc4_known() {
        assert_eq!(rc4(b"Key", 4), vec![0xEB, 0x9F, 0x77, 0x81]);
    }
}
