//! The client after a long history: many messages and handshakes, all of fixed content, before the one
//! that is looked at.
use super::client::*;
use super::survive::WORDS;
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::verif_hooks::Codec;
use http_ntlm::messages::Challenge;

const USER: [u32; 4] = [0x75, 0x73, 0x65, 0x72];
const DOMAIN: [u32; 3] = [0x44, 0x6f, 0x6d];
const HOST: [u32; 2] = [0x50, 0x43];
const PW: [u32; 6] = [0x73, 0x33, 0x63, 0x72, 0x65, 0x74];
/// How many kinds of history there are.
const PASTS: usize = 8;

fn new(level: usize) -> Box<dyn Cl> {
    client_in(level, &string(&USER), &string(&DOMAIN), &string(&PW))
}
/// A challenge of fixed content, different for each `i`.
fn old(i: usize) -> Challenge {
    let b = i as u8;
    let sc = [b, b ^ 0x5a, 3, 4, b.wrapping_mul(7), 6, 7, b.wrapping_add(1)];
    let name = if i % 3 == 0 { None } else { Some(vec![0x54; 1 + i % 20]) };
    let mut infos = vec![];
    for k in 0..i % 5 {
        infos.push(match (i + k) % 6 {
            0 => P::Text(2, vec![0x44; i % 23]),
            1 => P::Time(i as u32, 0x01d0_0000),
            2 => P::Bits(i as u32 & 7),
            3 => P::Bind([b; 16]),
            4 => P::Text(1 + (i % 5) as u16, vec![0x45 + (i % 20) as u32; 1 + i % 7]),
            _ => P::Host({
                let mut h = [b; 48];
                h[4..8].copy_from_slice(&[0; 4]);
                h
            }),
        });
    }
    let f = WORDS[i % WORDS.len()] & !bit::VERSION;
    chal(f, name, sc, infos, None).msg
}
/// Takes the client through a past; `next` is the challenge it is going to get afterwards.
fn live(c: &mut dyn Cl, past: usize, next: &Challenge) {
    vp::routine(true);
    vp::clock(1_000_000, 0);
    match past {
        // negotiates over and over
        0 => {
            for _ in 0..600 {
                c.neg();
            }
        }
        // completes handshakes
        1 => {
            for i in 0..260 {
                c.neg();
                c.chal(old(i));
                c.auth();
            }
        }
        // completes handshakes with the same server
        2 => {
            for _ in 0..260 {
                c.neg();
                c.chal(old(4));
                c.auth();
            }
        }
        // answers one challenge over and over
        3 => {
            c.neg();
            c.chal(old(8));
            for _ in 0..260 {
                c.auth();
            }
        }
        // gets challenges nobody asked for
        4 => {
            for i in 0..260 {
                c.chal(old(i));
            }
            c.neg();
            c.chal(old(260));
            for i in 0..260 {
                c.chal(old(i));
            }
            c.auth();
            for i in 0..260 {
                c.chal(old(i));
            }
        }
        // abandons handshakes
        5 => {
            for i in 0..260 {
                c.neg();
                c.chal(old(i));
            }
        }
        // the same challenge as the one to come
        6 => {
            c.neg();
            c.chal(next.clone());
            c.auth();
        }
        // the longest and the shortest there is
        _ => {
            c.neg();
            c.chal(chal(bit::UNICODE, Some(vec![0x54; 3000]), [7; 8], vec![P::Text(2, vec![0x58; 3000])], None).msg);
            c.auth();
            c.neg();
            c.chal(plain(0, [0; 8]));
            c.auth();
        }
    }
    vp::routine(false);
}
struct After {
    c: Box<dyn Cl>,
    h: Hs,
    f: u32,
    sc: [u8; 8],
    infos: Vec<P>,
    now: (u64, u32),
}
fn host() {
    vp::env("COMPUTERNAME", Some(b"PC"));
}
/// The handshake after a past.
fn after(level: usize, stamp: bool) -> After {
    host();
    let mut c = new(level);
    let f = vp::u32_("flags") & !bit::VERSION;
    let sc: [u8; 8] = vp::bytes("sc");
    let mut l = vec![P::Text(1, vec![0x53])];
    if stamp {
        l.push(P::Time(vp::u32_("low"), vp::u32_("high")));
    }
    let ch = chal(f, Some(vec![0x4e]), sc, l, None);
    live(&mut *c, vp::shard(PASTS), &ch.msg);
    let now = vp::any_clock();
    let h = handshake(&mut *c, ch.msg);
    After { c, h, f, sc, infos: ch.infos, now }
}
fn v2hash() -> [u8; 16] {
    v2_hash(&PW, &[0x55, 0x53, 0x45, 0x52], &DOMAIN)
}
fn c14_after() {
    vp::expect("answered");
    let level = vp::choose("level", 3);
    let a = after(level, false);
    let h = &a.h;
    if a.f & bit::ESS == 0 {
        vp::check_eq(&h.a.f[NT], &desl(&nt_hash(&PW), &a.sc), "NT response");
        let lm = if level == 0 { desl(&lm_hash(&PW), &a.sc) } else { desl(&nt_hash(&PW), &a.sc) };
        vp::check_eq(&h.a.f[LM], &lm, "LM response");
        vp::reach("answered");
    }
}
fn c15_after() {
    vp::expect("answered");
    let a = after(vp::choose("level", 3), false);
    if a.f & bit::ESS != 0 {
        vp::check(a.h.a.f[LM].len() == 24, "LM response length");
        let cc = &a.h.a.f[LM][..8];
        vp::check(vp::same(&a.h.a.f[LM][8..], &[0; 16]), "LM response padding");
        vp::check(part_of(&a.h.drawn, cc), "client challenge not from the random source");
        let m = md5(&[&a.sc, cc]);
        vp::check_eq(&a.h.a.f[NT], &desl(&nt_hash(&PW), &m[..8]), "NT response");
        vp::reach("answered");
    }
}
fn c16_after() {
    vp::expect("key");
    let a = after(vp::choose("level", 3), false);
    if keyed(a.f) {
        let k = kxkey(a.f, &nt_hash(&PW), &lm_hash(&PW), &a.sc, &a.h.a.f[LM]);
        vp::check(a.h.a.f[KEY].len() == 16, "encrypted session key length");
        let mut e = [0u8; 16];
        e.copy_from_slice(&a.h.a.f[KEY]);
        vp::check(part_of(&a.h.drawn, &rc4_16(&k, &e)), "encrypted session key");
        vp::reach("key");
    } else {
        vp::check(a.h.a.f[KEY].is_empty(), "encrypted session key without key exchange");
    }
}
fn c17_after() {
    vp::expect("answered");
    let a = after(3 + vp::choose("level", 3), vp::flag("stamp"));
    v2_check(&a.h.a, &v2hash(), &a.sc, &a.infos, a.now);
    vp::reach("answered");
}
fn c18_after() {
    vp::expect("key exchange");
    let a = after(3 + vp::choose("level", 3), false);
    let sbk = hmac_md5(&v2hash(), &[&a.h.a.f[NT][..16]]);
    mic_check(&a.h, &sbk);
}
fn c19_after() {
    vp::expect("answered");
    let level = vp::choose("level", 6);
    let mut a = after(level, false);
    let again = read_auth(a.c.auth());
    for x in [&a.h.a, &again] {
        if level < 3 {
            if a.f & bit::ESS == 0 {
                vp::check_eq(&x.f[NT], &desl(&nt_hash(&PW), &a.sc), "answer to another challenge");
            }
        } else {
            vp::check(x.f[NT].len() >= 44, "NT response length");
            let p = hmac_md5(&v2hash(), &[&a.sc, &x.f[NT][16..]]);
            vp::check(vp::same(&p, &x.f[NT][..16]), "answer to another challenge");
        }
        vp::reach("answered");
    }
    // a new negotiation needs a new challenge
    a.c.neg();
    vp::may_panic(true);
    let b = a.c.auth();
    vp::may_panic(false);
    vp::check(b.is_empty(), "AUTHENTICATE without an accepted challenge");
}
/// However long a client has been ignoring challenges, it has nothing to answer.
fn c19_never() {
    vp::expect("ignored");
    host();
    let mut c = new(vp::choose("level", 6));
    vp::any_clock();
    if vp::flag("asked") {
        for i in 0..260 {
            c.neg();
            c.chal(old(i));
        }
        c.neg();
    } else {
        for i in 0..260 {
            c.chal(old(i));
        }
    }
    vp::reach("ignored");
    vp::may_panic(true);
    let b = c.auth();
    vp::may_panic(false);
    vp::check(b.is_empty(), "AUTHENTICATE without an accepted challenge");
}
fn c20_after() {
    vp::expect("negotiated");
    host();
    let level = vp::choose("level", 6);
    let mut c = new(level);
    let first = c.neg();
    live(&mut *c, vp::shard(PASTS), &plain(vp::u32_("flags") & !bit::VERSION, [5; 8]));
    let last = c.neg();
    vp::observe("negotiate", &last);
    neg_check(&last, level, &utf8(&DOMAIN));
    vp::check_eq(&last, &first, "another NEGOTIATE after a long time");
}
fn c21_after() {
    vp::expect("presented");
    let a = after(vp::choose("level", 6), false);
    identity_check(&a.h.a, &USER, &DOMAIN, &HOST);
}
fn c22_after() {
    vp::expect("both");
    let level = vp::choose("level", 6);
    let mut a = after(level, false);
    let (f, sc) = (a.f, a.sc);
    fresher(&a.h, level, f, &sc);
    for _ in 0..2 {
        let n = vp::draws().len();
        let b = a.c.auth();
        let h = Hs { neg: vec![], chal: vec![], a: read_auth(b), drawn: drawn(n) };
        fresher(&h, level, f, &sc);
    }
}
fn fresher(h: &Hs, level: usize, f: u32, sc: &[u8; 8]) {
    let (cc, kek) = if level >= 3 {
        vp::check(h.a.f[NT].len() >= 44, "NT response length");
        (Some(h.a.f[NT][32..40].to_vec()), hmac_md5(&v2hash(), &[&h.a.f[NT][..16]]))
    } else {
        vp::check(h.a.f[LM].len() == 24, "LM response length");
        let cc = if f & bit::ESS != 0 { Some(h.a.f[LM][..8].to_vec()) } else { None };
        (cc, kxkey(f, &nt_hash(&PW), &lm_hash(&PW), sc, &h.a.f[LM]))
    };
    if let Some(cc) = &cc {
        vp::check(part_of(&h.drawn, cc), "client challenge not freshly drawn");
    }
    if !h.a.f[KEY].is_empty() {
        vp::check(h.a.f[KEY].len() == 16, "encrypted session key length");
        let mut e = [0u8; 16];
        e.copy_from_slice(&h.a.f[KEY]);
        let k = rc4_16(&kek, &e);
        vp::check(part_of(&h.drawn, &k), "session key not freshly drawn");
        if let Some(cc) = &cc {
            vp::check(parts_of(&h.drawn, cc, &k), "client challenge and session key share a draw");
            vp::reach("both");
        }
    }
}
fn c24_after() {
    vp::expect("answered");
    host();
    let level = vp::choose("level", 6);
    let mut c = new(level);
    let next = plain(vp::u32_("flags") & !bit::VERSION, vp::bytes("sc"));
    live(&mut *c, vp::shard(PASTS), &next);
    vp::any_clock();
    c.neg();
    c.chal(next);
    for _ in 0..2 {
        let b = c.auth();
        vp::check(!b.is_empty(), "no AUTHENTICATE message");
        vp::reach("answered");
    }
}
fn c25_after() {
    vp::expect("decoded");
    let a = after([0, 1, 3][vp::choose("level", 3)], false);
    coherent(&a.h.a, a.f);
}
fn c29_after(level: usize) {
    vp::expect("compared");
    host();
    let (mut used, mut fresh) = (new(level), new(level));
    let f = vp::u32_("flags") & !bit::VERSION;
    let l = [vec![], vec![P::Time(vp::u32_("low"), 3), P::Text(2, vec![0x58; 4])]][vp::choose("infos", 2)].clone();
    let ch = chal(f, Some(vec![0x4e; 3]), vp::bytes("sc"), l, None).msg;
    live(&mut *used, vp::shard(PASTS), &ch);
    vp::any_clock();
    let (n1, n2) = (used.neg(), fresh.neg());
    vp::observe("negotiate", &n2);
    vp::check_eq(&n1, &n2, "NEGOTIATE differs from a fresh client's");
    used.chal(ch.clone());
    fresh.chal(ch);
    let k = vp::draws().len();
    let a1 = used.auth();
    let mine: Vec<Vec<u8>> = vp::draws()[k..].to_vec();
    vp::script(mine);
    let a2 = fresh.auth();
    vp::observe("authenticate", &a2);
    vp::check_eq(&a1, &a2, "AUTHENTICATE differs from a fresh client's");
    vp::reach("compared");
}

harnesses! {
    h_c14_after => c14_after;
    h_c15_after => c15_after;
    h_c16_after => c16_after;
    h_c17_after => c17_after;
    h_c18_after => c18_after;
    h_c19_after => c19_after;
    h_c19_never => c19_never;
    h_c20_after => c20_after;
    h_c21_after => c21_after;
    h_c22_after => c22_after;
    h_c24_after => c24_after;
    h_c25_after => c25_after;
    h_c29_after0 => || c29_after(0);
    h_c29_after1 => || c29_after(1);
    h_c29_after2 => || c29_after(2);
    h_c29_after3 => || c29_after(3);
    h_c29_after4 => || c29_after(4);
    h_c29_after5 => || c29_after(5);
}
