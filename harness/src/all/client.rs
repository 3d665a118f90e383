//! C14-C18: the responses, keys and MIC a client computes. C19-C25: the client's conduct.
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::Codec;
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

pub const TICKS: u64 = 10_000_000;
pub const TO_1970: u64 = 11_644_473_600;

// ---------------------------------------------------------------- what MS-NLMP prescribes

pub fn nt_hash(pw: &[u32]) -> [u8; 16] {
    md4(&[&utf16le(pw)])
}
pub fn upper(c: u32) -> u32 {
    c - 32 * (((c >= 0x61) & (c <= 0x7a)) as u32)
}
pub fn upper_ascii(s: &[u32]) -> Vec<u32> {
    s.iter().map(|&c| upper(c)).collect()
}
/// The LM hash of a password of ASCII characters.
pub fn lm_hash(pw: &[u32]) -> [u8; 16] {
    let mut k = [0u8; 14];
    for i in 0..pw.len().min(14) {
        k[i] = upper(pw[i]) as u8;
    }
    let mut h = [0u8; 16];
    h[..8].copy_from_slice(&des7(&k[..7], b"KGS!@#$%"));
    h[8..].copy_from_slice(&des7(&k[7..], b"KGS!@#$%"));
    h
}
pub fn v2_hash(pw: &[u32], upper_user: &[u32], domain: &[u32]) -> [u8; 16] {
    hmac_md5(&nt_hash(pw), &[&utf16le(upper_user), &utf16le(domain)])
}
pub fn kxkey(flags: u32, nt: &[u8; 16], lm: &[u8; 16], sc: &[u8; 8], lm_response: &[u8]) -> [u8; 16] {
    let sbk = md4(&[nt]);
    let mut k = [0u8; 16];
    if flags & bit::ESS != 0 {
        k = hmac_md5(&sbk, &[sc, &lm_response[..8]]);
    } else if flags & bit::LM_KEY != 0 {
        k[..8].copy_from_slice(&des7(&lm[..7], &lm_response[..8]));
        k[8..].copy_from_slice(&des7(&[lm[7], 0xbd, 0xbd, 0xbd, 0xbd, 0xbd, 0xbd], &lm_response[..8]));
    } else if flags & bit::NON_NT_KEY != 0 {
        k[..8].copy_from_slice(&lm[..8]);
    } else {
        k = sbk;
    }
    k
}
pub fn keyed(flags: u32) -> bool {
    flags & bit::KEY_EXCH != 0 && flags & (bit::SIGN | bit::SEAL) != 0
}

/// Everything drawn from the random source since the given number of draws.
pub fn drawn(since: usize) -> Vec<u8> {
    let mut v = vec![];
    for d in &vp::draws()[since..] {
        v.extend_from_slice(d);
    }
    v
}
/// Whether `x` is a contiguous part of `d`.
pub fn part_of(d: &[u8], x: &[u8]) -> bool {
    let mut ok = false;
    let mut i = 0;
    while i + x.len() <= d.len() {
        ok |= vp::same(&d[i..i + x.len()], x);
        i += 1;
    }
    ok
}
/// Whether `x` and `y` are parts of `d` that do not overlap.
pub fn parts_of(d: &[u8], x: &[u8], y: &[u8]) -> bool {
    let mut ok = false;
    let mut i = 0;
    while i + x.len() <= d.len() {
        let s = vp::same(&d[i..i + x.len()], x);
        ok |= s & (part_of(&d[..i], y) | part_of(&d[i + x.len()..], y));
        i += 1;
    }
    ok
}

// ---------------------------------------------------------------- one handshake

pub fn utf8_str(s: &[u32]) -> String {
    string(s)
}
pub struct Hs {
    pub neg: Vec<u8>,
    pub chal: Vec<u8>,
    pub a: A,
    /// what was drawn while answering
    pub drawn: Vec<u8>,
}
pub fn handshake(c: &mut dyn Cl, ch: Challenge) -> Hs {
    let neg = c.neg();
    let chal = ch.encode();
    c.chal(ch);
    let n = vp::draws().len();
    let b = c.auth();
    vp::observe("authenticate", &b);
    Hs { neg, chal, a: read_auth(b), drawn: drawn(n) }
}
pub fn plain(flags: u32, sc: [u8; 8]) -> Challenge {
    chal(flags, None, sc, vec![], None).msg
}

// ---------------------------------------------------------------- C14, C15, C16

/// Passwords: any text of at most `n` characters.
pub fn any_pw(n: usize, maxclass: usize) -> Vec<u32> {
    let k = vp::choose("pwchars", n + 1);
    text_nul_in("password", k, maxclass)
}
/// Every combination of UTF-8 lengths of up to n characters.
pub fn classes(n: usize, maxclass: usize) -> Vec<Vec<usize>> {
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    let mut i = 0;
    while i < combos.len() {
        if combos[i].len() < n {
            for k in 1..=maxclass {
                let mut c = combos[i].clone();
                c.push(k);
                combos.push(c);
            }
        }
        i += 1;
    }
    combos
}
pub fn in_classes(name: &str, k: &[usize]) -> Vec<u32> {
    k.iter().map(|&k| scalar(name, k)).collect()
}

/// The same, one shard per combination of UTF-8 lengths.
pub fn sharded_pw(n: usize, maxclass: usize) -> Vec<u32> {
    let k = classes(n, maxclass);
    in_classes("password", &k[vp::shard(k.len())])
}
/// ASCII passwords of telling lengths.
pub fn long_pw(lens: &[usize]) -> Vec<u32> {
    let k = lens[vp::choose("pwlen", lens.len())];
    text_nul_in("password", k, 1)
}
/// `pw`: the password; LM responses are judged only for ASCII ones.
pub fn c14(level: usize, pw: Vec<u32>) {
    vp::expect("answered");
    no_host();
    let f = vp::u32_("flags") & !bit::ESS;
    let sc: [u8; 8] = vp::bytes("sc");
    let mut c = client_in(level, "u", "", &utf8_str(&pw));
    let h = handshake(&mut *c, plain(f, sc));
    let nt = desl(&nt_hash(&pw), &sc);
    vp::check_eq(&h.a.f[NT], &nt, "NT response");
    if level != 0 {
        vp::check_eq(&h.a.f[LM], &nt, "LM response");
    } else if pw.iter().all(|&c| c < 0x80) {
        vp::check_eq(&h.a.f[LM], &desl(&lm_hash(&pw), &sc), "LM response");
    } else {
        vp::check(h.a.f[LM].len() == 24, "LM response length");
    }
    vp::reach("answered");
}
pub fn c15(level: usize, pw: Vec<u32>) {
    vp::expect("answered");
    no_host();
    let f = vp::u32_("flags") | bit::ESS;
    let sc: [u8; 8] = vp::bytes("sc");
    let mut c = client_in(level, "u", "", &utf8_str(&pw));
    let h = handshake(&mut *c, plain(f, sc));
    vp::check(h.a.f[LM].len() == 24, "LM response length");
    let cc = &h.a.f[LM][..8];
    vp::check(vp::same(&h.a.f[LM][8..], &[0; 16]), "LM response padding");
    vp::check(part_of(&h.drawn, cc), "client challenge not from the random source");
    let m = md5(&[&sc, cc]);
    vp::check_eq(&h.a.f[NT], &desl(&nt_hash(&pw), &m[..8]), "NT response");
    vp::reach("answered");
}
pub fn c16(level: usize, pw: Vec<u32>) {
    vp::expect("key");
    vp::expect("no key");
    no_host();
    let f = vp::u32_("flags");
    let sc: [u8; 8] = vp::bytes("sc");
    let mut c = client_in(level, "u", "", &utf8_str(&pw));
    let h = handshake(&mut *c, plain(f, sc));
    if keyed(f) {
        let k = kxkey(f, &nt_hash(&pw), &lm_hash(&pw), &sc, &h.a.f[LM]);
        vp::check(h.a.f[KEY].len() == 16, "encrypted session key length");
        let mut e = [0u8; 16];
        e.copy_from_slice(&h.a.f[KEY]);
        vp::check(part_of(&h.drawn, &rc4_16(&k, &e)), "encrypted session key");
        vp::reach("key");
    } else {
        vp::check(h.a.f[KEY].is_empty(), "encrypted session key without key exchange");
        vp::reach("no key");
    }
}
/// A second handshake of the same client, with another challenge.
pub fn c16_again(level: usize) {
    vp::expect("key");
    no_host();
    let pw = text_nul_in("password", 1, 1);
    let mut c = client_in(level, "u", "", &utf8_str(&pw));
    let f1 = vp::u32_("flags");
    handshake(&mut *c, plain(f1, vp::bytes("sc")));
    let f = vp::u32_("flags2") | bit::KEY_EXCH | bit::SIGN;
    let sc: [u8; 8] = vp::bytes("sc2");
    let h = handshake(&mut *c, plain(f, sc));
    let k = kxkey(f, &nt_hash(&pw), &lm_hash(&pw), &sc, &h.a.f[LM]);
    vp::check(h.a.f[KEY].len() == 16, "encrypted session key length");
    let mut e = [0u8; 16];
    e.copy_from_slice(&h.a.f[KEY]);
    vp::check(part_of(&h.drawn, &rc4_16(&k, &e)), "encrypted session key");
    vp::reach("key");
}

// ---------------------------------------------------------------- C17, C18

/// What the NTLMv2 responses must be; `now` the wall clock, `infos` the server's list.
/// Returns the session base key.
pub fn v2_check(a: &A, hash: &[u8; 16], sc: &[u8; 8], infos: &[P], now: (u64, u32)) -> [u8; 16] {
    let nt = &a.f[NT];
    let list = wire_list(infos);
    vp::check(nt.len() == 16 + 28 + list.len() + 4, "NT response length");
    let (proof, b) = nt.split_at(16);
    vp::check(vp::same(&b[..8], &[1, 1, 0, 0, 0, 0, 0, 0]), "response versions and reserved bytes");
    let t = le64(b, 8);
    let mut stamp = None;
    for p in infos {
        if let (P::Time(l, h), None) = (p, stamp) {
            stamp = Some((*h as u64) << 32 | *l as u64);
        }
    }
    match stamp {
        Some(s) => vp::check(t == s, "time differs from the server's time stamp"),
        None => {
            let d = t.wrapping_sub((now.0 + TO_1970).wrapping_mul(TICKS));
            vp::check(d < TICKS, "time is not the current second");
        }
    }
    vp::check(vp::same(&b[24..28], &[0; 4]), "reserved bytes after the client challenge");
    vp::check(vp::same(&b[28..28 + list.len()], &list), "target information not verbatim");
    vp::check(vp::same(&b[28 + list.len()..], &[0; 4]), "trailing zero bytes");
    vp::check(vp::same(&hmac_md5(hash, &[sc, b]), proof), "proof");
    vp::check(a.f[LM].len() == 24, "LM response length");
    let cc = &b[16..24];
    vp::check(vp::same(&a.f[LM][16..], cc), "client challenge of the LM response");
    vp::check(vp::same(&hmac_md5(hash, &[sc, cc]), &a.f[LM][..16]), "LM response");
    hmac_md5(hash, &[proof])
}
/// Recovers the session key the way a server does, and checks the MIC.
pub fn mic_check(h: &Hs, sbk: &[u8; 16]) {
    let f = h.a.flags;
    let mut exported = *sbk;
    if keyed(f) {
        vp::check(h.a.f[KEY].len() == 16, "no encrypted session key for the flags sent");
        let mut e = [0u8; 16];
        e.copy_from_slice(&h.a.f[KEY]);
        exported = rc4_16(sbk, &e);
        vp::reach("key exchange");
    } else {
        vp::check(h.a.f[KEY].is_empty(), "encrypted session key not announced by the flags sent");
        vp::reach("no key exchange");
    }
    let mut z = h.a.bytes.clone();
    for i in 0..16 {
        z[h.a.mic_at + i] = 0;
    }
    vp::check(vp::same(&hmac_md5(&exported, &[&h.neg, &h.chal, &z]), h.a.mic()), "MIC");
}
pub fn c17(level: usize, user: Vec<u32>, domain: Vec<u32>, pw: Vec<u32>, infos: Vec<P>) {
    vp::expect("answered");
    no_host();
    let now = vp::any_clock();
    let sc: [u8; 8] = vp::bytes("sc");
    let ch = chal(vp::u32_("flags"), None, sc, infos, None);
    let mut c = client_in(level, &utf8_str(&user), &utf8_str(&domain), &utf8_str(&pw));
    let h = handshake(&mut *c, ch.msg);
    let hash = v2_hash(&pw, &upper_ascii(&user), &domain);
    v2_check(&h.a, &hash, &sc, &ch.infos, now);
    vp::reach("answered");
}
pub fn c17_infos(n: usize, chars: usize) {
    let k = vp::choose("pairs", n + 1);
    let mut l = vec![];
    for _ in 0..k {
        let id = 1 + vp::choose("kind", 10) as u16;
        l.push(pair(id, if TEXT_IDS.contains(&id) { chars } else { 0 }, 1));
    }
    c17(3, text_nul_in("user", 1, 1), vec![], text_nul_in("password", 1, 1), l);
}
pub fn c17_names(n: usize, maxclass: usize, all: bool) {
    let k = classes(n, maxclass);
    let s = vp::shard(if all { k.len() * k.len() } else { 2 * k.len() - 2 });
    // unless all, one of the two is empty or an ASCII character
    let (i, j) = match (all, s < k.len()) {
        (true, _) => (s % k.len(), s / k.len()),
        (_, true) => (s, 1),
        _ => (1, if s == k.len() { 0 } else { s + 1 - k.len() }),
    };
    let u = text_nul_in("user", vp::choose("userchars", n + 1), 1);
    let (d, p) = (in_classes("domain", &k[i]), in_classes("password", &k[j]));
    c17(3 + vp::choose("level", 3), u, d, p, vec![]);
}
pub fn c17_long() {
    let (u, d) = [(13, 0), (14, 13), (30, 2), (20, 40), (64, 70)][vp::choose("lengths", 5)];
    let p = [0, 27, 28, 60][vp::choose("pwlen", 4)];
    c17(3, text_nul_in("user", u, 1), text_nul_in("domain", d, 1), text_nul_in("password", p, 1), vec![]);
}
/// Upper-casing of the user name beyond ASCII, for characters with a one-to-one upper case; the domain
/// is taken as it is.
pub fn c17_upper() {
    vp::expect("answered");
    let (u, up) = [("é", "É"), ("жukov", "ЖUKOV"), ("𐐨x", "𐐀X"), ("ÿ", "Ÿ"), ("αβ", "ΑΒ"), ("É1", "É1"), ("中", "中")]
        [vp::choose("user", 7)];
    let d = ["", "é", "Dom", "dom"][vp::choose("domain", 4)];
    let scal = |s: &str| s.chars().map(|c| c as u32).collect::<Vec<u32>>();
    no_host();
    let now = vp::any_clock();
    let sc: [u8; 8] = vp::bytes("sc");
    let pw = text_nul_in("password", 1, 1);
    let ch = chal(vp::u32_("flags"), None, sc, vec![], None);
    let mut c = client_in(4, u, d, &utf8_str(&pw));
    let h = handshake(&mut *c, ch.msg);
    v2_check(&h.a, &v2_hash(&pw, &scal(up), &scal(d)), &sc, &ch.infos, now);
    vp::reach("answered");
}
/// The LM response computed on its own.
pub fn c17_lm() {
    let sc: [u8; 8] = vp::bytes("sc");
    let cc: [u8; 8] = vp::bytes("cc");
    let k: [u8; 16] = vp::bytes("hash");
    let l = Lmv2Challenge::from_server_challenge(&sc.into(), &k, &cc.into());
    vp::check(vp::same(&l.response, &hmac_md5(&k, &[&sc, &cc])), "response");
    vp::check(vp::same(&l.challenge_from_client, &cc), "client challenge");
    let e = l.encode();
    vp::check(e.len() == 24, "length");
    vp::check(vp::same(&e[16..], &cc), "encoded client challenge");
    let l = Lmv1Challenge::from_client_challenge(&cc.into());
    let e = l.encode();
    vp::check(e.len() == 24, "length");
    vp::check(vp::same(&e[..8], &cc), "client challenge");
    vp::check(vp::same(&e[8..], &[0; 16]), "padding");
    vp::reach("computed");
}

pub fn c18(level: usize, user: Vec<u32>, domain: Vec<u32>, ws: Option<Vec<u32>>, ch: Chal) {
    vp::expect("key exchange");
    vp::expect("no key exchange");
    no_host();
    if let Some(w) = &ws {
        vp::env("COMPUTERNAME", Some(&utf8(w)));
    }
    let now = vp::any_clock();
    let pw = text_nul_in("password", 1, 1);
    let mut c = client_in(level, &utf8_str(&user), &utf8_str(&domain), &utf8_str(&pw));
    let h = handshake(&mut *c, ch.msg);
    let hash = v2_hash(&pw, &upper_ascii(&user), &domain);
    let sbk = hmac_md5(&hash, &[&h.a.f[NT][..16]]);
    let _ = now;
    mic_check(&h, &sbk);
}
pub fn any_challenge(name: usize, pairs: usize) -> Chal {
    let name = if name == 0 { None } else { opt_text("target", name, 1) };
    let k = vp::choose("pairs", pairs + 1);
    let mut l = vec![];
    for _ in 0..k {
        let id = [2u16, 6, 7, 8, 10][vp::choose("kind", 5)];
        l.push(pair(id, 1, 1));
    }
    let version = if vp::flag("hasversion") { Some(any_version()) } else { None };
    let mut flags = vp::u32_("flags") & !bit::VERSION;
    if version.is_some() {
        flags |= bit::VERSION;
    }
    chal(flags, name, vp::bytes("sc"), l, version)
}
pub fn c18_any(name: usize, pairs: usize) {
    let d = text_nul_in("domain", vp::choose("domainchars", 2), 1);
    let w = if vp::flag("workstation") { Some(text("ws", 1, 2)) } else { None };
    c18(3 + vp::choose("level", 3), text_nul_in("user", 1, 1), d, w, any_challenge(name, pairs));
}
/// Handshakes that went wrong before: abandoned challenges, repeated negotiation and answers.
pub fn c18_history() {
    vp::expect("key exchange");
    no_host();
    vp::any_clock();
    let (user, pw) = (text_nul_in("user", 1, 1), text_nul_in("password", 1, 1));
    let mut c = client_in(3, &utf8_str(&user), "D", &utf8_str(&pw));
    let hash = v2_hash(&pw, &upper_ascii(&user), &[0x44]);
    let f = bit::UNICODE | bit::KEY_EXCH | bit::SIGN;
    let other = || chal(vp::u32_("flags"), None, vp::bytes("other"), vec![P::Bits(1)], None).msg;
    match vp::choose("before", 4) {
        0 => {
            c.neg();
        }
        1 => {
            c.neg();
            c.chal(other());
        }
        2 => {
            c.neg();
            c.chal(other());
            c.auth();
        }
        _ => {
            c.neg();
            c.chal(other());
            c.auth();
            c.auth();
        }
    }
    let ch = chal(f, None, vp::bytes("sc"), vec![P::Bits(2)], None);
    let neg = c.neg();
    let cb = ch.msg.encode();
    c.chal(ch.msg);
    let times = 1 + vp::choose("answers", 2);
    for _ in 0..times {
        let n = vp::draws().len();
        let b = c.auth();
        let h = Hs { neg: neg.clone(), chal: cb.clone(), a: read_auth(b), drawn: drawn(n) };
        mic_check(&h, &hmac_md5(&hash, &[&h.a.f[NT][..16]]));
    }
}

// ---------------------------------------------------------------- C19

/// Every sequence of `n` calls; each challenge differs from the others.
pub fn c19(level: usize, n: usize) {
    vp::expect("answered");
    vp::expect("answered again");
    vp::expect("refused");
    no_host();
    vp::any_clock();
    let pw = [0x70u32];
    let hash = if level < 3 { nt_hash(&pw) } else { v2_hash(&pw, &[0x55], &[]) };
    let mut c = client_in(level, "u", "", "p");
    let mut negotiated = false;
    let mut accepted: Option<([u8; 8], Vec<P>, Vec<u8>)> = None;
    let mut neg = vec![];
    let mut answers = 0;
    for _ in 0..n {
        match vp::choose("op", 3) {
            0 => {
                neg = c.neg();
                negotiated = true;
                accepted = None;
                answers = 0;
            }
            1 => {
                let sc: [u8; 8] = vp::bytes("sc");
                let ch = chal(bit::UNICODE, None, sc, vec![P::Bits((sc[0] & 7) as u32)], None);
                let wire = ch.msg.encode();
                c.chal(ch.msg);
                if negotiated && accepted.is_none() {
                    accepted = Some((sc, ch.infos, wire));
                }
            }
            _ => match &accepted {
                None => {
                    // no message may come out of this
                    vp::reach("refused");
                    vp::may_panic(true);
                    let b = c.auth();
                    vp::may_panic(false);
                    vp::check(b.is_empty(), "AUTHENTICATE without an accepted challenge");
                }
                Some((sc, infos, wire)) => {
                    let b = c.auth();
                    let a = read_auth(b);
                    if level < 3 {
                        vp::check_eq(&a.f[NT], &desl(&hash, sc), "answer to another challenge");
                    } else {
                        let list = wire_list(infos);
                        vp::check(a.f[NT].len() == 48 + list.len(), "NT response length");
                        vp::check(vp::same(&a.f[NT][44..44 + list.len()], &list), "answer to another challenge");
                        let p = hmac_md5(&hash, &[sc, &a.f[NT][16..]]);
                        vp::check(vp::same(&p, &a.f[NT][..16]), "answer to another challenge");
                        let mut z = a.bytes.clone();
                        for i in 0..16 {
                            z[a.mic_at + i] = 0;
                        }
                        let k = hmac_md5(&hash, &[&a.f[NT][..16]]);
                        vp::check(vp::same(&hmac_md5(&k, &[&neg, wire, &z]), a.mic()), "MIC over another handshake");
                    }
                    answers += 1;
                    if answers == 1 {
                        vp::reach("answered");
                    } else {
                        vp::reach("answered again");
                    }
                }
            },
        }
    }
}
/// Two clients side by side do not influence each other.
pub fn c19_two() {
    vp::expect("answered");
    no_host();
    let mut c = [client_in(1, "u", "", "p"), client_in(1, "u", "", "q")];
    let hash = [nt_hash(&[0x70]), nt_hash(&[0x71])];
    let sc: [[u8; 8]; 2] = [vp::bytes("sc0"), vp::bytes("sc1")];
    let ops: [[usize; 6]; 4] = [[0, 1, 2, 3, 4, 5], [0, 3, 1, 4, 2, 5], [0, 3, 4, 1, 5, 2], [3, 0, 1, 4, 5, 2]];
    for o in ops[vp::choose("order", 4)] {
        let i = o / 3;
        match o % 3 {
            0 => {
                c[i].neg();
            }
            1 => c[i].chal(plain(bit::UNICODE, sc[i])),
            _ => {
                let a = read_auth(c[i].auth());
                vp::check_eq(&a.f[NT], &desl(&hash[i], &sc[i]), "answer to another challenge");
                vp::reach("answered");
            }
        }
    }
}

// ---------------------------------------------------------------- C20

pub fn offered(level: usize) -> u32 {
    let base = bit::UNICODE | bit::OEM | bit::SIGN | bit::SEAL | bit::ALWAYS_SIGN | bit::K128 | bit::REQUEST_TARGET;
    base | match level {
        0 => bit::NTLM | bit::LM_KEY | bit::KEY_EXCH,
        1 => bit::NTLM | bit::ESS,
        _ => bit::ESS | bit::KEY_EXCH | bit::TARGET_INFO,
    }
}
pub fn neg_check(b: &[u8], level: usize, domain: &[u8]) {
    vp::check(b.len() >= 32, "NEGOTIATE message too short");
    vp::check(vp::same(&b[..8], &SIG), "signature");
    vp::check(le32(b, 8) == 1, "message type");
    let mut f = offered(level);
    if !domain.is_empty() {
        f |= bit::OEM_DOMAIN;
    }
    vp::check(le32(b, 12) & !bit::TYPE_SERVER == f, "offered flags");
    let d = desc(b, NEG_DESC[0]);
    vp::check(d.len == d.max, "domain descriptor");
    match d.get(b) {
        None => vp::check(false, "domain beyond the message"),
        Some(x) => vp::check_eq(x, domain, "domain"),
    }
    vp::check(desc(b, NEG_DESC[1]).len == 0, "workstation");
    vp::check(b.len() == 32 + domain.len(), "NEGOTIATE message length");
    vp::reach("negotiated");
}
pub fn c20(n: usize, maxclass: usize) {
    vp::expect("negotiated");
    let level = vp::choose("level", 6);
    if vp::flag("computername") {
        vp::env("COMPUTERNAME", Some(b"PC"));
    } else {
        no_host();
    }
    let d = text_nul_in("domain", vp::choose("domainchars", n + 1), maxclass);
    let u = utf8_str(&text_nul_in("user", 1, 1));
    let mut c = client_in(level, &u, &utf8_str(&d), "p");
    let b = c.neg();
    vp::observe("negotiate", &b);
    neg_check(&b, level, &utf8(&d));
    let k = vp::choose("between", 3);
    if k > 0 {
        let f = vp::u32_("flags");
        vp::any_clock();
        c.chal(chal(f, None, [1; 8], vec![P::Bits(2)], None).msg);
        if k > 1 {
            c.auth();
        }
    }
    let b2 = c.neg();
    vp::check_eq(&b2, &b, "another NEGOTIATE the second time");
}
/// The domain of a name like D\u or u@d.
pub fn c20_split() {
    vp::expect("negotiated");
    no_host();
    let level = vp::choose("level", 6);
    let d = text_nul_in("domain", 2, 1);
    for &c in &d {
        vp::assume((c != 0x5c) & (c != 0x40));
    }
    let mut s = d.clone();
    let n = match vp::choose("form", 3) {
        0 => {
            s.extend([0x5c, 0x75]);
            string(&s)
        }
        1 => {
            let mut s = vec![0x75, 0x40];
            s.extend(&d);
            string(&s)
        }
        _ => {
            let mut c = client(level, &string(&d), "p");
            neg_check(&c.neg(), level, &[]);
            return;
        }
    };
    let mut c = client(level, &n, "p");
    neg_check(&c.neg(), level, &utf8(&d));
}

// ---------------------------------------------------------------- C21

pub fn identity_check(a: &A, user: &[u32], domain: &[u32], ws: &[u32]) {
    vp::check_eq(&a.f[USER], &utf16le(user), "user");
    vp::check_eq(&a.f[DOM], &utf16le(domain), "domain");
    vp::check_eq(&a.f[WS], &utf16le(ws), "workstation");
    vp::reach("presented");
}
/// The split of a name, by the statement.
pub fn split(name: &[u32]) -> (Vec<u32>, Vec<u32>) {
    for i in 0..name.len() {
        if name[i] == 0x5c {
            return (name[i + 1..].to_vec(), name[..i].to_vec());
        }
    }
    for i in 0..name.len() {
        if name[i] == 0x40 {
            return (name[..i].to_vec(), name[i + 1..].to_vec());
        }
    }
    (name.to_vec(), vec![])
}
pub fn c21_split(level: usize, n: usize, maxclass: usize) {
    vp::expect("presented");
    no_host();
    let name = text_nul_in("name", vp::choose("chars", n + 1), maxclass);
    let (u, d) = split(&name);
    vp::any_clock();
    let mut c = client(level, &utf8_str(&name), "p");
    let f = vp::u32_("flags");
    let h = handshake(&mut *c, plain(f, [1; 8]));
    identity_check(&h.a, &u, &d, &[]);
}
/// Names given apart are used as they are, separators and all.
pub fn c21_apart(n: usize, maxclass: usize) {
    vp::expect("presented");
    no_host();
    let level = vp::choose("level", 6);
    let u = text_nul_in("user", vp::choose("userchars", n + 1), maxclass);
    let d = text_nul_in("domain", vp::choose("domainchars", n + 1), maxclass);
    let w = text("ws", vp::choose("wschars", n + 1), maxclass);
    vp::env("COMPUTERNAME", Some(&utf8(&w)));
    vp::any_clock();
    let mut c = client_in(level, &utf8_str(&u), &utf8_str(&d), "p");
    let ch = chal(vp::u32_("flags"), opt_text("target", 1, 1), vp::bytes("sc"), vec![P::Text(2, vec![0x58])], None);
    let h = handshake(&mut *c, ch.msg);
    identity_check(&h.a, &u, &d, &w);
    if vp::flag("again") {
        let h = handshake(&mut *c, plain(vp::u32_("flags2"), [2; 8]));
        identity_check(&h.a, &u, &d, &w);
    }
}

// ---------------------------------------------------------------- C22

/// The visible client challenge and session key of an answer are separate parts of what was drawn for it.
pub fn fresh(h: &Hs, level: usize, f: u32, sc: &[u8; 8], pw: &[u32]) {
    let (cc, kek): (Option<Vec<u8>>, [u8; 16]) = if level >= 3 {
        vp::check(h.a.f[NT].len() >= 44, "NT response length");
        vp::check(h.a.f[LM].len() == 24, "LM response length");
        vp::check(vp::same(&h.a.f[LM][16..], &h.a.f[NT][32..40]), "two client challenges");
        let hash = v2_hash(pw, &[0x55], &[]);
        (Some(h.a.f[NT][32..40].to_vec()), hmac_md5(&hash, &[&h.a.f[NT][..16]]))
    } else {
        vp::check(h.a.f[LM].len() == 24, "LM response length");
        let cc = if f & bit::ESS != 0 { Some(h.a.f[LM][..8].to_vec()) } else { None };
        (cc, kxkey(f, &nt_hash(pw), &lm_hash(pw), sc, &h.a.f[LM]))
    };
    let key = if h.a.f[KEY].is_empty() {
        None
    } else {
        vp::check(h.a.f[KEY].len() == 16, "encrypted session key length");
        let mut e = [0u8; 16];
        e.copy_from_slice(&h.a.f[KEY]);
        Some(rc4_16(&kek, &e))
    };
    match (cc, key) {
        (Some(c), Some(k)) => {
            vp::check(part_of(&h.drawn, &c), "client challenge not freshly drawn");
            vp::check(part_of(&h.drawn, &k), "session key not freshly drawn");
            vp::check(parts_of(&h.drawn, &c, &k), "client challenge and session key share a draw");
            vp::reach("both");
        }
        (Some(c), None) => vp::check(part_of(&h.drawn, &c), "client challenge not freshly drawn"),
        (None, Some(k)) => vp::check(part_of(&h.drawn, &k), "session key not freshly drawn"),
        _ => {}
    }
}
pub fn c22(level: usize) {
    vp::expect("both");
    no_host();
    vp::any_clock();
    let pw = [0x70];
    let mut c = client_in(level, "u", "", "p");
    let sc: [u8; 8] = vp::bytes("sc");
    let f = vp::u32_("flags");
    let h = handshake(&mut *c, plain(f, sc));
    fresh(&h, level, f, &sc, &pw);
    match vp::choose("then", 3) {
        0 => {
            // the same challenge answered again
            let n = vp::draws().len();
            let b = c.auth();
            let h = Hs { neg: vec![], chal: vec![], a: read_auth(b), drawn: drawn(n) };
            fresh(&h, level, f, &sc, &pw);
        }
        1 => {
            let h = handshake(&mut *c, plain(f, sc));
            fresh(&h, level, f, &sc, &pw);
        }
        _ => {
            let mut c = client_in(level, "u", "", "p");
            let h = handshake(&mut *c, plain(f, sc));
            fresh(&h, level, f, &sc, &pw);
        }
    }
}

// ---------------------------------------------------------------- C23

/// Two clients that differ in their password only, fed the same random values.
pub fn c23(level: usize, n: usize, maxclass: usize) {
    let f = vp::u32_("flags");
    c23_pair(level, f, sharded_pw(n, maxclass))
}
pub fn c23_pair(level: usize, f: u32, p1: Vec<u32>) {
    vp::expect("compared");
    no_host();
    if vp::flag("computername") {
        vp::env("COMPUTERNAME", Some(b"PC"));
    }
    let now = vp::any_clock();
    let sc: [u8; 8] = vp::bytes("sc");
    let (u, d) = (text_nul_in("user", 1, 1), text_nul_in("domain", 1, 1));
    let run = |pw: &[u32]| {
        let ch = chal(f, None, sc, vec![P::Text(2, vec![0x58])], None);
        let mut c = client_in(level, &utf8_str(&u), &utf8_str(&d), &utf8_str(pw));
        handshake(&mut *c, ch.msg)
    };
    // any two passwords agree if each agrees with this one
    let p2 = vec![0x71];
    let h1 = run(&p1);
    vp::script(vp::draws().to_vec());
    let h2 = run(&p2);
    let _ = now;
    vp::check_eq(&h1.neg, &h2.neg, "NEGOTIATE depends on the password");
    let (x, y) = (&h1.a, &h2.a);
    vp::check(x.bytes.len() == y.bytes.len(), "AUTHENTICATE length depends on the password");
    // everything but the responses, the key and the MIC
    let mut secret = vec![false; x.bytes.len()];
    for i in [LM, NT, KEY] {
        let (p, q) = (desc(&x.bytes, AUTH_DESC[i]), desc(&y.bytes, AUTH_DESC[i]));
        vp::check((p.len == q.len) & (p.off == q.off), "AUTHENTICATE layout depends on the password");
        for k in 0..p.len as usize {
            secret[p.off as usize + k] = true;
        }
    }
    if level >= 3 {
        // the client blob after the proof holds no secret either
        let p = desc(&x.bytes, AUTH_DESC[NT]);
        for k in 16..p.len as usize {
            secret[p.off as usize + k] = false;
        }
    }
    for k in 0..16 {
        secret[x.mic_at + k] = true;
    }
    let mut same = true;
    for k in 0..x.bytes.len() {
        if !secret[k] {
            same &= x.bytes[k] == y.bytes[k];
        }
    }
    vp::check(same, "AUTHENTICATE depends on the password");
    vp::reach("compared");
}
/// No LM-hash response above level 0, and nothing made of the LM hash at NTLMv2 level.
pub fn c23_lm(level: usize) {
    vp::expect("no LM hash");
    no_host();
    let now = vp::any_clock();
    let f = vp::u32_("flags");
    let sc: [u8; 8] = vp::bytes("sc");
    let pw = text_nul_in("password", 1, 1);
    let ch = chal(f, None, sc, vec![], None);
    let mut c = client_in(level, "u", "", &utf8_str(&pw));
    let h = handshake(&mut *c, ch.msg);
    let lm = &h.a.f[LM];
    vp::check(lm.len() == 24, "LM response length");
    if level < 3 {
        let cc_form = vp::same(&lm[8..], &[0; 16]) & part_of(&h.drawn, &lm[..8]);
        vp::check(cc_form | vp::same(lm, &h.a.f[NT]), "LM response is neither the NT response nor a client challenge");
    } else {
        let sbk = v2_check(&h.a, &v2_hash(&pw, &[0x55], &[]), &sc, &ch.infos, now);
        if !h.a.f[KEY].is_empty() {
            let mut e = [0u8; 16];
            vp::check(h.a.f[KEY].len() == 16, "encrypted session key length");
            e.copy_from_slice(&h.a.f[KEY]);
            vp::check(part_of(&h.drawn, &rc4_16(&sbk, &e)), "session key not under the NTLMv2 key");
        }
    }
    vp::reach("no LM hash");
}

// ---------------------------------------------------------------- C24

pub fn starts(level: usize, user: &str, domain: Option<&str>, pw: &str) {
    let mut c = match domain {
        None => client(level, user, pw),
        Some(d) => client_in(level, user, d, pw),
    };
    let b = c.neg();
    vp::check(b.len() >= 32, "NEGOTIATE message too short");
    vp::reach("started");
}
/// Any text, symbolically, in one place at a time.
pub fn c24_text(n: usize) {
    vp::expect("started");
    no_host();
    let t = |k: usize| {
        let s = text_nul("text", k);
        utf8_str(&s)
    };
    let place = vp::choose("place", 3);
    let k = vp::choose("chars", if place == 0 { n } else { n + 1 });
    match place {
        0 => starts(0, "u", None, &t(k)),
        1 => starts(3, "u", Some(&t(k)), "p"),
        _ => {
            let s = t(k);
            let mut c = http_ntlm::client::Client::<L<3>>::new("u".to_owned(), "p".to_owned(), s);
            vp::check(c.send_negociate().len() >= 32, "NEGOTIATE message too short");
            vp::reach("started");
        }
    }
}
/// Text that may contain NUL; classes beyond the first are picked per character.
pub fn text_nul(name: &str, n: usize) -> Vec<u32> {
    let mut v = vec![];
    for _ in 0..n {
        v.push(scalar(name, 1 + vp::choose("class", 4)));
    }
    v
}
/// User names: ASCII symbolically (upper-casing the rest goes by samples).
pub fn c24_user(n: usize) {
    vp::expect("started");
    no_host();
    let k = vp::choose("chars", n + 1);
    let mut s = vec![];
    for _ in 0..k {
        s.push(scalar("user", 1));
    }
    starts(3 * vp::choose("level", 2), &utf8_str(&s), None, "p");
}
/// Around every character width change at the 14 bytes the LM hash looks at.
pub fn c24_cut() {
    vp::expect("started");
    no_host();
    let s = ["a", "é", "ß", "ŉ", "ΐ", "ﬃ", "𐐨", "中", "😀", "ÿ", "ǰ", "\0", "İ"];
    let fill = vp::choose("before", 16);
    let mid = s[vp::choose("char", s.len())];
    let after = vp::choose("after", 3);
    let mut p = "x".repeat(fill);
    p.push_str(mid);
    p.push_str(&s[vp::choose("next", 3)].repeat(after));
    starts(0, "u", None, &p);
    starts(5, &p, None, "p");
    starts(4, "u", Some(&p), "p");
}
/// Symbolic multi-byte characters at the cut.
pub fn c24_cut_sym(maxclass: usize) {
    vp::expect("started");
    no_host();
    let fill = 11 + vp::choose("before", 4);
    let mut p: Vec<u32> = vec![0x78; fill];
    let k = 1 + vp::choose("class", maxclass);
    p.push(scalar("char", k));
    starts(0, "u", None, &utf8_str(&p));
}
pub fn c24_long() {
    vp::expect("started");
    no_host();
    let n = [100, 1000, 4000][vp::choose("length", 3)];
    let s = "y".repeat(n);
    match vp::choose("place", 3) {
        0 => starts(0, "u", None, &s),
        1 => starts(3, &s, None, "p"),
        _ => starts(3, "u", Some(&s), "p"),
    }
}
/// The longest domain that fits its field.
pub fn c24_longest() {
    vp::expect("started");
    no_host();
    starts(1, "u", Some(&"d".repeat(65535)), "p");
}
pub fn ws_of(level: usize) -> Vec<u8> {
    vp::any_clock();
    let mut c = client_in(level, "u", "", "p");
    let h = handshake(&mut *c, plain(bit::UNICODE, [1; 8]));
    vp::reach("started");
    h.a.f[WS].clone()
}
/// COMPUTERNAME wins, whatever it is; if it is not text the host name is used.
pub fn c24_env() {
    vp::expect("started");
    let w = match vp::choose("computername", 3) {
        0 => {
            let s = text("ws", vp::choose("chars", 3), 4);
            vp::env("COMPUTERNAME", Some(&utf8(&s)));
            vp::host(b"other");
            utf16le(&s)
        }
        1 => {
            vp::env("COMPUTERNAME", Some(&[0x61, 0xff]));
            vp::host(b"host");
            utf16le(&[0x48, 0x4f, 0x53, 0x54])
        }
        _ => {
            vp::env("COMPUTERNAME", Some(&[0xc3]));
            vp::host_error(2);
            vec![]
        }
    };
    vp::check_eq(&ws_of(3), &w, "workstation");
}
/// Files of up to `n` ASCII bytes: the upper-cased first label of the first line, without spaces around it.
pub fn c24_host(n: usize) {
    vp::expect("started");
    vp::env("COMPUTERNAME", None);
    let b = vp::vec("hostname", vp::choose("bytes", n + 1));
    for &x in &b {
        vp::assume(x < 0x80);
    }
    vp::host(&b);
    let ws = ws_of(1);
    // judged by a reader of its own
    let mut e = b.len();
    for i in 0..b.len() {
        if b[i] == b'\n' || b[i] == b'.' {
            e = i;
            break;
        }
    }
    let mut s = 0;
    let space = |x: u8| x == b' ' || (x >= 9 && x <= 13);
    while s < e && space(b[s]) {
        s += 1;
    }
    while e > s && space(b[e - 1]) {
        e -= 1;
    }
    let l: Vec<u32> = b[s..e].iter().map(|&x| upper(x as u32)).collect();
    vp::check_eq(&ws, &utf16le(&l), "workstation");
}
/// Any bytes at all: no panic, and a name only from text.
pub fn c24_host_bytes(n: usize) {
    vp::expect("started");
    vp::env("COMPUTERNAME", None);
    let mut b = vp::vec("hostname", n);
    // upper-casing arbitrary letters goes by samples: keep what is text to one byte per character
    for &x in &b {
        vp::assume((x < 0x80) | (x >= 0xf5) | ((x >= 0x80) & (x < 0xc2)));
    }
    if vp::flag("line") {
        b.extend_from_slice(b"\nhost");
    }
    vp::host(&b);
    ws_of(1);
}
pub fn c24_host_samples() {
    vp::expect("started");
    vp::env("COMPUTERNAME", None);
    let l: [(Option<&[u8]>, &str); 16] = [
        (Some(b""), ""),
        (Some(b"\n"), ""),
        (Some(b"\nhost"), ""),
        (Some(b"."), ""),
        (Some(b".x"), ""),
        (Some(b"host.example.org\n"), "HOST"),
        (Some(b"host\r\n"), "HOST"),
        (Some(b"  host  \nb"), "HOST"),
        (Some("h\u{e9}.x".as_bytes()), "HÉ"),
        (Some("stra\u{df}e".as_bytes()), "STRASSE"),
        (Some("\u{10428}\n".as_bytes()), "𐐀"),
        (Some(b"h\xff\n"), ""),
        (Some(b"\xff\n"), ""),
        (Some("\u{2003}h".as_bytes()), "H"),
        (Some(b"HOST-1"), "HOST-1"),
        (None, ""),
    ];
    let i = vp::choose("file", l.len());
    match l[i].0 {
        Some(b) => vp::host(b),
        // an interrupted open is retried for ever, so not EINTR
        None => vp::host_error([1, 2, 5, 13, 20, 23, 24, 36, 40][vp::choose("error", 9)]),
    }
    let w: Vec<u32> = l[i].1.chars().map(|c| c as u32).collect();
    vp::check_eq(&ws_of(3), &utf16le(&w), "workstation");
}

// ---------------------------------------------------------------- C25

pub fn coherent(a: &A, server: u32) {
    let f = a.flags;
    vp::check((f & bit::KEY_EXCH != 0) == !a.f[KEY].is_empty(), "key-exchange flag and key differ");
    vp::check(f & bit::UNICODE != 0, "Unicode flag");
    vp::check(f & bit::OEM == 0, "OEM flag");
    let edited = bit::KEY_EXCH
        | bit::VERSION
        | bit::UNICODE
        | bit::OEM
        | bit::TYPE_DOMAIN
        | bit::TYPE_SERVER
        | bit::TARGET_INFO
        | bit::REQUEST_TARGET;
    vp::check((f ^ server) & !edited == 0, "a flag the server selected was changed");
    match Authenticate::decode(&a.bytes) {
        None => vp::check(false, "AUTHENTICATE does not decode"),
        Some((m, _)) => {
            vp::check(m.version.is_some() == (f & bit::VERSION != 0), "version flag and version differ");
            vp::check(m.negotiate_flags.0 == f, "decoded flags");
            // up to where empty payloads are said to be
            let e = read_auth(m.encode());
            vp::check(e.flags == f, "re-encoded flags differ");
            for i in 0..6 {
                vp::check_eq(&e.f[i], &a.f[i], "re-encoded AUTHENTICATE differs");
            }
            vp::reach("decoded");
        }
    }
    // payloads start right after the fixed part, so the version is there exactly when announced
    let mut first = a.bytes.len() as u32;
    for i in 0..6 {
        let d = desc(&a.bytes, AUTH_DESC[i]);
        if d.len > 0 && d.off < first {
            first = d.off;
        }
    }
    vp::check(first == if a.has_version { 88 } else { 80 }, "version flag and version differ");
}
pub fn c25(level: usize, name: usize, pairs: usize, chars: usize) {
    vp::expect("decoded");
    no_host();
    vp::any_clock();
    if vp::flag("computername") {
        vp::env("COMPUTERNAME", Some(b"PC"));
    }
    let ch = any_chal(name, pairs, chars, 1);
    let mut c = client_in(level, "u", if vp::flag("domain") { "D" } else { "" }, "p");
    let f = ch.flags;
    let h = handshake(&mut *c, ch.msg);
    coherent(&h.a, f);
}
/// A version flag without a version cannot come off the wire, but can be built.
pub fn c25_flags(level: usize) {
    vp::expect("decoded");
    no_host();
    vp::any_clock();
    let f = vp::u32_("flags");
    let mut c = client_in(level, "u", "", "p");
    let h = handshake(&mut *c, plain(f, vp::bytes("sc")));
    coherent(&h.a, f);
}
/// Challenges as they come off the wire.
pub fn c25_wire(level: usize, n: usize) {
    vp::expect("decoded");
    no_host();
    vp::any_clock();
    let f = vp::u32_("flags") & !bit::VERSION;
    let mut t = vp::vec("infos", n);
    t.extend_from_slice(&[0; 4]);
    let d = Desc { len: t.len() as u16, max: 0, off: 48 };
    let w = raw_chal(f, &vp::bytes("sc"), &[0; 8], &[NONE, d], &t);
    if let Some((m, _)) = Challenge::decode(&w) {
        let mut c = client_in(level, "u", "", "p");
        let h = handshake(&mut *c, m);
        coherent(&h.a, f);
    }
}

harnesses! {
    h_c14_l0 => || c14(0, any_pw(2, 1));
    h_c14_l1 => || c14(1, any_pw(1, 4));
    h_c14_l2 => || c14(2, any_pw(1, 4));
    h_c14_l0_text => || c14(0, any_pw(1, 2));
    h_c14_long => || c14(0, long_pw(&[6, 7, 8, 13, 14, 15, 20, 27, 28, 60]));
    ht_c14_l0 => || c14(0, any_pw(5, 1));
    ht_c14_l1 => || c14(1, sharded_pw(2, 4));
    ht_c14_long => || c14(0, long_pw(&[3, 5, 9, 10, 11, 12, 16, 26, 59, 61, 100]));

    h_c15_l0 => || c15(0, any_pw(1, 4));
    h_c15_l1 => || c15(1, any_pw(1, 4));
    h_c15_two => || c15(0, any_pw(2, 1));
    h_c15_l2 => || c15(2, any_pw(1, 4));
    h_c15_long => || c15(1, long_pw(&[7, 14, 27, 28, 60]));
    ht_c15_l1 => || c15(1, sharded_pw(2, 4));

    h_c16_l0 => || c16(0, any_pw(2, 1));
    h_c16_l1 => || c16(1, any_pw(2, 1));
    h_c16_l2 => || c16(2, any_pw(2, 1));
    h_c16_long => || c16(0, long_pw(&[7, 8, 14, 15, 28]));
    h_c16_again => || c16_again(0);
    ht_c16_again => || c16_again(1);

    h_c17_infos => || c17_infos(1, 1);
    h_c17_infos2 => || c17_infos(2, 0);
    ht_c17_infos => || c17_infos(3, 1);
    h_c17_names => || c17_names(1, 3, false);
    ht_c17_names => || c17_names(1, 4, true);
    ht_c17_names2 => || c17_names(2, 2, false);
    h_c17_long => c17_long;
    h_c17_upper => c17_upper;
    h_c17_lm => c17_lm;

    h_c18_any => || c18_any(1, 1);
    ht_c18_any => || c18_any(2, 2);
    h_c18_history => c18_history;

    h_c19_v1 => || c19(1, 5);
    h_c19_v2 => || c19(3, 5);
    ht_c19_v1 => || c19(0, 7);
    ht_c19_v2 => || c19(5, 6);
    h_c19_two => c19_two;

    h_c20_any => || c20(1, 3);
    ht_c20_any => || c20(3, 4);
    h_c20_split => c20_split;

    h_c21_split0 => || c21_split(0, 3, 1);
    h_c21_split3 => || c21_split(3, 3, 1);
    h_c21_text => || c21_split(1, 1, 2);
    ht_c21_split => || c21_split(1, 5, 1);
    h_c21_apart => || c21_apart(1, 1);
    ht_c21_apart => || c21_apart(2, 1);

    h_c22_l0 => || c22(0);
    h_c22_l1 => || c22(1);
    h_c22_l2 => || c22(2);
    h_c22_l3 => || c22(3);
    ht_c22_l4 => || c22(4);
    ht_c22_l5 => || c22(5);

    h_c23_l0 => || c23(0, 1, 1);
    h_c23_l1 => || c23(1, 1, 2);
    h_c23_l2 => || c23(2, 2, 1);
    h_c23_l3 => || c23(3, 1, 2);
    h_c23_l5 => || c23(5, 1, 1);
    ht_c23_l1 => || c23(1, 2, 4);
    ht_c23_l3 => || c23(3, 2, 4);
    h_c23_lm1 => || c23_lm(1);
    h_c23_lm2 => || c23_lm(2);
    h_c23_lm3 => || c23_lm(3);
    h_c23_lm4 => || c23_lm(4);
    h_c23_lm5 => || c23_lm(5);

    h_c24_text => || c24_text(2);
    ht_c24_text => || c24_text(3);
    h_c24_user => || c24_user(3);
    h_c24_cut => c24_cut;
    h_c24_cut_sym => || c24_cut_sym(4);
    h_c24_long => c24_long;
    h_c24_longest => c24_longest;
    h_c24_env => c24_env;
    h_c24_host => || c24_host(3);
    ht_c24_host => || c24_host(5);
    h_c24_host_bytes => || c24_host_bytes(2);
    ht_c24_host_bytes => || c24_host_bytes(4);
    h_c24_host_samples => c24_host_samples;

    h_c25_l0 => || c25(0, 0, 0, 0);
    h_c25_l1 => || c25(1, 0, 0, 0);
    h_c25_l2 => || c25(2, 0, 0, 0);
    h_c25_l3 => || c25(3, 1, 1, 1);
    h_c25_l4 => || c25(4, 0, 1, 0);
    h_c25_l5 => || c25(5, 0, 1, 0);
    ht_c25_wire1 => || c25_wire(1, 6);
    ht_c25_l0 => || c25(0, 0, 1, 0);
    ht_c25_l1 => || c25(1, 2, 2, 1);
    ht_c25_l3 => || c25(3, 2, 2, 1);
    h_c25_flags0 => || c25_flags(0);
    h_c25_flags1 => || c25_flags(1);
    h_c25_flags3 => || c25_flags(3);
    h_c25_wire1 => || c25_wire(1, 4);
    h_c25_wire3 => || c25_wire(3, 6);
    ht_c25_wire3 => || c25_wire(3, 10);
}
