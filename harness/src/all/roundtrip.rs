//! C02, C03, C04: encode/decode round trips. C05: wire layout. C26: faulty writers.
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::io::{self, Write};

pub fn neg_round(m: &Neg) {
    let b = m.msg.encode();
    vp::observe("bytes", &b);
    match Negotiate::decode(&b) {
        None => vp::check(false, "encoded NEGOTIATE does not decode"),
        Some((d, _)) => {
            vp::check(d.negotiate_flags.0 == m.flags, "flags");
            vp::check(same_text(d.get_domain_name(), &m.domain), "domain");
            vp::check(same_text(d.get_workstation(), &m.workstation), "workstation");
            vp::check(d.version == m.msg.version, "version");
            vp::check(d == m.msg, "decoded NEGOTIATE differs");
            vp::reach("round trip");
        }
    }
}
fn c02(nd: usize, nw: usize, maxclass: usize) {
    vp::expect("round trip");
    neg_round(&any_neg(nd, nw, maxclass));
}

pub fn chal_round(m: &Chal) {
    let b = m.msg.encode();
    vp::observe("bytes", &b);
    match Challenge::decode(&b) {
        None => vp::check(false, "encoded CHALLENGE does not decode"),
        Some((d, _)) => {
            vp::check(d.negotiate_flags.0 == m.flags, "flags");
            vp::check(same_text(d.get_target_name().map(|s| &**s), &m.name), "target name");
            vp::check(vp::same(&d.server_challenge, &m.sc), "server challenge");
            vp::check(d.version == m.msg.version, "version");
            let l = d.get_target_infos();
            vp::check(l.len() == m.infos.len(), "number of pairs");
            for (x, p) in l.iter().zip(&m.infos) {
                vp::check(*x == p.av(), "pair");
            }
            vp::check(d == m.msg, "decoded CHALLENGE differs");
            vp::reach("round trip");
        }
    }
}
fn c03(name: usize, pairs: usize, chars: usize, maxclass: usize) {
    vp::expect("round trip");
    chal_round(&any_chal(name, pairs, chars, maxclass));
}
/// Lists an application cannot build itself but can receive: end-of-list pairs inside the list.
fn c03_inner_eol() {
    vp::expect("round trip");
    let mut l = vec![];
    for _ in 0..2 {
        l.push(any_pair(1, 1));
    }
    l.push(P::Eol);
    let w = wire_list(&l);
    let d = Desc { len: w.len() as u16, max: w.len() as u16, off: 48 };
    let raw = raw_chal(vp::u32_("flags") & !bit::VERSION, &vp::bytes("sc"), &[0; 8], &[NONE, d], &w);
    match Challenge::decode(&raw) {
        None => vp::check(false, "CHALLENGE does not decode"),
        Some((c, _)) => {
            vp::check(c.get_target_infos().len() == 3, "number of pairs");
            for (x, p) in c.get_target_infos().iter().zip(&l) {
                vp::check(*x == p.av(), "pair");
            }
            let b = c.encode();
            match Challenge::decode(&b) {
                None => vp::check(false, "encoded CHALLENGE does not decode"),
                Some((e, _)) => vp::check(e == c, "decoded CHALLENGE differs"),
            }
            vp::reach("round trip");
        }
    }
}

pub fn auth_round(m: &Auth) {
    let b = m.msg.encode();
    vp::observe("bytes", &b);
    match Authenticate::decode(&b) {
        None => vp::check(false, "encoded AUTHENTICATE does not decode"),
        Some((d, _)) => {
            vp::check(d.negotiate_flags.0 == m.flags, "flags");
            vp::check(d.lm_challenge_response == m.msg.lm_challenge_response, "LM response");
            vp::check(d.nt_challenge_response == m.msg.nt_challenge_response, "NT response");
            vp::check(same_text(d.domain.as_ref().map(|s| &**s), &m.texts[0]), "domain");
            vp::check(same_text(d.user.as_ref().map(|s| &**s), &m.texts[1]), "user");
            vp::check(same_text(d.workstation.as_ref().map(|s| &**s), &m.texts[2]), "workstation");
            let k = d.get_encrypted_random_session_key();
            vp::check(k.is_some() == m.key.is_some(), "session key presence");
            if let (Some(k), Some(e)) = (k, &m.key) {
                vp::check(vp::same(k, e), "session key");
            }
            vp::check(d.version == m.msg.version, "version");
            vp::check(vp::same(&d.mic, &m.mic), "MIC");
            vp::check(d == m.msg, "decoded AUTHENTICATE differs");
            vp::reach("round trip");
        }
    }
}
fn any_auth_shape(nt_kinds: &[usize]) -> AuthShape {
    AuthShape {
        lm: vp::choose("lm", 3),
        nt: nt_kinds[vp::choose("nt", nt_kinds.len())],
        chars: [vp::choose("chars", 2), vp::choose("chars", 2), vp::choose("chars", 2)],
        key: vp::flag("haskey"),
        version: vp::flag("hasversion"),
    }
}
/// The ambiguous 24-byte forms: a response that reads as another kind of response.
pub fn unambiguous(a: &Auth) {
    const HEAD: [u8; 8] = [1, 1, 0, 0, 0, 0, 0, 0];
    if let Some(Nt::V2(None, _, _, _)) = &a.nt {
        let w = a.nt.as_ref().unwrap().wire();
        // the bare blob is a fallback form: it must not read as proof || blob
        if w.len() >= 24 {
            vp::assume(!vp::same(&w[16..24], &HEAD));
        }
    }
    let _ = HEAD;
}
fn c04_shape() {
    vp::expect("round trip");
    let sh = any_auth_shape(&[0, 1, 2, 3]);
    let a = build_auth(&sh, 1, vec![P::Eol]);
    unambiguous(&a);
    auth_round(&a);
}
fn c04_text(maxn: usize, maxclass: usize) {
    vp::expect("round trip");
    let which = vp::choose("which", 3);
    let mut chars = [0; 3];
    chars[which] = 1 + vp::choose("n", maxn);
    let sh = AuthShape { lm: 0, nt: 0, chars, key: vp::flag("haskey"), version: vp::flag("hasversion") };
    auth_round(&build_auth(&sh, maxclass, vec![]));
}
fn c04_pairs(np: usize, form: usize) {
    vp::expect("round trip");
    let mut l = vec![];
    for _ in 0..vp::choose("pairs", np + 1) {
        let id = 1 + vp::choose("kind", 10) as u16;
        l.push(pair(id, if TEXT_IDS.contains(&id) { vp::choose("chars", 2) } else { 0 }, 2));
    }
    l.push(P::Eol);
    let sh = AuthShape { lm: 2, nt: form, chars: [0; 3], key: false, version: false };
    let a = build_auth(&sh, 1, l);
    unambiguous(&a);
    auth_round(&a);
}

// ---------------------------------------------------------------- C05

fn head(b: &[u8], mtype: u32, fixed: usize) {
    vp::check(b.len() >= fixed, "message shorter than its fixed part");
    vp::check(vp::same(&b[..8], &SIG), "signature");
    vp::check(le32(b, 8) == mtype, "message type");
}
/// Payloads hold these values, behind the fixed part, without overlap and within the message.
fn payloads(b: &[u8], at: &[usize], want: &[Option<Vec<u8>>], fixed: usize) {
    let mut spans: Vec<(usize, usize)> = vec![];
    for (o, w) in at.iter().zip(want) {
        let d = desc(b, *o);
        match w {
            None => {
                vp::check((d.len == 0) & (d.max == 0) & (d.off == 0), "absent field with a non-zero descriptor")
            }
            Some(w) => {
                vp::check(d.len as usize == w.len(), "descriptor length");
                vp::check(d.max == d.len, "descriptor maximum length");
                match d.get(b) {
                    None => vp::check(false, "descriptor beyond the message"),
                    Some(x) => {
                        vp::check_eq(x, w, "payload content");
                        vp::check(d.off as usize >= fixed, "payload inside the fixed part");
                        let s = (d.off as usize, d.off as usize + w.len());
                        for t in &spans {
                            vp::check(s.1 <= t.0 || t.1 <= s.0, "payloads overlap");
                        }
                        spans.push(s);
                    }
                }
            }
        }
    }
    vp::reach("read");
}
fn c05_neg(nd: usize, nw: usize, maxclass: usize) {
    vp::expect("read");
    c05_neg_one(&any_neg(nd, nw, maxclass))
}
pub fn c05_neg_one(m: &Neg) {
    let b = m.msg.encode();
    let fixed = if m.version.is_some() { 40 } else { 32 };
    head(&b, 1, fixed);
    vp::check(le32(&b, 12) == m.flags, "flags");
    if let Some(v) = &m.version {
        vp::check_eq(&b[32..40], v, "version");
    }
    payloads(&b, &NEG_DESC, &[m.domain.as_ref().map(|s| utf8(s)), m.workstation.as_ref().map(|s| utf8(s))], fixed);
}
fn c05_chal(name: usize, pairs: usize, chars: usize, maxclass: usize) {
    vp::expect("read");
    c05_chal_one(&any_chal(name, pairs, chars, maxclass))
}
pub fn c05_chal_one(m: &Chal) {
    let b = m.msg.encode();
    let fixed = if m.version.is_some() { 56 } else { 48 };
    head(&b, 2, fixed);
    vp::check(le32(&b, 20) == m.flags, "flags");
    vp::check_eq(&b[24..32], &m.sc, "server challenge");
    vp::check(le64(&b, 32) == 0, "reserved");
    if let Some(v) = &m.version {
        vp::check_eq(&b[48..56], v, "version");
    }
    let infos = if m.infos.is_empty() { None } else { Some(wire_list(&m.infos)) };
    payloads(&b, &CHAL_DESC, &[m.name.as_ref().map(|s| utf16le(s)), infos], fixed);
}
pub fn c05_auth_one(m: &Auth) {
    let b = m.msg.encode();
    let fixed = if m.version.is_some() { 88 } else { 80 };
    head(&b, 3, fixed);
    vp::check(le32(&b, AUTH_FLAGS) == m.flags, "flags");
    if let Some(v) = &m.version {
        vp::check_eq(&b[64..72], v, "version");
    }
    vp::check_eq(&b[fixed - 16..fixed], &m.mic, "MIC");
    let t = |i: usize| m.texts[i].as_ref().map(|s| utf16le(s));
    payloads(
        &b,
        &AUTH_DESC,
        &[
            m.lm.map(|x| x.to_vec()),
            m.nt.as_ref().map(|n| n.wire()),
            t(0),
            t(1),
            t(2),
            m.key.map(|x| x.to_vec()),
        ],
        fixed,
    );
}
fn c05_auth() {
    vp::expect("read");
    let sh = any_auth_shape(&[0, 1, 2, 3]);
    let pairs = if sh.nt >= 2 { vec![any_pair(1, 1), P::Eol] } else { vec![] };
    c05_auth_one(&build_auth(&sh, 1, pairs));
}
fn c05_auth_text(maxn: usize, maxclass: usize) {
    vp::expect("read");
    let mut chars = [1; 3];
    chars[vp::choose("which", 3)] = vp::choose("n", maxn + 1);
    let sh = AuthShape { lm: 1, nt: 1, chars, key: true, version: vp::flag("hasversion") };
    c05_auth_one(&build_auth(&sh, maxclass, vec![]));
}

// ---------------------------------------------------------------- C26

/// Accepts at most `chunk` bytes per call, and misbehaves once `fail_at` bytes were accepted.
pub struct Faulty {
    pub out: Vec<u8>,
    pub chunk: usize,
    pub fail_at: usize,
    /// 0: error, 1: accepts nothing, 2: is interrupted once, then goes on
    pub mode: usize,
}
impl Write for Faulty {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let mut n = b.len().min(self.chunk);
        if self.out.len() + n > self.fail_at {
            n = self.fail_at - self.out.len();
        }
        if n == 0 {
            match self.mode {
                0 => return Err(io::Error::from(io::ErrorKind::BrokenPipe)),
                1 => return Ok(0),
                _ => {
                    self.fail_at = usize::MAX;
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
            }
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn faulty<T: Codec>(v: &T) {
    vp::expect("short writes");
    vp::expect("failure reported");
    let whole = v.encode();
    vp::observe("bytes", &whole);
    if vp::flag("fails") {
        if whole.is_empty() {
            return;
        }
        let mode = vp::choose("mode", 3);
        let chunk = [1, 3, usize::MAX][vp::choose("chunk", 3)];
        let at = vp::choose("at", whole.len());
        let mut w = Faulty { out: vec![], chunk, fail_at: at, mode };
        let r = v.encode_into(&mut w);
        if mode < 2 {
            vp::check(r.is_err(), "a failing writer's error is swallowed");
            vp::check(w.out.len() <= at, "more written than accepted");
            vp::check_eq(&w.out, &whole[..w.out.len()], "bytes before the failure differ");
            vp::reach("failure reported");
        } else {
            // write_all retries an interrupted call; reporting it is acceptable as well
            if let Ok(n) = r {
                vp::check_eq(&w.out, &whole, "bytes differ after an interruption");
                vp::check(n == whole.len(), "reported size");
            }
        }
    } else {
        let chunk = 1 + vp::choose("chunk", 9);
        let mut w = Faulty { out: vec![], chunk, fail_at: usize::MAX, mode: 0 };
        match v.encode_into(&mut w) {
            Ok(n) => {
                vp::check_eq(&w.out, &whole, "short writes change the bytes");
                vp::check(n == whole.len(), "reported size");
                vp::reach("short writes");
            }
            Err(_) => vp::check(false, "short writes are reported as an error"),
        }
    }
}
fn c26_pair() {
    let id = [0u16, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10][vp::shard(11)];
    faulty(&pair(id, 2, 1).av())
}
fn c26_fixed() {
    match vp::choose("type", 9) {
        0 => faulty(&any_version().0),
        1 => faulty(&FileTime { low: vp::u32_("low"), high: vp::u32_("high") }),
        2 => faulty(&single_host(&vp::bytes("host"))),
        3 => faulty(&lm_value(vp::flag("v1"), &vp::bytes("lm"))),
        4 => faulty(&Nt::V1(vp::bytes("nt")).value()),
        5 => faulty(&MessageSignature {
            random_pad: vp::bytes::<4>("pad").into(),
            checksum: vp::u32_("sum"),
            seq_num: vp::u32_("seq"),
        }),
        6 => faulty(&Flags(vp::u32_("flags"))),
        7 => faulty(&UnicodeString::from(string(&text("s", 2, 4)))),
        _ => faulty(&OEMString::from(string(&text("s", 2, 4)))),
    }
}
fn c26_lists() {
    match vp::choose("type", 3) {
        0 => faulty(&vec![pair(1, 1, 1).av(), pair(6, 0, 1).av(), P::Eol.av()]),
        1 => faulty(&Nt::V2(Some(vp::bytes("proof")), (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), vec![pair(2, 1, 1), P::Eol]).value()),
        _ => faulty(&Nt::V2(None, (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), vec![pair(2, 1, 1), P::Eol]).value()),
    }
}
fn c26_neg() {
    let d = opt_text("domain", 1, 1);
    let w = opt_text("workstation", 1, 1);
    let mut m = Negotiate::default();
    m.set_domain_name(d.map(|s| string(&s)));
    m.set_workstation(w.map(|s| string(&s)));
    m.version = if vp::flag("hasversion") { Some(any_version().0) } else { None };
    faulty(&m)
}
fn c26_chal() {
    let c = chal(vp::u32_("flags"), Some(text("t", 1, 1)), vp::bytes("sc"), vec![pair(2, 1, 1)], Some(any_version()));
    faulty(&c.msg)
}
fn c26_auth() {
    let sh = AuthShape { lm: 2, nt: 2 + vp::choose("nt", 2), chars: [1, 1, 1], key: true, version: true };
    faulty(&build_auth(&sh, 1, vec![pair(4, 1, 1), P::Eol]).msg)
}

harnesses! {
    h_c02_small => || c02(2, 2, 2);
    h_c02_unicode => || c02(2, 1, 4);
    ht_c02_large => || c02(3, 3, 4);
    h_c03_none => || c03(2, 0, 0, 4);
    h_c03_one => || c03(1, 1, 2, 3);
    h_c03_two => || c03(1, 2, 1, 1);
    ht_c03_unicode => || c03(1, 1, 2, 4);
    ht_c03_three => || c03(0, 3, 1, 1);
    h_c03_inner_eol => c03_inner_eol;
    h_c04_shape => c04_shape;
    h_c04_text => || c04_text(2, 4);
    h_c04_bare => || c04_pairs(1, 2);
    h_c04_ntv2 => || c04_pairs(1, 3);
    ht_c04_ntv2 => || c04_pairs(2, 3);
    ht_c04_text => || c04_text(4, 4);
    ht_c04_bare => || c04_pairs(2, 2);
    h_c05_neg => || c05_neg(2, 2, 4);
    h_c05_chal => || c05_chal(2, 1, 2, 3);
    h_c05_chal_two => || c05_chal(1, 2, 1, 1);
    h_c05_auth => c05_auth;
    h_c05_auth_text => || c05_auth_text(2, 4);
    h_c26_pair => c26_pair;
    h_c26_fixed => c26_fixed;
    h_c26_lists => c26_lists;
    h_c26_neg => c26_neg;
    h_c26_chal => c26_chal;
    h_c26_auth => c26_auth;
}
