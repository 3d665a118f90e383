//! C28: what was accepted survives being encoded again. C29: a used client equals a fresh one.
use super::decode::*;
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

// ---------------------------------------------------------------- C28

/// Whether every text in the message has a character (text that starts with NUL reads as empty, and
/// empty text is sent as an absent field).
trait Texts {
    fn has_text(&self) -> bool {
        true
    }
    /// Not a bare NTLMv2 blob that reads as a proof followed by a blob.
    fn plain(&self) -> bool {
        true
    }
}
impl Texts for Negotiate {
    fn has_text(&self) -> bool {
        self.get_domain_name().map_or(true, |s| !s.is_empty()) && self.get_workstation().map_or(true, |s| !s.is_empty())
    }
}
impl Texts for Challenge {
    fn has_text(&self) -> bool {
        self.get_target_name().map_or(true, |s| !s.is_empty())
    }
}
impl Texts for Authenticate {
    fn has_text(&self) -> bool {
        let e = |s: &Option<UnicodeString>| s.as_ref().map_or(true, |s| !s.is_empty());
        e(&self.domain) && e(&self.user) && e(&self.workstation)
    }
    fn plain(&self) -> bool {
        self.nt_challenge_response.as_ref().map_or(true, |n| n.plain())
    }
}
impl Texts for NtChallenge {
    fn plain(&self) -> bool {
        match self {
            NtChallenge::V2(b) => !vp::same(&b.challenge_from_client, &[1, 1, 0, 0, 0, 0, 0, 0]),
            _ => true,
        }
    }
}
impl Texts for LmChallenge {}
impl Texts for AvPair {}
impl Texts for Vec<AvPair> {}
impl Texts for Version {}
impl Texts for FileTime {}
impl Texts for SingleHostData {}
impl Texts for MessageSignature {}
impl Texts for Flags {}

fn survives<T: Codec + PartialEq + Texts>(input: &[u8]) {
    vp::expect("survived");
    let m = match T::decode(input) {
        None => return,
        Some((m, _)) => m,
    };
    let b = m.encode();
    if !m.has_text() || !m.plain() {
        return;
    }
    vp::observe("bytes", &b);
    match T::decode(&b) {
        None => vp::check(false, "an accepted value is rejected once encoded again"),
        Some((n, rest)) => {
            vp::check(n == m, "an accepted value changes when encoded and decoded again");
            let _ = rest;
            vp::reach("survived");
        }
    }
}
fn any<T: Codec + PartialEq + Texts>(min: usize, max: usize) {
    let n = min + vp::choose("len", max + 1 - min);
    survives::<T>(&vp::vec("bytes", n));
}
pub fn message(kind: usize, b: &[u8]) {
    match kind {
        0 => survives::<Negotiate>(b),
        1 => survives::<Challenge>(b),
        _ => survives::<Authenticate>(b),
    }
}
fn c28_fixed() {
    match vp::choose("type", 6) {
        0 => any::<Version>(8, 9),
        1 => any::<FileTime>(8, 9),
        2 => any::<Flags>(4, 5),
        3 => any::<MessageSignature>(16, 17),
        4 => any::<SingleHostData>(48, 49),
        _ => any::<LmChallenge>(24, 25),
    }
}
fn c28_text() {
    vp::expect("survived");
    let b = vp::vec("bytes", vp::choose("len", 7));
    if vp::flag("utf16") {
        if let Some((m, _)) = UnicodeString::decode(&b) {
            match UnicodeString::decode(&m.encode()) {
                Some((n, 0)) => vp::check_eq(m.as_bytes(), n.as_bytes(), "text changes when encoded and decoded again"),
                _ => vp::check(false, "accepted text is rejected once encoded again"),
            }
            vp::reach("survived");
        }
    } else if let Some((m, _)) = OEMString::decode(&b) {
        match OEMString::decode(&m.encode()) {
            Some((n, 0)) => vp::check_eq(m.as_bytes(), n.as_bytes(), "text changes when encoded and decoded again"),
            _ => vp::check(false, "accepted text is rejected once encoded again"),
        }
        vp::reach("survived");
    }
}
fn c28_pair_fixed() {
    let id = [6u8, 7, 8, 10][vp::choose("kind", 4)];
    let n = [4, 8, 48, 0, 16][vp::choose("size", 5)];
    let mut b = vp::vec("bytes", 4 + n);
    b[0] = id;
    b[1] = 0;
    survives::<AvPair>(&b);
}
/// NTLMv2 responses, with and without a proof, everything unconstrained but their shape.
fn c28_nt(proof: bool, pairs: usize) {
    let head = if proof { 16 } else { 0 };
    let n = head + 28 + vp::choose("extra", pairs + 1);
    let mut b = vp::vec("bytes", n);
    b[head] = 1;
    b[head + 1] = 1;
    if proof {
        vp::assume(b[0] != 1);
    }
    survives::<NtChallenge>(&b);
}
/// One payload of any content, right behind the fixed part.
fn c28_one(kind: usize, i: usize, lens: &[usize]) {
    let n = lens[vp::choose("len", lens.len())];
    let mut r = raw(kind, vp::flag("hasversion"), n + 1);
    let off = r.b.len() - n - 1;
    r.place(i, n, off);
    if kind == 2 && i == NT && n > 24 {
        let o = if n >= 44 { 16 } else { 0 };
        r.b[off + o] = 1;
        r.b[off + o + 1] = 1;
        if o == 16 {
            r.b[off] = 7;
        }
    }
    message(kind, &r.b);
}
/// All payloads at once, shared bytes included.
fn c28_all(kind: usize) {
    let version = vp::flag("hasversion");
    let lens: &[usize] = [&[3, 4][..], &[4, 8][..], &[24, 24, 2, 4, 2, 16][..]][kind];
    let total: usize = lens.iter().sum::<usize>() + 2;
    let mut r = raw(kind, version, total);
    let mut at = r.b.len() - total;
    // absent fields, or shared bytes
    let mask = if kind == 2 { vp::shard(65) } else { vp::choose("mask", 5) };
    let (mask, back) = if mask == 1 << lens.len() { (mask - 1, 1 + vp::choose("overlap", 2)) } else { (mask, 0) };
    for (i, n) in lens.iter().enumerate() {
        if mask >> i & 1 == 1 {
            let off = if i > 0 { at - back.min(at) } else { at };
            r.place(i, *n, off);
        }
        at += n;
    }
    if kind == 2 {
        // one text of any kind at a time
        for i in [DOM, WS] {
            for u in r.get(i).chunks(2) {
                vp::assume((u[0] != 0) & (u[0] < 0x80) & (u[1] == 0));
            }
        }
    }
    message(kind, &r.b);
}
/// A real challenge with unusual target information.
fn c28_infos() {
    let mut l: Vec<P> = vec![];
    for _ in 0..vp::choose("pairs", 3) {
        l.push(any_pair(1, 2));
    }
    l.push(P::Eol);
    let mut w = wire_list(&l);
    let d = Desc { len: w.len() as u16, max: vp::u16_("max"), off: 48 };
    w.extend_from_slice(&vp::vec("after", 2));
    let f = vp::u32_("flags") & !bit::VERSION;
    message(1, &raw_chal(f, &vp::bytes("sc"), &vp::bytes("reserved"), &[NONE, d], &w));
}

// ---------------------------------------------------------------- C29

/// Flag words that take a client through each of its computations.
pub const WORDS: [u32; 6] = [
    bit::UNICODE,
    bit::UNICODE | bit::ESS | bit::SIGN | bit::KEY_EXCH | bit::NTLM,
    bit::UNICODE | bit::LM_KEY | bit::SEAL | bit::KEY_EXCH | bit::OEM,
    bit::UNICODE | bit::NON_NT_KEY | bit::SIGN | bit::KEY_EXCH | bit::VERSION | bit::DATAGRAM,
    bit::OEM | bit::ESS | bit::TARGET_INFO | bit::REQUEST_TARGET | bit::TYPE_SERVER,
    u32::MAX & !bit::VERSION,
];
fn one_challenge(tag: usize, flags: u32) -> Challenge {
    let sc: [u8; 8] = vp::bytes(["sc0", "sc1", "sc2"][tag]);
    let infos = match tag {
        // longer than what follows, with another time stamp
        0 => vec![P::Text(2, vec![0x58; 40]), P::Time(vp::u32_("oldtime"), 3), P::Bind([9; 16])],
        1 => vec![P::Bits(2)],
        _ => vec![P::Time(vp::u32_("time"), 5), P::Text(1, vec![0x59; 3])],
    };
    let version = if flags & bit::VERSION != 0 { Some(any_version()) } else { None };
    chal(flags, Some(vec![0x54; 12 - 3 * tag]), sc, infos, version).msg
}
fn c29(level: usize, any_old: bool) {
    vp::expect("compared");
    if vp::flag("computername") {
        vp::env("COMPUTERNAME", Some(b"PC"));
    } else {
        no_host();
    }
    vp::any_clock();
    let (d, p) = (if vp::flag("domain") { "D" } else { "" }, "pw");
    let mut used = client_in(level, "u", d, p);
    let mut fresh = client_in(level, "u", d, p);
    let old = if any_old { vp::u32_("oldflags") & !bit::VERSION } else { WORDS[vp::choose("oldflags", WORDS.len())] };
    let h = vp::choose("history", 6);
    if h == 1 {
        // comes too early, and is ignored
        used.chal(one_challenge(0, old));
    }
    if h > 0 {
        used.neg();
    }
    if h > 1 {
        used.chal(one_challenge(0, old));
    }
    if h > 2 {
        used.auth();
    }
    if h == 3 {
        used.auth();
    }
    if h == 4 {
        // comes too late
        used.chal(one_challenge(1, old));
    }
    if h == 5 {
        used.neg();
        used.chal(one_challenge(1, WORDS[1]));
        used.auth();
    }
    let now = vp::u32_("flags") & !bit::VERSION;
    let tag = 1 + vp::choose("infos", 2);
    let c = one_challenge(tag, now);
    let (n1, n2) = (used.neg(), fresh.neg());
    vp::observe("negotiate", &n2);
    vp::check_eq(&n1, &n2, "NEGOTIATE differs from a fresh client's");
    used.chal(c.clone());
    fresh.chal(c);
    let k = vp::draws().len();
    let a1 = used.auth();
    let mine: Vec<Vec<u8>> = vp::draws()[k..].to_vec();
    vp::script(mine);
    let a2 = fresh.auth();
    vp::observe("authenticate", &a2);
    vp::check_eq(&a1, &a2, "AUTHENTICATE differs from a fresh client's");
    vp::reach("compared");
}

harnesses! {
    h_c28_fixed => c28_fixed;
    h_c28_text => c28_text;
    h_c28_pair => || any::<AvPair>(4, 9);
    h_c28_pair_fixed => c28_pair_fixed;
    h_c28_pairs => || any::<Vec<AvPair>>(4, 12);
    h_c28_nt_v1 => || any::<NtChallenge>(24, 25);
    h_c28_nt_bare => || c28_nt(false, 8);
    h_c28_nt_proof => || c28_nt(true, 8);
    h_c28_neg_domain => || c28_one(0, 0, &[1, 2, 3, 4]);
    h_c28_neg_ws => || c28_one(0, 1, &[1, 2, 3, 4]);
    h_c28_chal_name => || c28_one(1, 0, &[1, 2, 3, 4, 5, 6]);
    h_c28_chal_infos => || c28_one(1, 1, &[4, 6, 8, 10]);
    h_c28_auth_lm => || c28_one(2, LM, &[1, 23, 24, 25]);
    h_c28_auth_nt => || c28_one(2, NT, &[24, 28, 32, 34, 36, 44, 48, 50, 52]);
    h_c28_auth_text => || c28_one(2, DOM + vp::choose("text", 3), &[1, 2, 4, 5]);
    h_c28_auth_key => || c28_one(2, KEY, &[1, 16, 17]);
    h_c28_any_neg => || message(0, &one_desc_bytes(0, vp::choose("which", 2), 9, 3));
    h_c28_any_chal0 => || message(1, &one_desc_bytes(1, 0, 8, 6));
    h_c28_any_chal1 => || message(1, &one_desc_bytes(1, 1, 8, 6));
    h_c28_any_auth => || message(2, &one_desc_bytes(2, [DOM, USER, WS, KEY][vp::shard(4)], 24, 4));
    h_c28_neg => || c28_all(0);
    h_c28_chal => || c28_all(1);
    h_c28_auth => || c28_all(2);
    h_c28_infos => c28_infos;
    h_c29_l0 => || c29(0, false);
    h_c29_l1 => || c29(1, false);
    h_c29_l2 => || c29(2, false);
    h_c29_l3 => || c29(3, false);
    h_c29_l4 => || c29(4, false);
    h_c29_l5 => || c29(5, false);
    ht_c29_l0 => || c29(0, true);
    ht_c29_l1 => || c29(1, true);
    ht_c29_l2 => || c29(2, true);
    ht_c29_l3 => || c29(3, true);
    ht_c29_l4 => || c29(4, true);
}
