//! C01: decoding untrusted bytes. C06: descriptors anywhere. C07: malformed messages.
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};

pub fn total<T: Codec>(input: &[u8]) {
    match T::decode(input) {
        Some((_, rest)) => {
            vp::check(rest <= input.len(), "decoder leaves more than it was given");
            vp::reach("decoded");
        }
        None => vp::reach("rejected"),
    }
}

/// Every byte string of `min` to `max` bytes.
pub fn any_bytes<T: Codec>(min: usize, max: usize) {
    let n = min + vp::choose("len", max + 1 - min);
    let b = vp::vec("bytes", n);
    total::<T>(&b);
}

/// An NTLMv2 response: a proof that cannot be taken for the head of the bare form, then anything.
pub fn nt_proof(min: usize, max: usize) {
    let n = min + vp::choose("len", max + 1 - min);
    let b = vp::vec("bytes", n);
    vp::assume(b[0] != 1);
    total::<NtChallenge>(&b);
}

/// A pair of one of the fixed-size kinds (its identifier concrete), anything else unconstrained.
pub fn av_fixed(min: usize, max: usize) {
    let id = [6u8, 7, 8, 10][vp::choose("kind", 4)];
    let n = min + vp::choose("len", max + 1 - min);
    let mut b = vp::vec("bytes", n);
    b[0] = id;
    b[1] = 0;
    total::<AvPair>(&b);
}

/// A message of `fixed` + `tail` bytes whose descriptor `i` is anything at all (when it lies inside
/// the message, of at most `maxlen` bytes), all others absent.
pub fn one_desc(kind: usize, i: usize, tail: usize, maxlen: usize) {
    let b = one_desc_bytes(kind, i, tail, maxlen);
    match kind {
        0 => total::<Negotiate>(&b),
        1 => total::<Challenge>(&b),
        _ => total::<Authenticate>(&b),
    }
}
pub fn one_desc_bytes(kind: usize, i: usize, tail: usize, maxlen: usize) -> Vec<u8> {
    let at: &[usize] = [&NEG_DESC[..], &CHAL_DESC[..], &AUTH_DESC[..]][kind];
    let fixed = [32, 48, 64][kind];
    let mut b = vp::vec("bytes", fixed + tail);
    b[..8].copy_from_slice(&SIG);
    b[8..12].copy_from_slice(&[kind as u8 + 1, 0, 0, 0]);
    for (j, o) in at.iter().enumerate() {
        if j != i {
            b[*o] = 0;
            b[*o + 1] = 0;
        }
    }
    let d = desc(&b, at[i]);
    if kind == 1 && i == 1 {
        vp::assume((d.off & 7) as usize == vp::shard(8));
    }
    let end = d.off as u64 + d.len as u64;
    if end <= b.len() as u64 {
        // in range: every offset and every length
        vp::assume(d.len <= maxlen as u16);
        let l = vp::conc(d.len as u64) as u16;
        let o = vp::conc(d.off as u64) as u32;
        b[at[i]..at[i] + 2].copy_from_slice(&l.to_le_bytes());
        b[at[i] + 4..at[i] + 8].copy_from_slice(&o.to_le_bytes());
        vp::reach("in range");
    } else {
        vp::reach("out of range");
    }
    vp::expect("in range");
    vp::expect("out of range");
    b
}
/// All descriptors of a message out of range in their own way, one of them possibly empty.
pub fn far_descs(kind: usize) {
    let at: &[usize] = [&NEG_DESC[..], &CHAL_DESC[..], &AUTH_DESC[..]][kind];
    let fixed = [40, 56, 88][kind];
    let mut b = vp::vec("bytes", fixed);
    b[..8].copy_from_slice(&SIG);
    b[8..12].copy_from_slice(&[kind as u8 + 1, 0, 0, 0]);
    for o in at {
        let d = desc(&b, *o);
        vp::assume((d.len == 0) | (d.off as u64 + d.len as u64 > fixed as u64));
    }
    match kind {
        0 => total::<Negotiate>(&b),
        1 => total::<Challenge>(&b),
        _ => total::<Authenticate>(&b),
    }
}

// ---------------------------------------------------------------- C06

/// Background, headers and descriptors of a message; payloads are wherever the descriptors say.
pub struct Raw {
    pub b: Vec<u8>,
    pub at: &'static [usize],
}
pub fn raw(kind: usize, version: bool, extra: usize) -> Raw {
    let at: &'static [usize] = [&NEG_DESC[..], &CHAL_DESC[..], &AUTH_DESC[..]][kind];
    let fixed = [32, 48, 80][kind] + if version { 8 } else { 0 };
    let mut b = vp::vec("bytes", fixed + extra);
    b[..8].copy_from_slice(&SIG);
    b[8..12].copy_from_slice(&[kind as u8 + 1, 0, 0, 0]);
    let f = [12, 20, 60][kind] + 3;
    let v = (bit::VERSION >> 24) as u8;
    if version {
        b[f] |= v;
        let vat = [32, 48, 64][kind];
        for j in 4..7 {
            b[vat + j] = 0;
        }
        b[vat + 7] = 15;
    } else {
        b[f] &= !v;
    }
    for o in at {
        // absent, whatever the rest of the descriptor says
        b[*o] = 0;
        b[*o + 1] = 0;
    }
    Raw { b, at }
}
impl Raw {
    pub fn place(&mut self, i: usize, len: usize, off: usize) {
        let o = self.at[i];
        self.b[o..o + 2].copy_from_slice(&(len as u16).to_le_bytes());
        self.b[o + 4..o + 8].copy_from_slice(&(off as u32).to_le_bytes());
    }
    pub fn get(&self, i: usize) -> &[u8] {
        let d = desc(&self.b, self.at[i]);
        if d.len == 0 {
            return &[];
        }
        d.get(&self.b).unwrap()
    }
}
/// Restricts attention to payloads that are plain single-unit text without NUL.
pub fn plain16(b: &[u8]) {
    let mut ok = true;
    for u in b.chunks(2) {
        let c = u[0] as u32 | (u[1] as u32) << 8;
        ok &= (c != 0) & ((c < 0xd800) | (c > 0xdfff));
    }
    vp::assume(ok)
}
pub fn plain8(b: &[u8]) {
    let mut ok = true;
    for c in b {
        ok &= *c < 0x80;
    }
    vp::assume(ok)
}
/// What plain text reads as.
pub fn text16(b: &[u8]) -> Option<Vec<u8>> {
    if b.is_empty() {
        return None;
    }
    let s: Vec<u32> = b.chunks(2).map(|u| u[0] as u32 | (u[1] as u32) << 8).collect();
    Some(utf8(&s))
}
pub fn is_text(s: Option<&[u8]>, e: Option<Vec<u8>>, m: &str) {
    match (s, e) {
        (None, None) => {}
        (Some(s), Some(e)) => vp::check_eq(s, &e, m),
        _ => vp::check(false, m),
    }
}
pub fn opt(b: &[u8]) -> Option<Vec<u8>> {
    if b.is_empty() {
        None
    } else {
        Some(b.to_vec())
    }
}
pub fn read_neg(r: &Raw, version: bool) {
    plain8(r.get(0));
    plain8(r.get(1));
    match Negotiate::decode(&r.b) {
        None => vp::check(false, "conformant NEGOTIATE rejected"),
        Some((m, _)) => {
            vp::check(m.negotiate_flags.0 == le32(&r.b, 12), "flags");
            vp::check(m.version.is_some() == version, "version");
            if let Some(v) = &m.version {
                vp::check((v.major == r.b[32]) & (v.minor == r.b[33]) & (v.build == le16(&r.b, 34)), "version value")
            }
            is_text(m.get_domain_name().map(|s| s.as_bytes()), opt(r.get(0)), "domain");
            is_text(m.get_workstation().map(|s| s.as_bytes()), opt(r.get(1)), "workstation");
            vp::reach("read");
        }
    }
}
pub fn read_chal(r: &Raw, version: bool, infos: &[P]) {
    plain16(r.get(0));
    match Challenge::decode(&r.b) {
        None => vp::check(false, "conformant CHALLENGE rejected"),
        Some((m, _)) => {
            vp::check(m.negotiate_flags.0 == le32(&r.b, 20), "flags");
            vp::check_eq(&m.server_challenge, &r.b[24..32], "server challenge");
            vp::check(m.version.is_some() == version, "version");
            if let Some(v) = &m.version {
                vp::check((v.major == r.b[48]) & (v.minor == r.b[49]) & (v.build == le16(&r.b, 50)), "version value")
            }
            is_text(m.get_target_name().map(|s| s.as_bytes()), text16(r.get(0)), "target name");
            let l = m.get_target_infos();
            vp::check(l.len() == infos.len(), "number of pairs");
            for (x, p) in l.iter().zip(infos) {
                vp::check(*x == p.av(), "pair");
            }
            vp::reach("read");
        }
    }
}
pub fn read_message(r: &Raw, version: bool) {
    let keyed = r.get(5).len() == 16;
    if keyed {
        let k = le32(&r.b, AUTH_FLAGS) & bit::KEY_EXCH;
        vp::assume(k != 0);
    }
    for i in [DOM, USER, WS] {
        plain16(r.get(i));
    }
    match Authenticate::decode(&r.b) {
        None => vp::check(false, "conformant AUTHENTICATE rejected"),
        Some((m, _)) => {
            let fixed = if version { 88 } else { 80 };
            vp::check(m.negotiate_flags.0 == le32(&r.b, AUTH_FLAGS), "flags");
            vp::check(m.version.is_some() == version, "version");
            if let Some(v) = &m.version {
                vp::check((v.major == r.b[64]) & (v.minor == r.b[65]) & (v.build == le16(&r.b, 66)), "version value")
            }
            vp::check_eq(&m.mic, &r.b[fixed - 16..fixed], "MIC");
            is_text(m.domain.as_ref().map(|s| s.as_bytes()), text16(r.get(DOM)), "domain");
            is_text(m.user.as_ref().map(|s| s.as_bytes()), text16(r.get(USER)), "user");
            is_text(m.workstation.as_ref().map(|s| s.as_bytes()), text16(r.get(WS)), "workstation");
            is_text(m.get_encrypted_random_session_key().map(|k| &k[..]), opt(r.get(KEY)), "session key");
            is_text(m.lm_challenge_response.map(|x| x.encode()).as_deref(), opt(r.get(LM)), "LM response");
            is_text(m.nt_challenge_response.map(|x| x.encode()).as_deref(), opt(r.get(NT)), "NT response");
            vp::reach("read");
        }
    }
}
/// One payload of `len` bytes anywhere in the message, even over the header.
pub fn c06_one(kind: usize, i: usize, len: usize) {
    vp::expect("read");
    let version = vp::flag("hasversion");
    let mut r = raw(kind, version, len + 2);
    let off = vp::choose("offset", r.b.len() + 1 - len);
    r.place(i, len, off);
    if kind == 2 && i == NT {
        // an NTLMv1 response: not something that starts like an NTLMv2 blob
        vp::assume((r.get(NT)[0] != 1) | (r.get(NT)[1] != 1));
        vp::assume((r.get(NT)[16] != 1) | (r.get(NT)[17] != 1));
    }
    match kind {
        0 => read_neg(&r, version),
        1 => read_chal(&r, version, &[]),
        _ => read_message(&r, version),
    }
}
/// Two payloads anywhere behind the header: any order, gap, overlap.
pub fn c06_two(kind: usize, i: usize, j: usize, li: usize, lj: usize, extra: usize) {
    vp::expect("read");
    let version = vp::flag("hasversion");
    let mut r = raw(kind, version, extra);
    let base = r.b.len() - extra;
    let (a, c) = (vp::choose("first", extra + 1 - li), vp::choose("second", extra + 1 - lj));
    r.place(i, li, base + a);
    r.place(j, lj, base + c);
    match kind {
        0 => read_neg(&r, version),
        1 => read_chal(&r, version, &[]),
        _ => read_message(&r, version),
    }
}
pub fn c06_auth_two() {
    let i = 2 + vp::choose("i", 3);
    let j = [DOM, USER, WS, KEY][vp::choose("j", 4)];
    if j <= i {
        return;
    }
    c06_two(2, i, j, 2, if j == KEY { 16 } else { 4 }, if j == KEY { 19 } else { 7 })
}
/// A target-information list anywhere, next to, inside or around a target name.
pub fn c06_infos() {
    vp::expect("read");
    let version = vp::flag("hasversion");
    let infos = match vp::choose("list", 3) {
        0 => vec![P::Eol],
        1 => vec![pair(6, 0, 1), P::Eol],
        _ => vec![pair(2, 1, 1), P::Eol],
    };
    let w = wire_list(&infos);
    let extra = w.len() + 5;
    let mut r = raw(1, version, extra);
    let base = r.b.len() - extra;
    let o = base + vp::choose("infos", 6);
    r.b[o..o + w.len()].copy_from_slice(&w);
    r.place(1, w.len(), o);
    let n = 2 * vp::choose("namelen", 3);
    if n > 0 {
        let p = base + vp::choose("name", extra + 1 - n);
        r.place(0, n, p);
    }
    read_chal(&r, version, &infos);
}
/// All six AUTHENTICATE payloads, in any of a set of orders, with gaps.
pub fn c06_auth_all() {
    vp::expect("read");
    let version = vp::flag("hasversion");
    let gap = vp::choose("gap", 3);
    let (rot, rev) = (vp::choose("rotation", 6), vp::flag("reversed"));
    let len = [24, 24, 2, 4, 6, 16];
    let mut order: Vec<usize> = (0..6).map(|i| (i + rot) % 6).collect();
    if rev {
        order.reverse();
    }
    let total: usize = len.iter().sum::<usize>() + 7 * gap;
    let mut r = raw(2, version, total);
    let mut at = r.b.len() - total + gap;
    for i in order {
        r.place(i, len[i], at);
        at += len[i] + gap;
    }
    vp::assume((r.get(NT)[0] != 1) | (r.get(NT)[1] != 1));
    vp::assume((r.get(NT)[16] != 1) | (r.get(NT)[17] != 1));
    for i in [DOM, USER, WS] {
        let mut ok = true;
        for u in r.get(i).chunks(2) {
            ok &= (u[0] < 0x80) & (u[0] != 0) & (u[1] == 0);
        }
        vp::assume(ok);
    }
    read_message(&r, version);
}
/// An NTLMv2 response anywhere.
pub fn c06_auth_ntv2() {
    vp::expect("read");
    let nt = if vp::flag("proof") {
        Nt::V2(Some(vp::bytes("proof")), (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), vec![pair(2, 1, 1), P::Eol])
    } else {
        Nt::V2(None, (vp::u32_("low"), vp::u32_("high")), vp::bytes("cc"), vec![pair(2, 1, 1), P::Eol])
    };
    let w = nt.wire();
    if let Nt::V2(None, ..) = nt {
        vp::assume((w[16] != 1) | (w[17] != 1));
    }
    let version = vp::flag("hasversion");
    let extra = w.len() + 3;
    let mut r = raw(2, version, extra);
    let o = r.b.len() - extra + vp::choose("offset", 4);
    r.b[o..o + w.len()].copy_from_slice(&w);
    r.place(NT, w.len(), o);
    read_message(&r, version);
}
/// A distant payload in a message larger than 16-bit offsets reach.
pub fn c06_far(kind: usize) {
    vp::expect("read");
    let mut r = raw(kind, false, 0);
    let off = [0xff, 0x100, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x10000, 0x10001][vp::choose("offset", 8)];
    let v: [u8; 4] = vp::bytes("payload");
    r.b.resize(off + 7, 0x41);
    r.b[off..off + 4].copy_from_slice(&v);
    let i = [0, 0, 2][kind] + vp::choose("field", [2, 1, 3][kind]);
    r.place(i, 4, off);
    match kind {
        0 => read_neg(&r, false),
        1 => read_chal(&r, false, &[]),
        _ => read_message(&r, false),
    }
}

// ---------------------------------------------------------------- C07

pub fn rejected(kind: usize, b: &[u8], m: &str) {
    let r = match kind {
        0 => Negotiate::decode(b).is_none(),
        1 => Challenge::decode(b).is_none(),
        _ => Authenticate::decode(b).is_none(),
    };
    vp::check(r, m);
    vp::reach("rejected");
}
/// Twelve leading bytes that are not the right ones.
pub fn c07_head(kind: usize) {
    vp::expect("rejected");
    let mut r = raw(kind, vp::flag("hasversion"), 4);
    let head = r.b[..12].to_vec();
    let h = vp::vec("head", 12);
    vp::assume(!vp::same(&h, &head));
    r.b[..12].copy_from_slice(&h);
    rejected(kind, &r.b, "wrong signature or message type accepted");
}
/// Cut off before the end of the fixed part.
pub fn c07_short(kind: usize) {
    vp::expect("rejected");
    let r = raw(kind, vp::flag("hasversion"), 0);
    let n = vp::choose("kept", r.b.len());
    rejected(kind, &r.b[..n], "truncated message accepted");
}
pub fn c07_version(kind: usize) {
    vp::expect("rejected");
    let mut r = raw(kind, true, 4);
    let at = [32, 48, 64][kind];
    let v: [u8; 8] = vp::bytes("version");
    vp::assume((v[4] | v[5] | v[6] != 0) | (v[7] != 15));
    r.b[at..at + 8].copy_from_slice(&v);
    rejected(kind, &r.b, "bad version accepted");
}
/// A non-empty descriptor that reaches beyond the message.
pub fn c07_range(kind: usize, i: usize, extra: usize) {
    vp::expect("rejected");
    let mut r = raw(kind, vp::flag("hasversion"), extra);
    let at = r.at[i];
    let d: [u8; 8] = vp::bytes("desc");
    r.b[at..at + 8].copy_from_slice(&d);
    let d = desc(&r.b, at);
    vp::assume((d.len != 0) & (d.off as u64 + d.len as u64 > r.b.len() as u64));
    if kind == 2 && i == KEY {
        // MS-NLMP: the field is ignored without the flag
        r.b[AUTH_FLAGS + 3] |= 0x40;
    }
    rejected(kind, &r.b, "descriptor beyond the message accepted");
}

/// How a stretch of bytes reads as a pair: its size, whether it ends the list.
pub enum Read {
    Pair(usize, bool),
    Malformed,
    /// text that is not valid UTF-16 or contains a NUL: either reading is defensible
    Unclear,
}
pub fn read_pair(b: &[u8]) -> Read {
    if b.len() < 4 {
        return Read::Malformed;
    }
    let id = le16(b, 0);
    let n = le16(b, 2) as usize;
    if id > 10 || n > b.len() - 4 {
        return Read::Malformed;
    }
    let n = vp::conc(n as u64) as usize;
    let v = &b[4..4 + n];
    let fixed = |want: usize| n == want;
    match vp::conc(id as u64) {
        0 => {
            if n == 0 {
                Read::Pair(4, true)
            } else {
                Read::Malformed
            }
        }
        6 => {
            if fixed(4) && le32(v, 0) < 8 {
                Read::Pair(8, false)
            } else {
                Read::Malformed
            }
        }
        7 => {
            if fixed(8) {
                Read::Pair(12, false)
            } else {
                Read::Malformed
            }
        }
        8 => {
            if fixed(48) && le32(v, 4) == 0 {
                Read::Pair(52, false)
            } else {
                Read::Malformed
            }
        }
        10 => {
            if fixed(16) {
                Read::Pair(20, false)
            } else {
                Read::Malformed
            }
        }
        _ => {
            if n % 2 != 0 {
                return Read::Malformed;
            }
            let mut plain = true;
            for u in v.chunks(2) {
                let c = u[0] as u32 | (u[1] as u32) << 8;
                plain &= (c != 0) & ((c < 0xd800) | (c > 0xdfff));
            }
            if plain {
                Read::Pair(4 + n, false)
            } else {
                Read::Unclear
            }
        }
    }
}
/// A target-information field of any bytes: unless its well-formed pairs end in the terminator, no.
pub fn c07_infos(n: usize) {
    vp::expect("rejected");
    vp::expect("ends in the terminator");
    let v = vp::vec("infos", n);
    let mut r = raw(1, false, n);
    let o = r.b.len() - n;
    r.b[o..].copy_from_slice(&v);
    r.place(1, n, o);
    let mut at = 0;
    let mut eol = false;
    loop {
        match read_pair(&v[at..]) {
            Read::Pair(k, e) => {
                at += k;
                eol = e;
            }
            Read::Malformed => break,
            Read::Unclear => {
                vp::reach("unclear");
                return;
            }
        }
    }
    if eol {
        vp::reach("ends in the terminator");
        // well formed as a whole: must be accepted
        if at == n {
            vp::check(Challenge::decode(&r.b).is_some(), "well-formed list rejected");
        }
    } else {
        rejected(1, &r.b, "list without a terminator accepted");
    }
}
/// A well-formed list with its terminator missing, or with its last `cut` bytes missing.
pub fn c07_cut() {
    vp::expect("rejected");
    let l = vec![any_pair(1, 1), any_pair(1, 1), P::Eol];
    let mut w = wire_list(&l);
    let cut = vp::choose("cut", 4);
    let keep = w.len() - 4 + cut;
    w.truncate(keep);
    if w.is_empty() {
        return;
    }
    let k = l[0].wire().len() + l[1].wire().len();
    // a list whose second pair is itself a terminator still ends in one
    if let P::Eol = l[1] {
        return;
    }
    vp::check(k <= w.len(), "harness");
    let mut r = raw(1, vp::flag("hasversion"), w.len());
    let o = r.b.len() - w.len();
    r.b[o..].copy_from_slice(&w);
    r.place(1, w.len(), o);
    rejected(1, &r.b, "list without a terminator accepted");
}

harnesses! {
    h_c01_version => || any_bytes::<Version>(0, 9);
    h_c01_filetime => || any_bytes::<FileTime>(0, 9);
    h_c01_host => || any_bytes::<SingleHostData>(0, 50);
    h_c01_flags => || any_bytes::<Flags>(0, 5);
    h_c01_signature => || any_bytes::<MessageSignature>(0, 17);
    h_c01_lm => || any_bytes::<LmChallenge>(0, 26);
    h_c01_lmv1 => || any_bytes::<Lmv1Challenge>(0, 25);
    h_c01_lmv2 => || any_bytes::<Lmv2Challenge>(0, 25);
    h_c01_nt => || any_bytes::<NtChallenge>(0, 36);
    h_c01_nt_proof => || nt_proof(44, 56);
    ht_c01_nt_proof => || nt_proof(57, 64);
    ht_c01_nt_long => || any_bytes::<NtChallenge>(36, 60);
    h_c01_ntv2 => || any_bytes::<Ntv2Challenge>(26, 36);
    h_c01_avpair => || any_bytes::<AvPair>(0, 10);
    h_c01_avfixed => || av_fixed(4, 54);
    h_c01_avlist => || any_bytes::<Vec<AvPair>>(0, 13);
    ht_c01_avlist => || any_bytes::<Vec<AvPair>>(14, 20);
    h_c01_unicode => || any_bytes::<UnicodeString>(0, 8);
    h_c01_oem => || any_bytes::<OEMString>(0, 5);
    h_c01_neg_head => || any_bytes::<Negotiate>(0, 31);
    h_c01_chal_head => || any_bytes::<Challenge>(0, 47);
    h_c01_auth_head => || any_bytes::<Authenticate>(0, 63);
    h_c01_neg_d0 => || one_desc(0, 0, 8, 4);
    h_c01_neg_d1 => || one_desc(0, 1, 8, 4);
    h_c01_chal_d0 => || one_desc(1, 0, 8, 4);
    h_c01_chal_d1 => || one_desc(1, 1, 9, 9);
    h_c01_auth_d0 => || one_desc(2, 0, 25, 25);
    h_c01_auth_d1 => || one_desc(2, 1, 25, 30);
    h_c01_auth_d2 => || one_desc(2, 2, 24, 3);
    h_c01_auth_d3 => || one_desc(2, 3, 24, 3);
    h_c01_auth_d4 => || one_desc(2, 4, 24, 3);
    h_c01_auth_d5 => || one_desc(2, 5, 24, 18);
    h_c01_far0 => || far_descs(0);
    h_c01_far1 => || far_descs(1);
    h_c01_far2 => || far_descs(2);

    h_c06_neg_one => || { let i = vp::choose("field", 2); let l = 1 + vp::choose("size", 3); c06_one(0, i, l) };
    h_c06_chal_name => || c06_one(1, 0, [2, 4][vp::choose("size", 2)]);
    h_c06_auth_lm => || c06_one(2, LM, 24);
    h_c06_auth_nt => || c06_one(2, NT, 24);
    h_c06_auth_text => || { let i = 2 + vp::choose("field", 3); c06_one(2, i, [2, 4][vp::choose("size", 2)]) };
    h_c06_auth_key => || c06_one(2, KEY, 16);
    h_c06_neg_two => || c06_two(0, 0, 1, 2, 3, 7);
    h_c06_auth_two => c06_auth_two;
    h_c06_infos => c06_infos;
    h_c06_auth_all => c06_auth_all;
    h_c06_auth_ntv2 => c06_auth_ntv2;
    h_c06_far => || c06_far(vp::choose("message", 3));

    h_c07_head => || c07_head(vp::choose("message", 3));
    h_c07_short => || c07_short(vp::choose("message", 3));
    h_c07_version => || c07_version(vp::choose("message", 3));
    h_c07_range_neg => || c07_range(0, vp::choose("field", 2), 6);
    h_c07_range_chal => || c07_range(1, vp::choose("field", 2), 6);
    h_c07_range_auth => || c07_range(2, vp::choose("field", 6), 6);
    h_c07_infos4 => || c07_infos(4);
    h_c07_infos8 => || c07_infos(8);
    h_c07_infos => || { let n = 9 + vp::choose("size", 4); c07_infos(n) };
    h_c07_cut => c07_cut;
    ht_c07_infos16 => || c07_infos(16);
    ht_c07_infos20 => || c07_infos(20);
}
