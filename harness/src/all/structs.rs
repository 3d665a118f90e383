//! C08: AV pairs. C09: text. C10, C11: builders. C12: flags. C13: file times. C27: fixed-size structures.
use crate::all::decode::{read_pair, Read};
use crate::kit::*;
use crate::spec::*;
use crate::vp;
use http_ntlm::messages::flags as f;
use http_ntlm::messages::structures::*;
use http_ntlm::messages::verif_hooks::{Codec, OEMString, UnicodeString};
use http_ntlm::messages::{Authenticate, Challenge, Flags, Negotiate};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---------------------------------------------------------------- C08

/// Encodes as specified, decodes back, leaves what follows.
pub fn pair_exact(p: &P) {
    let w = p.wire();
    let v = p.av();
    let e = v.encode();
    vp::observe("bytes", &e);
    vp::check_eq(&e, &w, "encoding of an AV pair");
    vp::check(v.get_id() as u16 == p.id(), "identifier");
    let n = [0, 1, 5][vp::choose("following", 3)];
    let mut b = w.clone();
    b.extend_from_slice(&vp::vec("rest", n));
    match AvPair::decode(&b) {
        None => vp::check(false, "encoded AV pair does not decode"),
        Some((d, rest)) => {
            vp::check(d == v, "decoded AV pair differs");
            vp::check(rest == n, "bytes after the AV pair");
            vp::reach("pair");
        }
    }
}
pub fn c08_pairs(n: usize, maxclass: usize) {
    vp::expect("pair");
    pair_exact(&any_pair(n, maxclass));
}
/// Long values: a few unconstrained characters in a text of any of these lengths.
pub const LONG: [usize; 9] = [63, 64, 127, 128, 129, 255, 256, 300, 1000];
pub fn long_text(n: usize) -> Vec<u32> {
    let mut s: Vec<u32> = (0..n).map(|i| 0x41 + (i % 26) as u32).collect();
    s[0] = scalar("first", 1);
    s[n - 1] = scalar("last", 3);
    vp::assume((s[0] != 0) & (s[n - 1] != 0));
    s
}
pub fn c08_long() {
    vp::expect("pair");
    let id = TEXT_IDS[vp::choose("kind", 6)];
    pair_exact(&P::Text(id, long_text(LONG[vp::choose("chars", 9)])));
}
pub fn c08_lists(max: usize) {
    vp::expect("list");
    let mut l = vec![];
    for _ in 0..vp::choose("pairs", max + 1) {
        l.push(any_pair(1, 1));
    }
    list_exact(&l);
}
pub fn list_exact(l: &[P]) {
    let v: Vec<AvPair> = l.iter().map(|p| p.av()).collect();
    let w = wire_list(l);
    vp::check_eq(&v.encode(), &w, "encoding of a list");
    match Vec::<AvPair>::decode(&w) {
        None => vp::check(false, "encoded list does not decode"),
        Some((d, rest)) => {
            vp::check(d.len() == l.len(), "number of pairs");
            for (a, b) in d.iter().zip(&v) {
                vp::check(a == b, "pair in a list");
            }
            vp::check(rest == 0, "list leaves bytes");
            vp::reach("list");
        }
    }
}
/// Any bytes: read as the pair they hold, or rejected.
pub fn pair_bytes(b: &[u8]) {
    match read_pair(b) {
        Read::Malformed => {
            vp::check(AvPair::decode(b).is_none(), "malformed AV pair accepted");
            vp::reach("rejected");
        }
        Read::Pair(n, _) => match AvPair::decode(b) {
            None => vp::check(false, "well-formed AV pair rejected"),
            Some((d, rest)) => {
                vp::check(rest == b.len() - n, "bytes after the AV pair");
                vp::check_eq(&d.encode(), &b[..n], "value of an AV pair");
                vp::reach("accepted");
            }
        },
        Read::Unclear => {
            if let Some((d, _)) = AvPair::decode(b) {
                vp::check(d.get_id() as u16 == le16(b, 0), "AV pair of another kind");
            }
        }
    }
}
pub fn c08_bytes(min: usize, max: usize) {
    vp::expect("rejected");
    vp::expect("accepted");
    let n = min + vp::choose("len", max + 1 - min);
    pair_bytes(&vp::vec("bytes", n));
}
/// The fixed-size kinds, with every claimed length.
pub fn c08_fixed(id: u8, n: usize) {
    vp::expect("rejected");
    vp::expect("accepted");
    let mut b = vp::vec("bytes", n);
    b[0] = id;
    b[1] = 0;
    pair_bytes(&b);
}
/// Unknown identifiers.
pub fn c08_unknown() {
    vp::expect("rejected");
    let n = [0, 4, 8, 16, 48][vp::choose("size", 5)];
    let id = vp::u16_("id");
    vp::assume(id > 10);
    let mut b = id.to_le_bytes().to_vec();
    b.extend_from_slice(&(n as u16).to_le_bytes());
    b.extend_from_slice(&vp::vec("value", n));
    vp::check(AvPair::decode(&b).is_none(), "unknown AV pair accepted");
    vp::reach("rejected");
}

// ---------------------------------------------------------------- C09

pub fn carried(s: &[u32]) {
    let w = utf16le(s);
    let e = utf8(s);
    let u = UnicodeString::from(string(s));
    let b = u.encode();
    vp::observe("bytes", &b);
    vp::check_eq(&b, &w, "UTF-16LE encoding");
    match UnicodeString::decode(&b) {
        None => vp::check(false, "encoded text does not decode"),
        Some((d, rest)) => {
            vp::check_eq(d.as_bytes(), &e, "decoded text");
            vp::check(rest == 0, "text leaves bytes");
            vp::reach("carried");
        }
    }
}
pub fn c09_text(n: usize) {
    vp::expect("carried");
    carried(&text("text", vp::choose("chars", n + 1), 4));
}
/// Through a message field or an AV pair.
pub fn c09_fields(n: usize) {
    vp::expect("carried");
    let s = text("text", n, 4);
    let e = utf8(&s);
    match vp::choose("where", 5) {
        0 => {
            let mut c = Challenge::default();
            c.set_target_name(Some(string(&s)));
            let d = Challenge::decode(&c.encode());
            vp::check(d.is_some(), "does not decode");
            vp::check_eq(d.unwrap().0.get_target_name().unwrap().as_bytes(), &e, "target name");
        }
        1 => {
            let mut c = Challenge::default();
            P::Text(TEXT_IDS[vp::choose("kind", 6)], s).add(&mut c);
            let d = Challenge::decode(&c.encode());
            vp::check(d.is_some(), "does not decode");
            let d = d.unwrap().0;
            let t = match &d.get_target_infos()[0] {
                AvPair::MsvAvNbComputerName(t) | AvPair::MsvAvNbDomainName(t) => t,
                AvPair::MsvAvDnsComputerName(t) | AvPair::MsvAvDnsDomainName(t) => t,
                AvPair::MsvAvDnsTreeName(t) | AvPair::MsvAvTargetName(t) => t,
                _ => {
                    vp::check(false, "another kind");
                    return;
                }
            };
            vp::check_eq(t.as_bytes(), &e, "AV pair text");
        }
        i => {
            let mut a = Authenticate::default();
            let u = Some(string(&s).into());
            match i {
                2 => a.domain = u,
                3 => a.user = u,
                _ => a.workstation = u,
            }
            let d = Authenticate::decode(&a.encode());
            vp::check(d.is_some(), "does not decode");
            let d = d.unwrap().0;
            let t = match i {
                2 => d.domain,
                3 => d.user,
                _ => d.workstation,
            };
            vp::check(t.is_some(), "text lost");
            vp::check_eq(t.unwrap().as_bytes(), &e, "text");
        }
    }
    vp::reach("carried");
}
pub fn c09_long() {
    vp::expect("carried");
    carried(&long_text(LONG[vp::choose("chars", 9)]));
}
/// Any code units: decodes to the text they start with, or less, or not at all.
pub fn c09_units(n: usize) {
    vp::expect("valid");
    vp::expect("invalid");
    let k = vp::choose("bytes", 2 * n + 1);
    let b = vp::vec("units", k);
    let mut s: Vec<u32> = vec![];
    let mut whole = true;
    let mut i = 0;
    while i + 1 < k {
        let c = le16(&b, i) as u32;
        i += 2;
        if c == 0 {
            whole = false;
            break;
        }
        if c < 0xd800 || c > 0xdfff {
            s.push(c);
            continue;
        }
        if c < 0xdc00 && i + 1 < k {
            let d = le16(&b, i) as u32;
            if d >= 0xdc00 && d <= 0xdfff {
                i += 2;
                s.push(0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00));
                continue;
            }
        }
        whole = false;
        break;
    }
    if k % 2 != 0 {
        whole = false;
    }
    let mut e: Vec<Vec<u8>> = vec![];
    for c in &s {
        e.push(wide(*c));
    }
    match UnicodeString::decode(&b) {
        None => {
            vp::check(!whole, "valid text rejected");
            vp::reach("invalid");
        }
        Some((t, _)) => {
            // text must be made of the leading characters only
            let t = t.as_bytes();
            let mut at = 0;
            for c in &e {
                if at == t.len() {
                    vp::check(!whole, "valid text cut short");
                    break;
                }
                vp::check(at + c.len() <= t.len(), "partial character");
                vp::check(vp::same(&t[at..at + c.len()], c), "character that was not there");
                at += c.len();
            }
            vp::check(at == t.len(), "text that was not there");
            vp::reach(if whole { "valid" } else { "invalid" });
        }
    }
}
pub fn wide(c: u32) -> Vec<u8> {
    utf8(&[c])
}

// ---------------------------------------------------------------- C10

pub fn maybe_name(what: &str) -> Option<Vec<u32>> {
    match vp::choose(what, 4) {
        0 => None,
        1 => Some(vec![]),
        _ => Some(text("name", 1, 2)),
    }
}
pub fn eq_opt(s: Option<&String>, m: &Option<Vec<u32>>, w: &str) {
    match (s, m) {
        (None, None) => {}
        (Some(s), Some(m)) => vp::check_eq(s.as_bytes(), &utf8(m), w),
        _ => vp::check(false, w),
    }
}
pub fn with(flags: u32, bit: u32, on: bool) -> u32 {
    if on {
        flags | bit
    } else {
        flags & !bit
    }
}
pub fn c10_neg(steps: usize) {
    vp::expect("set and cleared");
    let mut m = Negotiate::default();
    let mut flags = vp::u32_("flags");
    let v = any_version();
    m.negotiate_flags = Flags(flags);
    m.version = Some(v.0.clone());
    let (mut d, mut w) = (None, None);
    let mut cleared = false;
    for _ in 0..steps {
        if vp::flag("workstation") {
            let x = maybe_name("value");
            cleared |= w.is_some() && x.is_none();
            m.set_workstation(x.as_ref().map(|s| string(s)));
            flags = with(flags, bit::OEM_WORKSTATION, x.is_some());
            w = x;
        } else {
            let x = maybe_name("value");
            cleared |= d.is_some() && x.is_none();
            m.set_domain_name(x.as_ref().map(|s| string(s)));
            flags = with(flags, bit::OEM_DOMAIN, x.is_some());
            d = x;
        }
        vp::check(m.negotiate_flags.0 == flags, "flags");
        eq_opt(m.get_domain_name(), &d, "domain");
        eq_opt(m.get_workstation(), &w, "workstation");
        vp::check(m.version.as_ref() == Some(&v.0), "version");
    }
    if cleared {
        vp::reach("set and cleared")
    }
}
pub fn c10_chal(steps: usize) {
    vp::expect("set and cleared");
    let mut m = Challenge::default();
    let sc: [u8; 8] = vp::bytes("sc");
    let v = any_version();
    let p = pair(6, 0, 1);
    p.add(&mut m);
    let mut flags = vp::u32_("flags");
    m.negotiate_flags = Flags(flags);
    m.server_challenge = sc.into();
    m.version = Some(v.0.clone());
    let mut had = false;
    for _ in 0..steps {
        let x = maybe_name("value");
        m.set_target_name(x.as_ref().map(|s| string(s)));
        flags = with(flags, bit::REQUEST_TARGET, x.is_some());
        vp::check(m.negotiate_flags.0 == flags, "flags");
        eq_opt(m.get_target_name().map(|s| &**s), &x, "target name");
        vp::check(vp::same(&m.server_challenge, &sc), "server challenge");
        vp::check(m.version.as_ref() == Some(&v.0), "version");
        let l = m.get_target_infos();
        vp::check(l.len() == 2 && l[0] == p.av() && l[1] == AvPair::MsvAvEOL, "target information");
        if had && x.is_none() {
            vp::reach("set and cleared")
        }
        had = x.is_some();
    }
}
pub fn c10_auth(steps: usize) {
    vp::expect("set and cleared");
    let sh = AuthShape { lm: 1 + vp::choose("lm", 2), nt: 1, chars: [1, 1, 1], key: false, version: vp::flag("hasversion") };
    let a = build_auth(&sh, 1, vec![]);
    let mut m = a.msg.clone();
    let mut flags = vp::u32_("flags2");
    m.negotiate_flags = Flags(flags);
    let mut had = false;
    for _ in 0..steps {
        let k: Option<[u8; 16]> = match vp::choose("key", 3) {
            0 => None,
            1 => Some([0; 16]),
            _ => Some(vp::bytes("key")),
        };
        m.set_encrypted_random_session_key(k.map(|k| k.into()));
        flags = with(flags, bit::KEY_EXCH, k.is_some());
        vp::check(m.negotiate_flags.0 == flags, "flags");
        match (m.get_encrypted_random_session_key(), &k) {
            (None, None) => {}
            (Some(x), Some(k)) => vp::check_eq(x, k, "session key"),
            _ => vp::check(false, "session key presence"),
        }
        let mut rest = m.clone();
        rest.set_encrypted_random_session_key(None);
        rest.negotiate_flags = Flags(a.flags);
        vp::check(rest == a.msg, "another field changed");
        if had && k.is_none() {
            vp::reach("set and cleared")
        }
        had = k.is_some();
    }
}

// ---------------------------------------------------------------- C11

pub fn list_is(m: &Challenge, l: &[P]) {
    let g = m.get_target_infos();
    if l.is_empty() {
        vp::check(g.is_empty(), "list not empty");
        return;
    }
    vp::check(g.len() == l.len() + 1, "number of pairs");
    for (x, p) in g.iter().zip(l) {
        vp::check(*x == p.av(), "pair");
    }
    vp::check(g[l.len()] == AvPair::MsvAvEOL, "terminator");
}
pub fn c11_adds(steps: usize, chars: usize) {
    vp::expect("added");
    let mut m = Challenge::default();
    let flags = vp::u32_("flags") & !bit::VERSION;
    m.negotiate_flags = Flags(flags);
    let mut l: Vec<P> = vec![];
    for _ in 0..vp::choose("steps", steps + 1) {
        let id = 1 + vp::choose("kind", 10) as u16;
        let p = pair(id, if TEXT_IDS.contains(&id) { vp::choose("chars", chars + 1) } else { 0 }, 1);
        p.add(&mut m);
        l.push(p);
        list_is(&m, &l);
        vp::check(m.negotiate_flags.0 == flags | bit::TARGET_INFO, "flags");
    }
    list_is(&m, &l);
    if l.is_empty() {
        vp::check(m.negotiate_flags.0 == flags, "flags");
        vp::check(desc(&m.encode(), CHAL_DESC[1]).len == 0, "empty list on the wire");
    } else {
        let b = m.encode();
        let d = desc(&b, CHAL_DESC[1]);
        let mut w = l.clone();
        w.push(P::Eol);
        vp::check_eq(d.get(&b).unwrap_or(&[]), &wire_list(&w), "list on the wire");
        vp::reach("added");
    }
}
/// Additions to a list that was received, not built.
pub fn c11_received() {
    vp::expect("added");
    let mut l = vec![any_pair(1, 1)];
    if let P::Eol = l[0] {
        return;
    }
    let mut w = l.clone();
    w.push(P::Eol);
    let w = wire_list(&w);
    let n = w.len() as u16;
    let raw = raw_chal(0, &[0; 8], &[0; 8], &[NONE, Desc { len: n, max: n, off: 48 }], &w);
    let mut m = match Challenge::decode(&raw) {
        Some((m, _)) => m,
        None => return vp::check(false, "CHALLENGE does not decode"),
    };
    for _ in 0..1 + vp::choose("more", 2) {
        let id = [2u16, 6, 7][vp::choose("kind", 3)];
        let p = pair(id, 1, 1);
        p.add(&mut m);
        l.push(p);
    }
    list_is(&m, &l);
    vp::reach("added");
}
pub fn c11_env() {
    vp::expect("all four");
    let names = ["COMPUTERNAME", "COMPUTERDNSNAME", "USERDOMAIN", "USERDNSDOMAIN"];
    let ids = [1u16, 3, 2, 4];
    let mut m = Challenge::default();
    let mut l: Vec<P> = vec![];
    if vp::flag("already") {
        let p = pair(9, 1, 1);
        p.add(&mut m);
        l.push(p);
    }
    let before = l.len();
    for i in 0..4 {
        match vp::choose("var", 3) {
            0 => vp::env(names[i], None),
            1 => vp::env(names[i], Some(&[0x61, 0xff, 0x62])),
            _ => {
                let s = text("value", 2, 1);
                vp::env(names[i], Some(&utf8(&s)));
                // upper-cased without branching
                let t = if i % 2 == 0 {
                    s.iter().map(|&c| c - 32 * (((c >= 0x61) & (c <= 0x7a)) as u32)).collect()
                } else {
                    s
                };
                l.push(P::Text(ids[i], t));
            }
        }
    }
    if l.len() == before + 4 {
        vp::reach("all four")
    }
    m.fill_from_env();
    list_is(&m, &l);
    let want = if l.is_empty() { bit::UNICODE } else { bit::UNICODE | bit::TARGET_INFO };
    vp::check(m.negotiate_flags.0 == want, "flags");
}
/// Upper-casing beyond ASCII.
pub fn c11_env_upper() {
    let samples: [(&str, &str); 6] =
        [("straße", "STRASSE"), ("é", "É"), ("ŉx", "ʼNX"), ("ﬃ", "FFI"), ("𐐨", "𐐀"), ("ǆ", "Ǆ")];
    let (s, u) = samples[vp::choose("sample", 6)];
    for n in ["COMPUTERDNSNAME", "USERDNSDOMAIN"] {
        vp::env(n, None);
    }
    vp::env("COMPUTERNAME", Some(s.as_bytes()));
    vp::env("USERDOMAIN", Some(s.as_bytes()));
    let mut m = Challenge::default();
    m.fill_from_env();
    let l = m.get_target_infos();
    vp::check(l.len() == 3, "number of pairs");
    vp::check(l[0] == AvPair::MsvAvNbComputerName(u.to_owned()), "computer name");
    vp::check(l[1] == AvPair::MsvAvNbDomainName(u.to_owned()), "domain name");
}

// ---------------------------------------------------------------- C12

pub fn c12_bits() {
    let w = vp::u32_("word");
    let i = vp::choose("bit", 32) as u32;
    let on = (w >> i) & 1 == 1;
    let mut x = Flags(w);
    vp::check(x.has_flag(i) == on, "has_flag");
    x.set_flag(i);
    vp::check(x.0 == w | 1 << i, "set_flag");
    vp::check(x.has_flag(i), "has_flag after set_flag");
    x.set_flag(i);
    vp::check(x.0 == w | 1 << i, "set_flag twice");
    let mut y = Flags(w);
    y.clear_flag(i);
    vp::check(y.0 == w & !(1 << i), "clear_flag");
    vp::check(!y.has_flag(i), "has_flag after clear_flag");
    y.clear_flag(i);
    vp::check(y.0 == w & !(1 << i), "clear_flag twice");
    x.clear_flag(i);
    vp::check(x.0 == w & !(1 << i), "clear_flag after set_flag");
    vp::observe("x", &x.0.to_le_bytes());
    // a symbolic bit index
    let j = vp::u32_("index");
    vp::assume(j < 32);
    let mut z = Flags(w);
    z.set_flag(j);
    vp::check(z.0 == w | 1 << j, "set_flag");
    z.clear_flag(j);
    vp::check(z.0 == w & !(1 << j), "clear_flag");
    vp::check(Flags(w).has_flag(j) == ((w >> j) & 1 == 1), "has_flag");
}
pub fn c12_names() {
    let t = [
        (f::NTLMSSP_NEGOTIATE_56, bit::K56),
        (f::NTLMSSP_NEGOTIATE_KEY_EXCH, bit::KEY_EXCH),
        (f::NTLMSSP_NEGOTIATE_128, bit::K128),
        (f::NTLMSSP_NEGOTIATE_VERSION, bit::VERSION),
        (f::NTLMSSP_NEGOTIATE_TARGET_INFO, bit::TARGET_INFO),
        (f::NTLMSSP_REQUEST_NON_NT_SESSION_KEY, bit::NON_NT_KEY),
        (f::NTLMSSP_NEGOTIATE_IDENTIFY, bit::IDENTIFY),
        (f::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY, bit::ESS),
        (f::NTLMSSP_TARGET_TYPE_SERVER, bit::TYPE_SERVER),
        (f::NTLMSSP_TARGET_TYPE_DOMAIN, bit::TYPE_DOMAIN),
        (f::NTLMSSP_NEGOTIATE_ALWAYS_SIGN, bit::ALWAYS_SIGN),
        (f::NTLMSSP_NEGOTIATE_OEM_WORKSTATION_SUPPLIED, bit::OEM_WORKSTATION),
        (f::NTLMSSP_NEGOTIATE_OEM_DOMAIN_SUPPLIED, bit::OEM_DOMAIN),
        (f::NTLMSSP_ANONYMOUS, bit::ANONYMOUS),
        (f::NTLMSSP_NEGOTIATE_NTLM, bit::NTLM),
        (f::NTLMSSP_NEGOTIATE_LM_KEY, bit::LM_KEY),
        (f::NTLMSSP_NEGOTIATE_DATAGRAM, bit::DATAGRAM),
        (f::NTLMSSP_NEGOTIATE_SEAL, bit::SEAL),
        (f::NTLMSSP_NEGOTIATE_SIGN, bit::SIGN),
        (f::NTLMSSP_REQUEST_TARGET, bit::REQUEST_TARGET),
        (f::NTLM_NEGOTIATE_OEM, bit::OEM),
        (f::NTLMSSP_NEGOTIATE_UNICODE, bit::UNICODE),
    ];
    let w = vp::u32_("word");
    let all = t.iter().fold(bit::RESERVED, |a, (_, m)| a | m);
    let (i, m) = t[vp::choose("flag", t.len())];
    let mut x = Flags(w);
    x.set_flag(i);
    vp::check(x.0 == w | m, "a named flag is another bit");
    let mut x = Flags(w);
    x.clear_flag(i);
    vp::check(x.0 == w & !m, "a named flag is another bit");
    vp::check(Flags(w).has_flag(i) == (w & m != 0), "a named flag is another bit");
    let r = [f::R1, f::R2, f::R3, f::R4, f::R5, f::R6, f::R7, f::R8, f::R9, f::R10];
    let mut rs = 0;
    for i in r {
        rs |= 1u32 << i;
    }
    vp::check(rs == bit::RESERVED, "reserved bits");
    vp::check(all == u32::MAX, "harness: every bit has a name");
}
pub fn transported(w: u32) {
    let b = w.to_le_bytes();
    let mut in_msg = raw_neg(w & !bit::VERSION, &[NONE; 2], &[]);
    match Flags::decode(&b) {
        None => vp::check(false, "flag word rejected"),
        Some((x, rest)) => {
            vp::check((x.0 == w) & (rest == 0), "flag word changed");
            vp::check_eq(&x.encode(), &b, "encoded flag word");
        }
    }
    let v = w & !bit::VERSION;
    match Negotiate::decode(&in_msg) {
        None => vp::check(false, "NEGOTIATE rejected"),
        Some((m, _)) => {
            vp::check(m.negotiate_flags.0 == v, "NEGOTIATE flags");
            in_msg = m.encode();
            vp::check(le32(&in_msg, 12) == v, "NEGOTIATE flags on the wire");
        }
    }
    match Challenge::decode(&raw_chal(v, &[1; 8], &[0; 8], &[NONE; 2], &[])) {
        None => vp::check(false, "CHALLENGE rejected"),
        Some((m, _)) => {
            vp::check(m.negotiate_flags.0 == v, "CHALLENGE flags");
            vp::check(le32(&m.encode(), 20) == v, "CHALLENGE flags on the wire");
        }
    }
    match Authenticate::decode(&raw_auth(v, &[NONE; 6], &[0; 16])) {
        None => vp::check(false, "AUTHENTICATE rejected"),
        Some((m, _)) => {
            vp::check(m.negotiate_flags.0 == v, "AUTHENTICATE flags");
            vp::check(le32(&m.encode(), AUTH_FLAGS) == v, "AUTHENTICATE flags on the wire");
        }
    }
}
pub fn strict_ok(w: u32) -> bool {
    (w & bit::RESERVED == 0)
        & (w & (bit::TYPE_DOMAIN | bit::TYPE_SERVER) != bit::TYPE_DOMAIN | bit::TYPE_SERVER)
        & (w & (bit::UNICODE | bit::OEM) != 0)
        & (w & (bit::ESS | bit::LM_KEY) != bit::ESS | bit::LM_KEY)
}
pub fn c12_strict() {
    vp::expect("accepted");
    vp::expect("rejected");
    let w = vp::u32_("word");
    match Flags::decode(&w.to_le_bytes()) {
        Some((x, rest)) => {
            vp::check(strict_ok(w), "forbidden flag word accepted");
            vp::check((x.0 == w) & (rest == 0), "flag word changed");
            vp::check_eq(&x.encode(), &w.to_le_bytes(), "encoded flag word");
            vp::reach("accepted");
        }
        None => {
            vp::check(!strict_ok(w), "allowed flag word rejected");
            vp::reach("rejected");
        }
    }
}
pub fn c12_strict_messages() {
    vp::expect("accepted");
    vp::expect("rejected");
    let w = vp::u32_("word") & !bit::VERSION;
    let r = match vp::choose("message", 3) {
        0 => Negotiate::decode(&raw_neg(w, &[NONE; 2], &[])).map(|m| m.0.negotiate_flags.0),
        1 => Challenge::decode(&raw_chal(w, &[1; 8], &[0; 8], &[NONE; 2], &[])).map(|m| m.0.negotiate_flags.0),
        _ => Authenticate::decode(&raw_auth(w, &[NONE; 6], &[0; 16])).map(|m| m.0.negotiate_flags.0),
    };
    match r {
        Some(x) => {
            vp::check(strict_ok(w), "forbidden flag word accepted");
            vp::check(x == w, "flag word changed");
            vp::reach("accepted");
        }
        None => {
            vp::check(!strict_ok(w), "allowed flag word rejected");
            vp::reach("rejected");
        }
    }
}

// ---------------------------------------------------------------- C13

pub const TICKS: u64 = 10_000_000;
pub const TO_1970: u64 = 11_644_473_600;

/// A time at or after 1970 whose seconds are below `limit`.
pub fn c13_from(limit_bits: u32) {
    vp::expect("converted");
    let s = vp::u64_("seconds");
    if limit_bits < 64 {
        vp::assume(s >> limit_bits == 0);
    }
    let ns = vp::u32_("nanoseconds");
    vp::assume(ns < 1_000_000_000);
    let t = match UNIX_EPOCH.checked_add(Duration::new(s, ns)) {
        None => return,
        Some(t) => t,
    };
    // the largest second a FILETIME can hold
    let last = u64::MAX / TICKS - TO_1970;
    match FileTime::try_from(t) {
        Err(_) => {
            vp::check(s >= last, "representable time rejected");
            vp::reach("rejected");
        }
        Ok(x) => {
            vp::observe("filetime", &x.as_u64().to_le_bytes());
            vp::check(s <= last, "unrepresentable time accepted");
            let first = (s + TO_1970).wrapping_mul(TICKS);
            let d = x.as_u64().wrapping_sub(first);
            vp::check(d < TICKS, "FILETIME of another second");
            vp::check(x.as_u64() >= first, "FILETIME wrapped");
            vp::check(x.as_u64() == (x.high as u64) << 32 | x.low as u64, "halves");
            vp::reach("converted");
        }
    }
}
pub fn c13_before() {
    let s = vp::u32_("seconds");
    let ns = vp::u32_("nanoseconds");
    vp::assume(ns < 1_000_000_000);
    vp::assume((s != 0) | (ns != 0));
    match UNIX_EPOCH.checked_sub(Duration::new(s as u64, ns)) {
        None => {}
        Some(t) => {
            // before 1970: an error, or the right value
            if let Ok(x) = FileTime::try_from(t) {
                let whole = (TO_1970 - s as u64) * TICKS;
                let d = whole.wrapping_sub(x.as_u64());
                vp::check(d <= TICKS, "wrong FILETIME before 1970");
            } else {
                vp::reach("rejected");
            }
        }
    }
}
pub fn c13_to() {
    vp::expect("converted");
    let (lo, hi) = (vp::u32_("low"), vp::u32_("high"));
    let x = FileTime { low: lo, high: hi };
    let v = (hi as u64) << 32 | lo as u64;
    vp::check(x.as_u64() == v, "value of the halves");
    match x.to_system_time() {
        None => vp::reach("no time"),
        Some(t) => {
            let s = v / TICKS;
            match t.duration_since(UNIX_EPOCH) {
                Ok(d) => {
                    vp::check(s >= TO_1970, "a time before 1970 reads as one after");
                    vp::check(d.as_secs() == s.wrapping_sub(TO_1970), "wrong second");
                    vp::reach("converted");
                }
                Err(e) => {
                    let d = e.duration();
                    vp::check(s < TO_1970, "a time after 1970 reads as one before");
                    // the instant lies in second s: up to one second after its start
                    let back = TO_1970 - s;
                    vp::check((d.as_secs() <= back) & (d.as_secs() + 1 >= back), "wrong second");
                    vp::check((d.as_secs() < back) | (d.subsec_nanos() == 0), "wrong second");
                    vp::reach("before 1970");
                }
            }
        }
    }
}
/// There and back.
pub fn c13_round() {
    vp::expect("round trip");
    let s = vp::u64_("seconds");
    vp::assume(s < u64::MAX / TICKS - TO_1970);
    let t = UNIX_EPOCH + Duration::from_secs(s);
    match FileTime::try_from(t) {
        Err(_) => vp::check(false, "representable time rejected"),
        Ok(x) => match x.to_system_time() {
            None => vp::check(false, "file time without a time"),
            Some(u) => match u.duration_since(UNIX_EPOCH) {
                Err(_) => vp::check(false, "time moved before 1970"),
                Ok(d) => {
                    vp::check(d.as_secs() == s, "another second");
                    vp::reach("round trip");
                }
            },
        },
    }
}
pub fn c13_now() {
    vp::expect("now");
    let (s, _) = vp::any_clock();
    let x = FileTime::now();
    let d = x.as_u64().wrapping_sub((s + TO_1970).wrapping_mul(TICKS));
    vp::check(d < TICKS, "now is another second");
    let _: SystemTime = UNIX_EPOCH;
    vp::reach("now");
}
/// Every file time decodes, to its own value.
pub fn c13_wire() {
    vp::expect("decoded");
    let b: [u8; 8] = vp::bytes("filetime");
    let x = FileTime { low: le32(&b, 0), high: le32(&b, 4) };
    vp::check_eq(&x.encode(), &b, "encoding");
    match FileTime::decode(&b) {
        None => vp::check(x.to_system_time().is_none(), "file time rejected"),
        Some((y, rest)) => {
            vp::check((y == x) & (rest == 0), "decoded file time");
            vp::check(y.as_u64() == le64(&b, 0), "64-bit value");
            vp::reach("decoded");
        }
    }
}

// ---------------------------------------------------------------- C27

pub fn fixed<T: Codec + PartialEq>(v: &T, w: &[u8]) {
    vp::expect("exact");
    let e = v.encode();
    vp::observe("bytes", &e);
    vp::check_eq(&e, w, "encoding");
    let n = [0, 1, 9][vp::choose("following", 3)];
    let mut b = w.to_vec();
    b.extend_from_slice(&vp::vec("rest", n));
    match T::decode(&b) {
        None => vp::check(false, "encoding does not decode"),
        Some((d, rest)) => {
            vp::check(d == *v, "decoded value differs");
            vp::check(rest == n, "following bytes");
        }
    }
    let k = vp::choose("kept", w.len());
    vp::check(T::decode(&w[..k]).is_none(), "truncated structure accepted");
    vp::reach("exact");
}
pub fn c27_version() {
    let (v, w) = any_version();
    fixed(&v, &w);
    let x: Version = (w[0], w[1], le16(&w, 2)).into();
    vp::check(x == v, "version from its number");
    vp::check(Version::try_from(w).as_ref() == Ok(&v), "version from raw bytes");
}
pub fn c27_version_raw() {
    vp::expect("accepted");
    vp::expect("rejected");
    let b: [u8; 8] = vp::bytes("bytes");
    let good = (b[4] | b[5] | b[6] == 0) & (b[7] == 15);
    let d = Version::decode(&b);
    match Version::try_from(b) {
        Ok(v) => {
            vp::check(good, "impossible version accepted");
            vp::check((v.major == b[0]) & (v.minor == b[1]) & (v.build == le16(&b, 2)), "version fields");
            vp::check(v.revision_count == 15, "revision");
            vp::check(d.map(|x| x.0).as_ref() == Some(&v), "conversion and decoding differ");
            vp::check_eq(&v.encode(), &b, "encoding");
            vp::reach("accepted");
        }
        Err(_) => {
            vp::check(!good, "version rejected");
            vp::check(d.is_none(), "conversion and decoding differ");
            vp::reach("rejected");
        }
    }
}
pub fn c27_filetime() {
    let b: [u8; 8] = vp::bytes("time");
    fixed(&FileTime { low: le32(&b, 0), high: le32(&b, 4) }, &b)
}
pub fn c27_host() {
    let mut b: [u8; 48] = vp::bytes("host");
    for i in 4..8 {
        b[i] = 0;
    }
    fixed(&single_host(&b), &b)
}
pub fn c27_responses() {
    let b: [u8; 24] = vp::bytes("response");
    match vp::choose("kind", 4) {
        0 => fixed(&Lmv1Challenge { response: b.into() }, &b),
        1 => {
            let (mut r, mut c) = ([0u8; 16], [0u8; 8]);
            r.copy_from_slice(&b[..16]);
            c.copy_from_slice(&b[16..]);
            fixed(&Lmv2Challenge { response: r.into(), challenge_from_client: c.into() }, &b)
        }
        2 => fixed(&Ntv1Challenge { response: b.into() }, &b),
        _ => {
            let mut c = [0u8; 8];
            c.copy_from_slice(&b[..8]);
            let l = Lmv1Challenge::from_client_challenge(&c.into());
            let mut w = [0u8; 24];
            w[..8].copy_from_slice(&c);
            fixed(&l, &w)
        }
    }
}
pub fn c27_enums() {
    // whichever variant it reads as, the bytes stay
    let b: [u8; 24] = vp::bytes("response");
    match LmChallenge::decode(&b) {
        None => vp::check(false, "LM response rejected"),
        Some((x, rest)) => {
            vp::check(rest == 0, "LM response leaves bytes");
            vp::check_eq(&x.encode(), &b, "LM response changed");
        }
    }
    vp::check_eq(&lm_value(vp::flag("v1"), &b).encode(), &b, "LM response encoding");
    vp::assume((b[0] != 1) | (b[1] != 1));
    match NtChallenge::decode(&b) {
        None => vp::check(false, "NT response rejected"),
        Some((x, rest)) => {
            vp::check(rest == 0, "NT response leaves bytes");
            vp::check_eq(&x.encode(), &b, "NT response changed");
        }
    }
}
pub fn c27_signature() {
    let b: [u8; 12] = vp::bytes("signature");
    let mut w = vec![1, 0, 0, 0];
    w.extend_from_slice(&b);
    let mut p = [0u8; 4];
    p.copy_from_slice(&b[..4]);
    fixed(&MessageSignature { random_pad: p.into(), checksum: le32(&b, 4), seq_num: le32(&b, 8) }, &w)
}
pub fn c27_flags() {
    let w = vp::u32_("flags");
    fixed(&Flags(w), &w.to_le_bytes())
}
pub fn buffer<T: Codec + PartialEq + From<[u8; N]> + std::ops::Deref<Target = [u8]>, const N: usize>() {
    let b: [u8; N] = vp::bytes("bytes");
    let v: T = b.into();
    vp::check_eq(&v, &b, "bytes of a buffer");
    fixed(&v, &b)
}
pub fn c27_buffers() {
    match vp::choose("type", 11) {
        0 => buffer::<ServerChallenge, 8>(),
        1 => buffer::<ClientChallenge, 8>(),
        2 => buffer::<SessionBaseKey, 16>(),
        3 => buffer::<KeyExchangeKey, 16>(),
        4 => buffer::<ExportedSessionKey, 16>(),
        5 => buffer::<EncryptedRandomSessionKey, 16>(),
        6 => buffer::<NtProofStr, 16>(),
        7 => buffer::<Response16, 16>(),
        8 => buffer::<Response24, 24>(),
        9 => buffer::<Mic, 16>(),
        _ => buffer::<RandomPad, 4>(),
    }
    let k: [u8; 16] = vp::bytes("key");
    let e: EncryptedRandomSessionKey = ExportedSessionKey::from(k).into();
    vp::check_eq(&e, &k, "session key conversion");
    let x: KeyExchangeKey = SessionBaseKey::from(k).into();
    vp::check_eq(&x, &k, "key conversion");
}
/// Structures with a fixed content: anything else is not one.
pub fn c27_impossible() {
    vp::expect("rejected");
    match vp::choose("kind", 2) {
        0 => {
            let b: [u8; 48] = vp::bytes("host");
            vp::assume(le32(&b, 4) != 0);
            vp::check(SingleHostData::decode(&b).is_none(), "single-host data with a non-zero Z4 accepted");
        }
        _ => {
            let b: [u8; 16] = vp::bytes("signature");
            vp::assume(le32(&b, 0) != 1);
            vp::check(MessageSignature::decode(&b).is_none(), "signature of another version accepted");
        }
    }
    vp::reach("rejected");
}
pub fn c27_oem() {
    vp::expect("exact");
    let s = text_nul_in("text", vp::choose("chars", 4), 4);
    let e = utf8(&s);
    let o = OEMString::from(string(&s));
    vp::check_eq(&o.encode(), &e, "encoding");
    match OEMString::decode(&e) {
        None => vp::check(false, "text does not decode"),
        Some((d, rest)) => {
            vp::check_eq(d.as_bytes(), &e, "decoded text");
            vp::check(rest == 0, "text leaves bytes");
        }
    }
    vp::reach("exact");
}

harnesses! {
    h_c08_pairs => || c08_pairs(2, 2);
    ht_c08_pairs => || c08_pairs(2, 4);
    h_c08_long => c08_long;
    h_c08_lists => || c08_lists(2);
    ht_c08_lists => || c08_lists(3);
    h_c08_bytes => || c08_bytes(0, 10);
    ht_c08_bytes => || c08_bytes(11, 16);
    h_c08_flags => || c08_fixed(6, 14);
    h_c08_time => || c08_fixed(7, 14);
    h_c08_host => || c08_fixed(8, 54);
    h_c08_bind => || c08_fixed(10, 22);
    h_c08_eol => || c08_fixed(0, 8);
    h_c08_unknown => c08_unknown;

    h_c09_text => || c09_text(3);
    ht_c09_text => || c09_text(5);
    h_c09_fields => || c09_fields(1);
    ht_c09_fields => || c09_fields(2);
    h_c09_long => c09_long;
    h_c09_units => || c09_units(3);
    ht_c09_units => || c09_units(5);

    h_c10_neg => || c10_neg(3);
    h_c10_chal => || c10_chal(3);
    h_c10_auth => || c10_auth(3);
    ht_c10_neg => || c10_neg(4);
    ht_c10_chal => || c10_chal(5);

    h_c11_adds => || c11_adds(2, 1);
    ht_c11_adds => || c11_adds(3, 1);
    h_c11_received => c11_received;
    h_c11_env => c11_env;
    h_c11_env_upper => c11_env_upper;

    h_c12_bits => c12_bits;
    h_c12_names => c12_names;
    h_c12_transport => || transported(vp::u32_("word"));
    hs_c12_words => c12_strict;
    hs_c12_messages => c12_strict_messages;

    h_c13_from => || c13_from(64);
    h_c13_before => c13_before;
    h_c13_to => c13_to;
    h_c13_round => c13_round;
    h_c13_now => c13_now;
    h_c13_wire => c13_wire;

    h_c27_version => c27_version;
    h_c27_version_raw => c27_version_raw;
    h_c27_filetime => c27_filetime;
    h_c27_host => c27_host;
    h_c27_responses => c27_responses;
    h_c27_enums => c27_enums;
    h_c27_signature => c27_signature;
    h_c27_flags => c27_flags;
    h_c27_buffers => c27_buffers;
    h_c27_impossible => c27_impossible;
    h_c27_oem => c27_oem;
}
